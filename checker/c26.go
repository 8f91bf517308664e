package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C26: the area filter that keeps trips complete. Which of the areas contains which stop is known in each scenario;
// the trips and stops of the feed at the end are compared with those the property asks for.

type areaScen struct {
	name  string
	hier  string
	polys int
}

// areaFeed builds the feed of a scenario: stops in the order in which areas are assigned to them.
func (h *Heap) areaFeed(w *watch, hier string) (stops, trips []*Ent, uses map[*Ent][]*Ent) {
	c := h.core(w)
	h.e.mapDel(h.s, h.FeedMap("Trips"), c.trip.id)
	for _, s := range c.stops {
		h.e.mapDel(h.s, h.FeedMap("Stops"), s.id)
	}
	mk := func(n string, loc int64, parent *Ent) *Ent {
		s := h.newStop(n, loc, parent)
		for _, f := range []string{"Lat", "Lon"} {
			h.Set(s, f, h.e.TokT(f+"@"+n, h.fieldType("Stop", f)))
		}
		stops = append(stops, s)
		return s
	}
	a, b, d := mk("a", 0, nil), mk("b", 0, nil), mk("d", 0, nil)
	switch hier {
	case "with stations":
		st, st2 := mk("st", 1, nil), mk("st2", 1, nil)
		h.Set(a, "Parent_station", st.obj)
		h.Set(b, "Parent_station", st2.obj)
		nd := mk("nd", 3, st)
		mk("en", 2, st2)
		h.newPathway("p", a, nd)
	case "with boarding areas":
		st := mk("st", 1, nil)
		h.Set(a, "Parent_station", st.obj)
		ba := mk("ba", 4, a)
		h.Set(b, "Parent_station", st.obj)
		h.newPathway("p", ba, b)
		a = ba
	default:
		mk("x", 0, nil)
	}
	uses = map[*Ent][]*Ent{}
	trip := func(name string, ss ...*Ent) {
		t := h.trip(c.tripBase, name, c.route, c.service, 0)
		h.Set(t, "StopTimes", h.OpenList(name+".StopTimes", "st", stT(h), len(ss)))
		for i, s := range ss {
			setSt(h, t, i, "stop", s.obj)
			setSt(h, t, i, "sequence", h.i32(int64(i+1)))
		}
		uses[t] = ss
		trips = append(trips, t)
	}
	trip("t1", a, b)
	trip("t2", b, d)
	trip("t3", d)
	trip("t4")
	return
}

func areaJobs(P *Program, prop, tier string) (jobs []Job) {
	for _, hier := range []string{"without stations", "with stations", "with boarding areas"} {
		for polys := 0; polys <= 2; polys++ {
			sc := areaScen{fmt.Sprintf("stops %s, %d areas", hier, polys), hier, polys}
			key := prop + ":CompleteTripsGeoFilter:" + sc.name
			jobs = append(jobs, Job{key, func(r *Result) { areaFilter(P, r, key, sc) }})
		}
	}
	return
}

func areaFilter(P *Program, r *Result, key string, sc areaScen) {
	n, bad, ends, feeds := 1, 0, 0, 0
	allOK := true
	for in := 0; in < n && bad == 0 && allOK; in++ {
		h := newHeap(P)
		h.e.h.MaxKnownRange = 2
		h.constIDs = true
		w := &watch{ents: map[string]*Ent{}, start: map[*Ent]int64{}, lo: -10, hi: 60}
		w.base = h.tripBase()
		stops, trips, uses := h.areaFeed(w, sc.hier)
		vary := len(stops)
		if sc.polys > 1 {
			vary = 4 // every combination of two areas for the first stops
		}
		n = 1 << (sc.polys * vary)
		feeds++
		inside := map[*Ent]bool{}
		contains := map[[2]int]bool{}
		for i, s := range stops[:vary] {
			for p := 0; p < sc.polys; p++ {
				if in>>(i*sc.polys+p)&1 == 1 {
					inside[s] = true
					contains[[2]int{p, i}] = true
				}
			}
		}
		pt := P.parserType("Polygon")
		outer := map[*V]int{}
		var areas []*V
		for p := 0; p < sc.polys; p++ {
			v := h.e.TokT(fmt.Sprintf("area%d", p), pt)
			outer[v] = p
			areas = append(areas, v)
		}
		polys := h.List("polys", pt, areas...)
		h.e.h.Call = func(c *CallCtx) bool {
			if !strings.HasSuffix(c.name, "Polygon).PolyContains") || len(c.args) != 3 {
				return h.baseCall(c)
			}
			area := c.args[0]
			if area.K == KAddr || area.K == KObj {
				area = h.e.load(c.s, area, pt)
			}
			p, ok := outer[area]
			for i, s := range stops {
				if ok && c.args[1] == h.Get(h.s, s, "Lon") && c.args[2] == h.Get(h.s, s, "Lat") {
					return c.ret(h.e.Bool(contains[[2]int{p, i}]))
				}
			}
			return c.ret(h.e.Term("contains", types.Typ[types.Bool], c.args...))
		}
		before := map[*Ent]*tripView{}
		for _, t := range trips {
			before[t] = h.tripView(h.s, t.obj)
		}
		var ins []string
		for _, s := range stops {
			if inside[s] {
				ins = append(ins, s.name)
			}
		}
		k, ok := h.runScenario(r, key, "CompleteTripsGeoFilter", map[string]*V{"Polygons": polys}, func(s *State) {
			keep := map[*Ent]bool{}
			var probs []string
			for _, t := range trips {
				ss := uses[t]
				want := false
				for _, x := range ss {
					want = want || inside[x]
				}
				if got := h.inFeed(s, t); got != want {
					probs = append(probs, fmt.Sprintf("trip %s with the stops %s is in the feed: %v, expected %v", t.name, entNames(ss), got, want))
				}
				if !want {
					continue
				}
				for _, x := range ss {
					keep[x] = true
				}
				v := h.tripView(s, t.obj)
				if fmt.Sprint(v.sts) != fmt.Sprint(before[t].sts) || len(v.unknown) > 0 {
					probs = append(probs, fmt.Sprintf("the stop times of trip %s change", t.name))
				}
			}
			for _, x := range stops {
				keep[x] = keep[x] || inside[x]
			}
			for range stops {
				for _, x := range stops {
					for _, y := range stops {
						if keep[x] && h.Get(h.s, x, "Parent_station") == y.obj {
							keep[y] = true
						}
					}
				}
			}
			for _, x := range stops {
				if got := h.inFeed(s, x); got != keep[x] {
					probs = append(probs, fmt.Sprintf("stop %s is in the feed: %v, expected %v", x.name, got, keep[x]))
				}
			}
			for _, p := range probs {
				bad++
				r.add(key, "", h.e.trailText(s, 16), "CompleteTripsGeoFilter, %s, inside an area: %v: %s", sc.name, ins, p)
				h.e.stop = true
			}
		})
		ends += k
		allOK = allOK && ok
	}
	r.Obligations++
	if allOK && bad == 0 {
		r.Discharged++
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d feeds, %d ends, %d bad", key, feeds, ends, bad))
}

func entNames(es []*Ent) string {
	var ns []string
	for _, e := range es {
		ns = append(ns, e.name)
	}
	return strings.Join(ns, ",")
}

func init() {
	register("C26", 9, "Abstract interpretation of the area filter for complete trips, for every assignment of stops to areas; the trips and stops left at every reachable end are compared with those the property asks for.", func(P *Program, r *Result, tier string) {
		runJobs(r, areaJobs(P, "C26", tier))
	})
}
