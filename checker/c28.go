package main

import (
	"fmt"
	"go/types"
	"math"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

// C28: the passes about stations. Positions are known numbers where distances matter, all other attributes are symbolic.

// A numScen is a scenario with known coordinates; build sets it up and returns what is checked at every end.
type numScen struct {
	name  string
	typ   string
	cfg   func(h *Heap) map[string]*V
	order int
	build func(h *Heap) func(s *State) []string
}

func runNum(P *Program, r *Result, key string, sc numScen) {
	h := newHeap(P)
	h.numbers()
	h.e.injectiveHash = true
	h.e.maxGen, h.e.maxList = 200, 200
	h.e.unroll = 1000
	h.e.maxSteps = 100000
	h.e.maxDepth = 60
	h.e.h.MaxKnownRange = 3
	if sc.order != 0 {
		h.e.h.MaxKnownRange = sc.order
	}
	h.constIDs = true
	h.e.h.Inline = func(f *ssa.Function) (bool, bool) {
		in := f.Name() == "GetTypeFromExtended"
		return in, in
	}
	check := sc.build(h)
	var cfg map[string]*V
	if sc.cfg != nil {
		cfg = sc.cfg(h)
	}
	bad := 0
	n, ok := h.runScenario(r, key, sc.typ, cfg, func(s *State) {
		probs := append(check(s), h.keyMismatch(s)...)
		if len(probs) > 3 {
			probs = probs[:3]
		}
		for _, p := range probs {
			bad++
			r.add(key, "", h.e.trailText(s, 12), "%s, %s: %s", sc.typ, sc.name, p)
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Instances["scenarios"]++
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
}

func (h *Heap) f32(f float64) *V { return h.e.floatConst(f, types.Typ[types.Float32]) }

// places are given in metres north and east of one point.
const (
	lat0, lon0 = 48.0, 8.0
	mPerDeg    = 6378137.0 * math.Pi / 180
)

func place(n, e float64) (lat, lon float64) {
	return float64(float32(lat0 + n/mPerDeg)), float64(float32(lon0 + e/mPerDeg/math.Cos(lat0*math.Pi/180)))
}

func metres(aLat, aLon, bLat, bLon float64) float64 {
	x := (bLon - aLon) * math.Cos((aLat+bLat)/2*math.Pi/180)
	return math.Hypot(bLat-aLat, x) * mPerDeg
}

func (h *Heap) setPlace(en *Ent, n, e float64) {
	lat, lon := place(n, e)
	h.Set(en, "Lat", h.f32(lat))
	h.Set(en, "Lon", h.f32(lon))
}

func stopKey(o *V) string { return fmt.Sprintf("%s#%d", o, o.id) }

// stopAttrs: all attributes of the stops of the feed.
func (h *Heap) stopAttrs(s *State) (names []string, at map[string]map[string]*V, ok bool) {
	at = map[string]map[string]*V{}
	_, vs, known := h.entries(s, "Stops")
	if !known {
		return nil, nil, false
	}
	for _, o := range vs {
		if !isEntObj(o) {
			return nil, nil, false
		}
		m := map[string]*V{"": o}
		for _, f := range h.fields("Stop") {
			m[f.Name()] = h.getF(s, o, "Stop", f.Name())
		}
		n := stopKey(o)
		if at[n] == nil {
			names = append(names, n)
		}
		at[n] = m
	}
	return names, at, true
}

// stopsChanged lists the differences of the stops from the ones of before; want gives the expected value of attributes that change.
func (h *Heap) stopsChanged(s *State, old map[string]map[string]*V, want func(o *V, field string, now *V) (ok, decided bool)) (out []string) {
	_, at, ok := h.stopAttrs(s)
	if !ok {
		return []string{"the stops of the feed are undetermined"}
	}
	for _, n := range sortedKeys(old) {
		now := at[n]
		if now == nil {
			out = append(out, fmt.Sprintf("stop %s is not in the feed any more", nm(old[n][""])))
			continue
		}
		for _, f := range sortedKeys(old[n]) {
			if want != nil {
				if ok, decided := want(old[n][""], f, now[f]); decided {
					if !ok {
						out = append(out, fmt.Sprintf("%s of stop %s is %s, before it was %s", f, nm(old[n][""]), nm(now[f]), nm(old[n][f])))
					}
					continue
				}
			}
			if now[f] != old[n][f] {
				out = append(out, fmt.Sprintf("%s of stop %s changes from %s to %s", f, nm(old[n][""]), nm(old[n][f]), nm(now[f])))
			}
		}
	}
	return
}

func stationScens(tier string) (out []numScen) {
	// platform codes
	for _, n := range []int{0, 1, 3} {
		n := n
		out = append(out, numScen{name: fmt.Sprintf("platform codes, %d of each", n), typ: "PlatformCodeDropper", build: func(h *Heap) func(s *State) []string {
			station := mkStop(h, "station", 1, nil)
			h.Set(station, "Platform_code", h.e.Str(""))
			drop := map[*V]bool{}
			for i := 0; i < n; i++ {
				for _, k := range []struct {
					name, code string
					parent     bool
					loc        int64
				}{{"alone", "7", false, 0}, {"alone without", "", false, 0}, {"platform", "3a", true, 0}, {"platform without", "", true, 0}, {"entrance", "E", true, 2}, {"node", "N", true, 3}, {"station with", "S", false, 1}} {
					var p *Ent
					if k.parent {
						p = station
					}
					st := mkStop(h, fmt.Sprintf("%s%d", k.name, i), k.loc, p)
					h.Set(st, "Platform_code", h.e.Str(k.code))
					drop[st.obj] = !k.parent
				}
				p := mkStop(h, fmt.Sprintf("pl%d", i), 0, station)
				h.Set(p, "Platform_code", h.e.Str("9"))
				b := mkStop(h, fmt.Sprintf("boarding%d", i), 4, p)
				h.Set(b, "Platform_code", h.e.Str("9b"))
			}
			_, old, _ := h.stopAttrs(h.s)
			return func(s *State) []string {
				out := h.stopsChanged(s, old, func(o *V, f string, now *V) (bool, bool) {
					return now == h.e.Str(""), f == "Platform_code" && drop[o]
				})
				if _, at, ok := h.stopAttrs(s); ok && len(at) != len(old) {
					out = append(out, fmt.Sprintf("the feed has %d stops instead of %d", len(at), len(old)))
				}
				return out
			}
		}})
	}
	// stations for stops without one
	for _, sc := range []struct {
		name    string
		n       int
		taken   int
		order   int
		kinds   bool
		takenBy int64
	}{{"no stops", 0, 0, 0, false, 1}, {"one stop", 1, 0, 2, false, 1}, {"three stops", 3, 0, 2, false, 1}, {"stops of every kind", 2, 0, 0, true, 1}, {"one stop, ID taken", 1, 1, 2, false, 1}, {"two stops, IDs taken", 2, 3, 0, true, 1}, {"only other kinds", 0, 0, 2, true, 1}, {"one stop, ID of a platform", 1, 1, 2, false, 0}, {"one stop, ID of an entrance", 1, 2, 2, true, 2}, {"two stops, ID of a boarding area", 2, 1, 0, false, 4}} {
		sc := sc
		out = append(out, numScen{name: sc.name, typ: "StopParentEnforcer", order: sc.order, build: func(h *Heap) func(s *State) []string {
			need := map[*V]bool{}
			var takenParent *Ent
			if sc.takenBy != 1 {
				takenParent = mkStop(h, "parent", 1, nil)
				if sc.takenBy == 4 {
					takenParent = mkStop(h, "parent platform", 0, takenParent)
				}
			}
			for i := 0; i < sc.n; i++ {
				st := mkStop(h, fmt.Sprintf("stop%d", i), 0, nil)
				need[st.obj] = true
				for k := 0; k < sc.taken; k++ {
					id := "par::idstop" + fmt.Sprint(i)
					if k > 0 {
						id = fmt.Sprintf("par%d::idstop%d", k, i)
					}
					t := h.entityID("Stop", "taken "+id, h.e.Str(id))
					h.Set(t, "Location_type", h.e.Int(sc.takenBy))
					h.Set(t, "Parent_station", h.e.Nil(h.fieldType("Stop", "Parent_station")))
					if sc.takenBy != 1 {
						h.Set(t, "Parent_station", takenParent.obj)
					}
				}
			}
			if sc.kinds {
				a := mkStop(h, "station", 1, nil)
				p := mkStop(h, "platform", 0, a)
				mkStop(h, "platform2", 0, a)
				mkStop(h, "entrance", 2, a)
				mkStop(h, "node", 3, a)
				mkStop(h, "boarding", 4, p)
				mkStop(h, "empty station", 1, nil)
			}
			for _, en := range h.ents {
				if en.kind == "Stop" {
					h.Set(en, "Platform_code", h.e.TokT("code@"+en.name, types.Typ[types.String]))
					h.Set(en, "Name", h.e.TokT("name@"+en.name, types.Typ[types.String]))
				}
			}
			_, old, _ := h.stopAttrs(h.s)
			return func(s *State) (out []string) {
				_, at, ok := h.stopAttrs(s)
				if !ok {
					return []string{"the stops of the feed are undetermined"}
				}
				used := map[*V]*V{}
				var more []string
				out = h.stopsChanged(s, old, func(o *V, f string, now *V) (bool, bool) {
					if f != "Parent_station" || !need[o] {
						return false, false
					}
					p := at[stopKey(now)]
					switch {
					case p == nil || !isEntObj(now):
						more = append(more, fmt.Sprintf("the parent of stop %s is %s, which is not in the feed", nm(o), nm(now)))
						return true, true
					case old[stopKey(now)] != nil:
						more = append(more, fmt.Sprintf("stop %s gets the parent %s, which was there before", nm(o), nm(now)))
					case used[now] != nil:
						more = append(more, fmt.Sprintf("stops %s and %s get the same new station", nm(o), nm(used[now])))
					}
					used[now] = o
					for _, f := range []string{"Lat", "Lon", "Name"} {
						if p[f] != old[stopKey(o)][f] {
							more = append(more, fmt.Sprintf("the new station of stop %s has %s %s instead of %s", nm(o), f, nm(p[f]), nm(old[stopKey(o)][f])))
						}
					}
					if v, ok := p["Location_type"].intVal(); !ok || v != 1 {
						more = append(more, fmt.Sprintf("the new station of stop %s has location type %s", nm(o), nm(p["Location_type"])))
					}
					if !p["Parent_station"].IsNil() {
						more = append(more, fmt.Sprintf("the new station of stop %s has a parent itself", nm(o)))
					}
					return true, true
				})
				out = append(more, out...)
				if len(at) != len(old)+len(need) {
					out = append(out, fmt.Sprintf("the feed has %d stops instead of %d", len(at), len(old)+len(need)))
				}
				return
			}
		}})
	}
	out = append(out, averageScens(tier)...)
	return
}

// A cluster is a station and its children, in metres.
type cluster struct {
	at       [2]float64
	children [][2]float64
}

// averaged: where the station belongs, and whether that is clear.
func (c cluster) averaged(max float64) (lat, lon float64, moves, clear bool) {
	pLat, pLon := place(c.at[0], c.at[1])
	clear = true
	far, ok := false, true
	for _, x := range c.children {
		a, b := place(x[0], x[1])
		lat, lon = lat+a/float64(len(c.children)), lon+b/float64(len(c.children))
		d := metres(pLat, pLon, a, b)
		far = far || d >= max
		clear = clear && math.Abs(d-max) > max/50
	}
	for _, x := range c.children {
		a, b := place(x[0], x[1])
		d := metres(lat, lon, a, b)
		ok = ok && d < max
		clear = clear && math.Abs(d-max) > max/50
	}
	if far && ok {
		return lat, lon, true, clear
	}
	return pLat, pLon, false, clear
}

func averageScens(tier string) (out []numScen) {
	add := func(name string, order int, max float64, cs ...cluster) {
		for _, c := range cs {
			if _, _, _, clear := c.averaged(max); !clear {
				return
			}
		}
		out = append(out, numScen{name: name, typ: "StopParentAverager", order: order, cfg: func(h *Heap) map[string]*V {
			return map[string]*V{"MaxDist": h.e.floatConst(max, types.Typ[types.Float64])}
		}, build: func(h *Heap) func(s *State) []string {
			want := map[*V]cluster{}
			for i, c := range cs {
				p := mkStop(h, fmt.Sprintf("station%d", i), 1, nil)
				h.setPlace(p, c.at[0], c.at[1])
				want[p.obj] = c
				for j, x := range c.children {
					loc := int64(0)
					if j == 3 {
						loc = 2
					}
					h.setPlace(mkStop(h, fmt.Sprintf("child%d.%d", i, j), loc, p), x[0], x[1])
				}
			}
			h.setPlace(mkStop(h, "alone", 0, nil), 5000, 0)
			_, old, _ := h.stopAttrs(h.s)
			return func(s *State) []string {
				res := h.stopsChanged(s, old, func(o *V, f string, now *V) (bool, bool) {
					c, ok := want[o]
					if !ok || f != "Lat" && f != "Lon" {
						return false, false
					}
					lat, lon, moves, _ := c.averaged(max)
					if !moves {
						return false, false
					}
					x := lat
					if f == "Lon" {
						x = lon
					}
					v, isC := constFloat(now)
					return isC && math.Abs(v-x) < 1e-5, true
				})
				for i := range res {
					res[i] += fmt.Sprintf(" (children of the station at %v)", cs)
				}
				if _, at, ok := h.stopAttrs(s); ok && len(at) != len(old) {
					res = append(res, fmt.Sprintf("the feed has %d stops instead of %d", len(at), len(old)))
				}
				return res
			}
		}})
	}
	add("station without children", 2, 100, cluster{})
	for _, c := range []cluster{
		{children: [][2]float64{{10, 0}}}, {children: [][2]float64{{95, 0}}}, {children: [][2]float64{{106, 0}}}, {children: [][2]float64{{0, -106}}}, {children: [][2]float64{{0, 95}}}, {children: [][2]float64{{80, 80}}}, {children: [][2]float64{{-60, 60}}},
		{children: [][2]float64{{500, 0}, {520, 30}}}, {children: [][2]float64{{10, 0}, {160, 0}}}, {children: [][2]float64{{160, 0}, {10, 0}}}, {children: [][2]float64{{0, 0}, {260, 0}}}, {children: [][2]float64{{260, 0}, {0, 0}}}, {children: [][2]float64{{0, 150}, {0, -20}}},
		{children: [][2]float64{{300, 300}, {310, 300}, {300, 480}}}, {children: [][2]float64{{300, 480}, {310, 300}, {300, 300}}}, {children: [][2]float64{{300, 300}, {310, 300}, {300, 430}}}, {children: [][2]float64{{20, 0}, {30, 10}, {-50, 40}}},
		{children: [][2]float64{{120, 0}, {0, 0}, {0, 0}, {0, 0}}}, {children: [][2]float64{{0, 0}, {0, 0}, {0, 120}, {0, 0}}}, {children: [][2]float64{{2000, 0}, {2010, 5}, {2020, -5}, {2005, 90}}},
	} {
		order := 2
		if len(c.children) > 2 {
			order = 0
		}
		add(fmt.Sprintf("children at %v", c.children), order, 100, c)
	}
	far, near, wide := cluster{at: [2]float64{0, 0}, children: [][2]float64{{400, 0}, {420, 10}}}, cluster{at: [2]float64{3000, 0}, children: [][2]float64{{3010, 0}, {2950, 20}}}, cluster{at: [2]float64{0, 9000}, children: [][2]float64{{0, 9000}, {600, 9000}}}
	add("three stations", 0, 100, far, near, wide)
	add("three stations in another order", 0, 100, wide, far, near)
	add("smaller distance", 0, 10, cluster{children: [][2]float64{{12, 0}, {14, 4}}}, cluster{at: [2]float64{100, 0}, children: [][2]float64{{100, 12}, {100, -20}}})
	n := 20
	if tier == "thorough" {
		n = 200
	}
	rng := rand.New(rand.NewSource(28))
	for i := 0; i < n; i++ {
		var cs []cluster
		for j := 0; j < 2; j++ {
			c := cluster{at: [2]float64{float64(j) * 5000, 0}}
			cx, cy := float64(rng.Intn(400)-200), float64(rng.Intn(400)-200)
			for k := 0; k < 1+rng.Intn(4); k++ {
				c.children = append(c.children, [2]float64{c.at[0] + cx + float64(rng.Intn(240)-120), cy + float64(rng.Intn(240)-120)})
			}
			cs = append(cs, c)
		}
		add(fmt.Sprintf("places %d", i), 0, 100, cs...)
	}
	return
}

func c28Jobs(P *Program, tier string) (jobs []Job) {
	for _, sc := range stationScens(tier) {
		sc := sc
		key := "C28:" + sc.typ + ":" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { runNum(P, r, key, sc) }})
	}
	return
}

func init() {
	register("C28", 45, "Path-sensitive abstract interpretation of the passes about stations on feeds with stops of every kind and children at known places: attributes of all stops at every end compared with those of before; new stations, dropped platform codes and moved stations exactly as documented.", func(P *Program, r *Result, tier string) {
		runJobs(r, c28Jobs(P, tier))
	})
}
