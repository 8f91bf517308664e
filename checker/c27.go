package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C27: removing redundant trips keeps the service. Trips that agree in their attributes, stations and times form a class (here:
// the trips with the same departure time); after the pass, the trips of a class must run together on exactly the days they ran
// on before, and on no day more than once. Calendars are individual, trips symbolic.

type dupTrips struct {
	name  string
	cals  []cal
	trips []string // name:calendar:start:route
}

func dupCals() (names []string, cals map[string]cal) {
	cals = map[string]cal{
		"none":      {from: 0, to: 6, days: 0},
		"cancelled": {from: 1, to: 2, days: 127, exc: map[int64]bool{1: false, 2: false}},
		"one":       {from: 1, to: 1, days: 127},
		"first two": {from: 0, to: 1, days: 3},
		"next two":  {from: 1, to: 2, days: 127},
		"week":      {from: 0, to: 6, days: 127},
		"next week": {from: 7, to: 13, days: 127},
		"working":   {from: 0, to: 13, days: 62},
		"alternate": {from: 0, to: 6, days: 42},
		"exception": {from: 3, to: 10, days: 42, exc: map[int64]bool{4: true, 8: false, 12: true}},
		"dates":     {noRange: true, exc: map[int64]bool{1: true, 3: true}},
		"dates 2":   {noRange: true, exc: map[int64]bool{3: true, 5: true}},
		"early":     {from: -9, to: -7, days: 127},
		"weekend":   {from: 0, to: 13, days: 65},
	}
	return sortedKeys(cals), cals
}

func dupFeeds(tier string) (out []dupTrips) {
	names, cals := dupCals()
	n := 0
	// calendars that agree in the number of days and in the first and last one
	d := func(ds ...int64) cal {
		m := map[int64]bool{}
		for _, x := range ds {
			m[x] = true
		}
		return cal{noRange: true, exc: m}
	}
	for i, cs := range [][]cal{{d(1, 3, 7), d(1, 5, 7)}, {d(0, 3, 4, 9), d(0, 4, 5, 9)}, {{from: 0, to: 6, days: 127, exc: map[int64]bool{2: false}}, {from: 0, to: 6, days: 127, exc: map[int64]bool{4: false}}},
		{{from: 0, to: 6, days: 119}, {from: 0, to: 6, days: 111, exc: map[int64]bool{9: false}}}, {d(1, 3, 7), d(1, 5, 7), d(1, 6, 7)}} {
		tr := []string{"a:0:0:1", "b:1:0:1"}
		if len(cs) > 2 {
			tr = append(tr, "c:2:0:1")
		}
		out = append(out, dupTrips{fmt.Sprintf("same first and last day %d", i), cs, tr})
	}
	for i, a := range names {
		for j := i; j < len(names); j++ {
			b := names[j]
			cs := []cal{cals[a], cals[b]}
			nm := a + " and " + b
			tr := []string{"a:0:0:1", "b:1:0:1"}
			n++
			out = append(out, dupTrips{nm, cs, tr})
			if n%5 == 0 || tier == "thorough" {
				out = append(out, dupTrips{nm + ", shared", cs, append(append([]string{}, tr...), "x:0:9000:1", "y:1:12000:2")})
			}
			if n%6 == 0 || tier == "thorough" {
				// a trip of another route and trips with frequencies at the same times
				out = append(out, dupTrips{nm + ", with others", cs, append(append([]string{}, tr...), "o:0:0:2", "f:1:0:f", "g:0:0:f")})
			}
			if n%7 == 0 || tier == "thorough" {
				// two classes on the same services
				out = append(out, dupTrips{nm + ", two classes", cs, append(append([]string{}, tr...), "c:0:9000:1", "d:1:9000:1")})
			}
			for k := j + 1; k < len(names); k++ {
				if n++; (tier == "thorough" && n%3 == 0) || n%23 == 0 {
					out = append(out, dupTrips{nm + " and " + names[k], []cal{cals[a], cals[b], cals[names[k]]}, append(append([]string{}, tr...), "c:2:0:1")})
				}
			}
		}
	}
	return
}

func dupJobs(P *Program, tier string) (jobs []Job) {
	for i, f := range dupFeeds(tier) {
		f := f
		for mi, m := range []struct {
			n          string
			dist       int64
			aggr, fuzz bool
		}{{"exact", 0, false, false}, {"adjacent", 7, false, false}, {"aggressive", 1, true, false}, {"fuzzy", 0, false, true}} {
			m := m
			if tier != "thorough" && mi > 0 && i > 4 && (i+mi)%2 == 0 {
				continue
			}
			key := "C27:" + m.n + ":" + f.name
			jobs = append(jobs, Job{key, func(r *Result) {
				runClasses(P, r, key, "TripDuplicateRemover", m.n+", "+f.name, f, m.fuzz, func(h *Heap) map[string]*V {
					return map[string]*V{"Fuzzy": h.e.Bool(m.fuzz), "Aggressive": h.e.Bool(m.aggr), "MaxDayDist": h.e.Int(m.dist)}
				})
			}})
		}
	}
	return
}

func runClasses(P *Program, r *Result, key, typ, name string, f dupTrips, fuzzy bool, cfg func(h *Heap) map[string]*V) {
	h := newHeap(P)
	h.e.injectiveHash = true
	h.e.maxGen = 100
	h.e.maxList = 100
	h.e.h.MaxKnownRange = 3
	h.constIDs = true
	const lo, hi = -30, 60
	base := h.tripBase()
	var svs []*Ent
	for i, c := range f.cals {
		svs = append(svs, h.service(fmt.Sprintf("S%d", i), c))
	}
	class := func(s *State, t *V, at int64) int64 {
		if v := h.getF(s, t, "Trip", "Route"); v == base.route2.obj && !fuzzy {
			at += 100000
		}
		if v := h.getF(s, t, "Trip", "Frequencies"); v.K == KObj {
			at += 1000000
		}
		return at
	}
	want := map[int64]map[string]int{}
	for _, t := range f.trips {
		p := strings.Split(t, ":")
		var ci int
		var st int64
		fmt.Sscan(p[1], &ci)
		fmt.Sscan(p[2], &st)
		rt := base.route
		if p[3] == "2" || (fuzzy && p[0] == "b") {
			rt = base.route2
		}
		tr := h.trip(base, p[0], rt, svs[ci], st)
		if p[3] == "f" {
			h.frequencies(tr, 1)
		}
		st = class(h.s, tr.obj, st)
		if want[st] == nil {
			want[st] = map[string]int{}
		}
		ds, _ := h.activeDays(h.s, svs[ci].obj, lo, hi)
		for _, d := range strings.Split(ds, ",") {
			if d != "" {
				want[st][d]++
			}
		}
	}
	bad := 0
	n, ok := h.runScenario(r, key, typ, cfg(h), func(s *State) {
		got, probs := h.daysByStart(s, lo, hi, class)
		for st, days := range want {
			for d := range days {
				if got[st][d] == 0 {
					probs = append(probs, fmt.Sprintf("no trip departing at %d runs on day %s any more", st, d))
				}
			}
		}
		for st, days := range got {
			for d, n := range days {
				if want[st][d] == 0 {
					probs = append(probs, fmt.Sprintf("a trip departing at %d runs on day %s", st, d))
				} else if st >= 1000000 && n != want[st][d] {
					probs = append(probs, fmt.Sprintf("%d instead of %d trips with frequencies run on day %s", n, want[st][d], d))
				} else if st < 1000000 && n > 1 {
					probs = append(probs, fmt.Sprintf("%d redundant trips departing at %d run on day %s", n, st, d))
				}
			}
		}
		sort.Strings(probs)
		for i, p := range probs {
			if bad++; i < 3 {
				r.add(key, "", h.e.trailText(s, 16), "%s, %s: %s", typ, name, p)
			}
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Instances[strings.SplitN(name, ",", 2)[0]]++
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
}

// daysByStart counts, for every class of trips (default: departure time) and day, the trips of the feed that run.
func (h *Heap) daysByStart(s *State, lo, hi int64, class func(s *State, t *V, at int64) int64) (got map[int64]map[string]int, probs []string) {
	got = map[int64]map[string]int{}
	_, vs, known := h.entries(s, "Trips")
	if !known {
		return got, []string{"the trips of the feed are undetermined"}
	}
	for _, t := range vs {
		if !isEntObj(t) && t.K != KObj {
			probs = append(probs, "a trip of the feed is undetermined")
			continue
		}
		at, ok := h.startOf(s, t)
		if !ok {
			probs = append(probs, fmt.Sprintf("the departure of trip %s is undetermined", nm(t)))
			continue
		}
		ds, ok := h.activeDays(s, h.getF(s, t, "Trip", "Service"), lo, hi)
		if !ok {
			probs = append(probs, fmt.Sprintf("the days of trip %s are undetermined: %s", nm(t), h.calText(s, h.getF(s, t, "Trip", "Service"))))
			continue
		}
		if class != nil {
			at = class(s, t, at)
		}
		if got[at] == nil {
			got[at] = map[string]int{}
		}
		for _, d := range strings.Split(ds, ",") {
			if d != "" {
				got[at][d]++
			}
		}
	}
	return
}

// dupAttrJobs: the attributions of trips merged in any of the modes are carried over to the trip that is left.
func dupAttrJobs(P *Program, prop string) (jobs []Job) {
	_, cals := dupCals()
	for _, m := range []struct {
		n, a, b    string
		dist       int64
		aggr, fuzz bool
	}{{"contained", "week", "next two", 0, false, false}, {"contained, explicit dates", "dates", "alternate", 0, false, false}, {"adjacent", "week", "next week", 3, false, false},
		{"aggressive", "week", "dates 2", 1, true, false}, {"aggressive, disjoint", "early", "weekend", 1, true, false}, {"equal calendars", "week", "week", 0, false, true}} {
		m := m
		for _, which := range []string{"a", "b", "ab"} {
			for _, shared := range []bool{false, true} {
				which, shared := which, shared
				key := fmt.Sprintf("%s:Trip:attributions of %s, %s, shared %t", prop, which, m.n, shared)
				jobs = append(jobs, Job{key, func(r *Result) {
					h := newHeap(P)
					h.e.injectiveHash = true
					h.e.maxGen, h.e.maxList = 100, 100
					h.e.h.MaxKnownRange = 3
					h.constIDs = true
					base := h.tripBase()
					s0, s1 := h.service("S0", cals[m.a]), h.service("S1", cals[m.b])
					at := types.NewPointer(h.gtfsType("Attribution"))
					var all []*V
					for _, n := range []string{"a", "b"} {
						sv := s0
						if n == "b" {
							sv = s1
						}
						tr := h.trip(base, n, base.route, sv, 0)
						if shared {
							h.trip(base, "x"+n, base.route2, sv, 9000)
						}
						if !strings.Contains(which, n) {
							continue
						}
						x, y := h.Entity("Attribution", "attr1@"+n, "attr1@"+n).obj, h.Entity("Attribution", "attr2@"+n, "attr2@"+n).obj
						p := h.e.Obj("attrsp@"+n, types.NewSlice(at))
						h.s.mem[p] = h.List("attrs@"+n, at, x, y)
						all = append(all, x, y)
						h.Set(tr, "Attributions", p)
					}
					bad := 0
					n, ok := h.runScenario(r, key, "TripDuplicateRemover", map[string]*V{"Fuzzy": h.e.Bool(m.fuzz), "Aggressive": h.e.Bool(m.aggr), "MaxDayDist": h.e.Int(m.dist)}, func(s *State) {
						var left []*V
						_, vs, known := h.entries(s, "Trips")
						for _, t := range vs {
							if at, ok := h.startOf(s, t); ok && at == 0 {
								left = append(left, t)
							}
						}
						var probs []string
						if !known || len(left) != 1 {
							probs = append(probs, fmt.Sprintf("%d trips are left of two mergeable ones", len(left)))
						} else {
							l := h.getF(s, left[0], "Trip", "Attributions")
							if !l.IsNil() {
								l = h.e.load(s, l, types.NewSlice(at))
							}
							els, ok := h.listElems(s, l)
							if !ok {
								probs = append(probs, "the attributions of the trip left cannot be determined")
							}
							for _, x := range all {
								n := 0
								for _, y := range els {
									if x == y {
										n++
									}
								}
								if n != 1 {
									probs = append(probs, fmt.Sprintf("attribution %s is carried over %d times", nm(x), n))
								}
							}
						}
						for _, p := range probs {
							bad++
							r.add(key, "", h.e.trailText(s, 16), "TripDuplicateRemover, trips merged (%s): %s", m.n, p)
							h.e.stop = true
						}
					})
					r.Obligations++
					if ok && bad == 0 {
						r.Discharged++
					}
					r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
				}})
			}
		}
	}
	return
}

func init() {
	register("C27", 200, "Abstract interpretation of the pass that removes redundant trips on classes of trips that agree in attributes, stations and times, for pairs and triples of calendars (disjoint, overlapping, contained, equal, empty), in all modes. At every reachable end the days on which the trips of each class run are compared with the days before.", func(P *Program, r *Result, tier string) { runJobs(r, dupJobs(P, tier)) })
}
