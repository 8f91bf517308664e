package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C25: grouping of adjacent stop times. All attributes of the stop times are known, so each scenario has one path;
// the result is compared with the grouping computed from the property.

// stSpec is one stop time of a scenario.
type stSpec struct {
	stop   int
	dwell  int64
	head   int     // -1: none
	dist   float64 // negative: not measured
	pickup int64
	drop   int64
	cpick  int64
	cdrop  int64
	exact  bool
}

var stDefault = stSpec{head: -1, dist: -1, exact: true}

// group is the result the property asks for: first and last stop time of each group.
func groupsOf(sts []stSpec) (out [][2]int) {
	for i, st := range sts {
		if i > 0 {
			p := sts[i-1]
			if p.stop == st.stop && p.dwell == 0 && st.dwell == 0 && p.head == st.head && p.dist == st.dist && p.cpick == st.cpick && p.cdrop == st.cdrop && p.exact == st.exact {
				out[len(out)-1][1] = i
				continue
			}
		}
		out = append(out, [2]int{i, i})
	}
	return
}

func (h *Heap) u8(n int64) *V  { return h.e.Const(h.e.Int(n).C, types.Typ[types.Uint8]) }
func (h *Heap) i32(n int64) *V { return h.e.Const(h.e.Int(n).C, types.Typ[types.Int32]) }

// specTrip adds a trip with the given stop times.
func (h *Heap) specTrip(b *tripBase, name string, sv *Ent, sts []stSpec, heads []*V) *Ent {
	t := h.trip(b, name, b.route, sv, 0)
	h.Set(t, "StopTimes", h.OpenList(name+".StopTimes", "st", stT(h), len(sts)))
	at := int64(36000)
	for i, st := range sts {
		seq := int64(3*i + 5)
		if !st.exact {
			seq = -seq
		}
		setSt(h, t, i, "sequence", h.i32(seq))
		setSt(h, t, i, "stop", b.stops[st.stop].obj)
		setSt(h, t, i, "arrival_time", h.gtfsTime(at))
		at += st.dwell
		setSt(h, t, i, "departure_time", h.gtfsTime(at))
		at += 61
		setSt(h, t, i, "pudo", h.u8(st.pickup|st.drop<<2|st.cpick<<4|st.cdrop<<6))
		hs := h.e.Nil(h.fieldType("Trip", "Headsign"))
		if st.head >= 0 {
			hs = heads[st.head]
		}
		setSt(h, t, i, "headsign", hs)
		d := h.e.Term("nan", types.Typ[types.Float32])
		if st.dist >= 0 {
			d = h.e.Const(h.e.Int(int64(st.dist)).C, types.Typ[types.Float32])
		}
		setSt(h, t, i, "shape_dist_traveled", d)
	}
	return t
}

type groupScen struct {
	name  string
	trips [][][]stSpec // one feed per entry
}

func groupScens(tier string) (out []groupScen) {
	with := func(f func(s *stSpec)) stSpec {
		s := stDefault
		f(&s)
		return s
	}
	pair := func(name string, a, b stSpec) {
		out = append(out, groupScen{name, [][][]stSpec{{{a, b}}, {{b, a}}, {{a, a, b, b}}, {{stDefault, a, b}}}})
	}
	pair("other stop", stDefault, with(func(s *stSpec) { s.stop = 1 }))
	pair("dwell", stDefault, with(func(s *stSpec) { s.dwell = 30 }))
	pair("other headsign", with(func(s *stSpec) { s.head = 0 }), with(func(s *stSpec) { s.head = 1 }))
	pair("headsign or none", stDefault, with(func(s *stSpec) { s.head = 0 }))
	pair("equal headsign", with(func(s *stSpec) { s.head = 0 }), with(func(s *stSpec) { s.head = 0 }))
	pair("other distance", with(func(s *stSpec) { s.dist = 10 }), with(func(s *stSpec) { s.dist = 20 }))
	pair("distance zero", with(func(s *stSpec) { s.dist = 0 }), with(func(s *stSpec) { s.dist = 20 }))
	pair("distance or none", stDefault, with(func(s *stSpec) { s.dist = 20 }))
	pair("distance zero or none", stDefault, with(func(s *stSpec) { s.dist = 0 }))
	pair("equal distance", with(func(s *stSpec) { s.dist = 10 }), with(func(s *stSpec) { s.dist = 10 }))
	pair("exactness", stDefault, with(func(s *stSpec) { s.exact = false }))
	pair("both inexact", with(func(s *stSpec) { s.exact = false }), with(func(s *stSpec) { s.exact = false }))
	for v := int64(1); v < 4; v++ {
		v := v
		pair(fmt.Sprintf("continuous pickup 0 and %d", v), stDefault, with(func(s *stSpec) { s.cpick = v }))
		pair(fmt.Sprintf("continuous drop off 0 and %d", v), stDefault, with(func(s *stSpec) { s.cdrop = v }))
	}
	pair("continuous pickup 1 and 2", with(func(s *stSpec) { s.cpick = 1 }), with(func(s *stSpec) { s.cpick = 2 }))
	pair("continuous drop off 1 and 2", with(func(s *stSpec) { s.cdrop = 1 }), with(func(s *stSpec) { s.cdrop = 2 }))
	// boarding rules
	for _, n := range []int{2, 3} {
		for pu := int64(0); pu < 4; pu++ {
			sc := groupScen{name: fmt.Sprintf("boarding rules, %d stop times, first pickup %d", n, pu)}
			for do := int64(0); do < 4; do++ {
				for k := int64(0); k < 16; k++ {
					mk := func(p, d int64) stSpec {
						return with(func(s *stSpec) { s.pickup, s.drop, s.cpick, s.cdrop, s.exact = p, d, (k+do)&3, (k>>1)&3, k&1 == 0 })
					}
					sts := []stSpec{mk(pu, do), mk(k&3, k>>2)}
					if n == 3 {
						sts = append(sts, mk((pu+k)&3, (do^k)&3))
					}
					sc.trips = append(sc.trips, [][]stSpec{sts})
				}
			}
			out = append(out, sc)
		}
	}
	// all sequences of two stops with and without dwell
	max := 4
	if tier == "thorough" {
		max = 6
	}
	for n := 0; n <= max; n++ {
		sc := groupScen{name: fmt.Sprintf("sequences of %d stop times", n)}
		for stops := 0; stops < 1<<n; stops++ {
			for dw := 0; dw < 1<<n; dw++ {
				var sts []stSpec
				for i := 0; i < n; i++ {
					sts = append(sts, with(func(s *stSpec) {
						s.stop, s.dwell = stops>>i&1, int64(dw>>i&1)*30
						s.pickup, s.drop = int64(i)&3, int64(3-i)&3
						s.exact = (stops+dw)%3 > 0
					}))
				}
				sc.trips = append(sc.trips, [][]stSpec{sts})
			}
		}
		out = append(out, sc)
	}
	// several trips
	a, b := with(func(s *stSpec) { s.pickup = 1 }), with(func(s *stSpec) { s.drop = 1 })
	o := with(func(s *stSpec) { s.stop = 1; s.pickup, s.drop = 2, 3 })
	out = append(out, groupScen{"several trips", [][][]stSpec{
		{{a, b}, {a, b, o}, {o, a, b}},
		{{}, {a, b}, {o}},
		{{o, o, o}, {a}, {a, b, a, b}},
	}})
	return
}

func groupJobs(P *Program, prop, tier string) (jobs []Job) {
	for _, sc := range groupScens(tier) {
		sc := sc
		key := prop + ":AdjacentStopTimeGrouper:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			bad, ends := 0, 0
			allOK := true
			for _, feed := range sc.trips {
				if bad > 0 || !allOK {
					break
				}
				h := newHeap(P)
				h.e.h.MaxKnownRange = 2
				h.constIDs = true
				base := h.tripBase()
				sv := h.service("S", cal{from: 0, to: 6, days: 127})
				var heads []*V
				for i := 0; i < 2; i++ {
					hs := h.e.TokT(fmt.Sprintf("head%d", i), h.fieldType("Trip", "Headsign"))
					h.content[hs] = h.e.Str(fmt.Sprintf("head%d", i))
					heads = append(heads, hs)
				}
				var ts []*Ent
				for i, sts := range feed {
					ts = append(ts, h.specTrip(base, fmt.Sprintf("t%d", i), sv, sts, heads))
				}
				before := map[*Ent]*tripView{}
				for _, t := range ts {
					before[t] = h.tripView(h.s, t.obj)
				}
				n, ok := h.runScenario(r, key, "AdjacentStopTimeGrouper", nil, func(s *State) {
					for i, t := range ts {
						for _, p := range h.groupProblems(s, t, before[t], groupsOf(feed[i])) {
							bad++
							r.add(key, "", h.e.trailText(s, 16), "AdjacentStopTimeGrouper, %s: a trip with the stop times %s: %s", sc.name, specText(feed[i]), p)
							h.e.stop = true
						}
					}
				})
				ends += n
				allOK = allOK && ok
			}
			r.Obligations++
			if allOK && bad == 0 {
				r.Discharged++
			}
			r.Detail = append(r.Detail, fmt.Sprintf("%s: %d feeds, %d ends, %d bad", key, len(sc.trips), ends, bad))
		}})
	}
	return
}

func specText(sts []stSpec) string {
	var ps []string
	for _, s := range sts {
		ps = append(ps, fmt.Sprintf("[stop %d, dwell %d, headsign %d, distance %v, pickup %d, drop off %d, continuous %d/%d, exact %v]", s.stop, s.dwell, s.head, s.dist, s.pickup, s.drop, s.cpick, s.cdrop, s.exact))
	}
	return strings.Join(ps, " ")
}

func (h *Heap) groupProblems(s *State, t *Ent, bef *tripView, want [][2]int) (out []string) {
	if !h.inFeed(s, t) {
		return []string{"the trip is gone"}
	}
	v := h.tripView(s, t.obj)
	for _, u := range v.unknown {
		return []string{u + " undetermined"}
	}
	if len(v.sts) != len(want) {
		return []string{fmt.Sprintf("has %d stop times afterwards instead of %d", len(v.sts), len(want))}
	}
	pudo := func(m map[string]*V) int64 { n, _ := m["pudo"].intVal(); return n }
	for i, w := range want {
		got, first, last := v.sts[i], bef.sts[w[0]], bef.sts[w[1]]
		for _, f := range sortedKeys(got) {
			exp := first[f]
			switch f {
			case "departure_time":
				exp = last[f]
			case "pudo":
				exp = h.u8(pudo(first)&^3 | pudo(last)&3)
				g, e := pudo(got), pudo(first)&^3|pudo(last)&3
				if _, ok := got[f].intVal(); ok && g != e {
					for j, n := range []string{"pickup type", "drop off type", "continuous pickup", "continuous drop off"} {
						if a, b := g>>(2*j)&3, e>>(2*j)&3; a != b {
							out = append(out, fmt.Sprintf("stop time %d afterwards (%d to %d before) has %s %d instead of %d", i, w[0], w[1], n, a, b))
						}
					}
					continue
				}
			}
			if fmt.Sprint(got[f]) != fmt.Sprint(exp) {
				out = append(out, fmt.Sprintf("stop time %d afterwards (%d to %d before) has %s %s instead of %s", i, w[0], w[1], f, nm(got[f]), nm(exp)))
			}
		}
	}
	return
}

func init() {
	register("C25", 30, "Abstract interpretation of the pass that groups adjacent stop times, on trips with known attributes: every pair that differs in exactly one attribute, all combinations of boarding rules, and all short sequences of two stops with and without dwell; the stop times of every trip at every reachable end are compared, attribute by attribute, with the grouping the property asks for.", func(P *Program, r *Result, tier string) {
		runJobs(r, groupJobs(P, "C25", tier))
	})
}
