package main

import (
	"fmt"
	"go/types"
)

// Second part of C02: two entities that differ in something the pass tolerates. Whether it tolerates the difference is read
// off the pass itself: it is interpreted with a hash that never separates anything. If the two are merged on every path then,
// they must be merged on every path as well if the hash separates everything that it is computed from and that differs.

type tolScenario struct {
	name  string
	fuzzy bool
	set   func(h *Heap, a, b *Ent)
}

// tolerated lists differences; those a pass does not tolerate are harmless here.
func tolerated(P *Program, k *dupKind) (out []tolScenario) {
	add := func(name string, set func(h *Heap, a, b *Ent)) { out = append(out, tolScenario{name, false, set}) }
	h0 := &Heap{P: P}
	special := func(kind string, skip map[string]bool) {
		for _, sc := range fieldScenarios(P, kind, skip) {
			out = append(out, tolScenario{sc.name, true, sc.set})
		}
	}
	near := func(h *Heap, a, b *Ent) {
		for _, f := range []string{"Lat", "Lon"} {
			h.Set(a, f, h.e.TokT(f+"@a", h.fieldType("Stop", f)))
			h.Set(b, f, h.e.TokT(f+"@b", h.fieldType("Stop", f)))
		}
	}
	switch k.kind {
	case "Stop":
		for loc := int64(0); loc <= 4; loc++ {
			add(fmt.Sprintf("position, location type %d", loc), func(h *Heap, a, b *Ent) {
				near(h, a, b)
				h.Set(a, "Location_type", h.e.Int(loc))
				h.Set(b, "Location_type", h.e.Int(loc))
			})
		}
		add("position of stations farther apart than stops may be", func(h *Heap, a, b *Ent) {
			near(h, a, b)
			h.Set(a, "Location_type", h.e.Int(1))
			h.Set(b, "Location_type", h.e.Int(1))
			h.s.marks["far:maxStop"] = h.e.Bool(true)
		})
		skip := map[string]bool{"Parent_station": true}
		for f := range k.skip {
			skip[f] = true
		}
		special("Stop", skip)
		for _, f := range []string{"Code", "Name", "Platform_code"} {
			for _, none := range []string{"", "a", "b"} {
				out = append(out, tolScenario{f + " of platforms of a station (absent: " + none + ")", true, func(h *Heap, a, b *Ent) {
					near(h, a, b)
					h.constIDs = true
					st := mkStop(h, "station", 1, nil)
					h.constIDs = false
					concretise(h, st, k, "station")
					h.Set(st, "Location_type", h.e.Int(1))
					for _, en := range []*Ent{a, b} {
						h.Set(en, "Location_type", h.e.Int(0))
						h.Set(en, "Parent_station", st.obj)
						v := h.e.TokT(f+"@"+en.name, strT())
						if en.name == none {
							v = h.e.Str("")
						}
						h.Set(en, f, v)
					}
				}})
			}
		}
	case "Trip":
		special("Trip", k.skip)
		for i := 0; i < 3; i++ {
			for _, v := range [][2]string{{"stop", "stop"}, {"stop", "station"}, {"boarding area", "stop"}, {"boarding area", "station"}, {"boarding area", "boarding area"}} {
				add(fmt.Sprintf("%s and %s of the same station at stop time %d", v[0], v[1], i), func(h *Heap, a, b *Ent) {
					st := mkStop(h, "station", 1, nil)
					for j, en := range []*Ent{a, b} {
						x := st
						switch v[j] {
						case "stop":
							x = mkStop(h, "stop@"+en.name, 0, st)
						case "boarding area":
							x = mkStop(h, "area@"+en.name, 4, mkStop(h, "platform@"+en.name, 0, st))
						}
						setSt(h, en, i, "stop", x.obj)
					}
				})
			}
		}
		diff := func(i int, f string, t types.Type) func(h *Heap, a, b *Ent) {
			return func(h *Heap, a, b *Ent) {
				setSt(h, a, i, f, h.e.TokT(f+"@a", t))
				setSt(h, b, i, f, h.e.TokT(f+"@b", t))
			}
		}
		st := h0.gtfsType("StopTime").Underlying().(*types.Struct)
		for i := 0; i < 3; i++ {
			for j := 0; j < st.NumFields(); j++ {
				if f := st.Field(j); f.Name() != "stop" {
					add(fmt.Sprintf("%s of stop time %d", f.Name(), i), diff(i, f.Name(), f.Type()))
				}
			}
		}
		for i := -1; i < 2; i++ {
			add(fmt.Sprintf("shapes (%d)", i), func(h *Heap, a, b *Ent) {
				for j, en := range []*Ent{a, b} {
					if i != j {
						h.Set(en, "Shape", h.Entity("Shape", "shape@"+en.name, "shape").obj)
					}
				}
			})
		}
		// services with the same days
		for _, fz := range []bool{false, true} {
			for _, days := range []int{0, 2} {
				out = append(out, tolScenario{fmt.Sprintf("services with the same %d days", days), fz, func(h *Heap, a, b *Ent) {
					for _, en := range []*Ent{a, b} {
						sv := h.Entity("Service", "sv@"+en.name, "sv@"+en.name)
						h.days(sv, days)
						h.Set(en, "Service", sv.obj)
					}
				}})
			}
		}
		add("a contained service", func(h *Heap, a, b *Ent) {
			sv := h.Entity("Service", "sv@b", "sv@b")
			h.days(sv, 1)
			h.Set(b, "Service", sv.obj)
		})
	case "Service":
		for _, f := range h0.fields("Service") {
			if f.Name() == idField("Service") {
				continue
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok {
				for _, na := range []int{0, 1} {
					add(fmt.Sprintf("number of %s (%d)", f.Name(), na), func(h *Heap, a, b *Ent) {
						for i, n := range []int{na, 1 - na} {
							o := h.e.Obj(fmt.Sprintf("%s#%d", f.Name(), i), f.Type())
							h.e.setMapKeys(h.s, o, nil)
							for j := 0; j < n; j++ {
								h.e.mapSet(h.s, o, h.e.TokT("key", m.Key()), h.e.TokT("val", m.Elem()))
							}
							h.Set([]*Ent{a, b}[i], f.Name(), o)
						}
					})
				}
				continue
			}
			add(f.Name(), func(h *Heap, a, b *Ent) {
				h.Set(a, f.Name(), h.e.TokT(f.Name()+"@a", f.Type()))
				h.Set(b, f.Name(), h.e.TokT(f.Name()+"@b", f.Type()))
			})
		}
	case "Shape":
	}
	return
}

// days makes a service run on the first n days.
func (h *Heap) days(sv *Ent, n int) {
	h.s.marks["first@"+sv.name], h.s.marks["last@"+sv.name] = h.e.Int(0), h.e.Int(int64(n-1))
	for i := 0; i < n; i++ {
		h.s.marks[fmt.Sprintf("act@%s:%d", sv.name, i)] = h.e.Bool(true)
	}
}

func toleratedJobs(P *Program) (jobs []Job) {
	for _, k := range dupKinds(P) {
		k.constIDs = true
		for _, sc := range tolerated(P, k) {
			name := fmt.Sprintf("C02:%s differing in %s", k.kind, sc.name)
			if sc.fuzzy {
				name += ", fuzzy"
			}
			jobs = append(jobs, Job{name, func(r *Result) {
				run := func(r *Result, perfect bool) (ends, merged int, ok bool) {
					h, a, b := k.build(P, nil)
					if k.kind != "Service" {
						concretise(h, a, k, "same")
						concretise(h, b, k, "same")
					}
					sc.set(h, a, b)
					h.e.constHash, h.e.injectiveHash = !perfect, perfect
					c := k.config(h)
					if sc.fuzzy {
						c["Fuzzy"] = h.e.Bool(true)
					}
					ends, ok = h.runScenario(r, name, k.proc, c, func(s *State) {
						if !h.inFeed(s, a) || !h.inFeed(s, b) {
							merged++
						} else if perfect {
							r.add(name, "", h.e.trailText(s, 14), "%s treats two entities of kind %s differing in %s as equal, but its grouping of candidates separates them", k.proc, k.kind, sc.name)
							h.e.stop = true
						} else {
							h.e.stop = true
						}
					})
					return
				}
				n, m, ok := run(newResult(r.Prop), false)
				if !ok || m < n {
					r.Detail = append(r.Detail, fmt.Sprintf("%s: not merged", name))
					return
				}
				r.Obligations++
				n2, m2, ok := run(r, true)
				if ok && n2 == m2 {
					r.Discharged++
				}
				r.Detail = append(r.Detail, fmt.Sprintf("%s: merged, %d ends, %d merging", name, n2, m2))
			}})
		}
	}
	return
}
