package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C03: references to merged entities are redirected to the survivor and nothing is lost.

type refScenario struct {
	name  string
	n     int  // number of equal entities
	chain bool // neighbouring entities are equal only
	set   func(h *Heap, es []*Ent) func(s *State, surv *Ent) []string
}

func refScenarios(P *Program, kind string) []refScenario {
	var out []refScenario
	add := func(name string, n int, set func(h *Heap, es []*Ent) func(s *State, surv *Ent) []string) {
		out = append(out, refScenario{name: name, n: n, set: set})
	}
	// one referrer of the given kind per entity
	simple := func(refKind, field string, prep func(h *Heap, en *Ent, i int)) {
		for n := 2; n <= 3; n++ {
			add(fmt.Sprintf("%s.%s (%d equal)", refKind, field, n), n, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
				var rs []*Ent
				for i, e := range es {
					r := h.Entity(refKind, fmt.Sprintf("ref%d", i), fmt.Sprintf("ref%d", i))
					if prep != nil {
						prep(h, r, i)
					}
					h.Set(r, field, e.obj)
					rs = append(rs, r)
				}
				return func(s *State, surv *Ent) []string {
					var bad []string
					for i, r := range rs {
						if !h.inFeed(s, r) {
							bad = append(bad, fmt.Sprintf("the %s referring to %s was lost", strings.ToLower(refKind), es[i].name))
							continue
						}
						if v := h.Get(s, r, field); v != surv.obj {
							bad = append(bad, fmt.Sprintf("%s.%s still refers to %s instead of the surviving %s", refKind, field, nm(v), surv.name))
						}
					}
					return bad
				}
			})
		}
	}
	// two referrers for the same entity
	double := func(refKind, field string, prep func(h *Heap, en *Ent, i int)) {
		add(fmt.Sprintf("%s.%s (two per entity)", refKind, field), 2, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
			var rs []*Ent
			for i, e := range []*Ent{es[0], es[0], es[1], es[1]} {
				r := h.Entity(refKind, fmt.Sprintf("ref%d", i), fmt.Sprintf("ref%d", i))
				if prep != nil {
					prep(h, r, i)
				}
				h.Set(r, field, e.obj)
				rs = append(rs, r)
			}
			return func(s *State, surv *Ent) []string {
				var bad []string
				for _, r := range rs {
					if !h.inFeed(s, r) {
						bad = append(bad, fmt.Sprintf("a %s referring to a merged entity was lost", strings.ToLower(refKind)))
					} else if v := h.Get(s, r, field); v != surv.obj {
						bad = append(bad, fmt.Sprintf("%s.%s still refers to %s instead of the surviving %s", refKind, field, nm(v), surv.name))
					}
				}
				return bad
			}
		})
	}
	attribs := func(ptr bool) {
		for _, which := range []string{"a", "b", "ab"} {
			which := which
			add("attributions of "+which, 2, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
				at := types.NewPointer(h.gtfsType("Attribution"))
				var all []*V
				for _, e := range es {
					if !strings.Contains(which, e.name) {
						continue
					}
					x, y := h.Entity("Attribution", "attr1@"+e.name, "attr1@"+e.name).obj, h.Entity("Attribution", "attr2@"+e.name, "attr2@"+e.name).obj
					l := h.List("attrs@"+e.name, at, x, y)
					all = append(all, x, y)
					if ptr {
						p := h.e.Obj("attrsp@"+e.name, types.NewSlice(at))
						h.s.mem[p] = l
						l = p
					}
					h.Set(e, "Attributions", l)
				}
				return func(s *State, surv *Ent) []string {
					l := h.Get(s, surv, "Attributions")
					if ptr && !l.IsNil() {
						l = h.e.load(s, l, types.NewSlice(at))
					}
					els, ok := h.listElems(s, l)
					if !ok {
						return []string{"the attributions of the survivor cannot be determined"}
					}
					var bad []string
					for _, x := range all {
						n := 0
						for _, y := range els {
							if y == x {
								n++
							}
						}
						if n != 1 {
							bad = append(bad, fmt.Sprintf("attribution %s is carried over %d times", nm(x), n))
						}
					}
					return bad
				}
			})
		}
	}
	plainTrip := func(h *Heap, en *Ent, i int) {
		h.Set(en, "StopTimes", h.e.Nil(h.fieldType("Trip", "StopTimes")))
		h.Set(en, "Frequencies", h.e.Nil(h.fieldType("Trip", "Frequencies")))
		h.Set(en, "Shape", h.e.Nil(h.fieldType("Trip", "Shape")))
	}
	noRules := func(h *Heap, en *Ent, i int) {
		h.Set(en, "Rules", h.e.Nil(h.fieldType("FareAttribute", "Rules")))
	}
	switch kind {
	case "Agency":
		simple("Route", "Agency", nil)
		double("Route", "Agency", nil)
		simple("FareAttribute", "Agency", noRules)
		double("FareAttribute", "Agency", noRules)
		attribs(false)
	case "Route":
		simple("Trip", "Route", plainTrip)
		double("Trip", "Route", plainTrip)
		attribs(false)
		for _, nf := range []int{1, 2} {
			nf := nf
			add(fmt.Sprintf("rules of %d fares", nf), 2, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
				ruleT := types.NewPointer(h.gtfsType("FareAttributeRule"))
				var fares []*Ent
				other := h.e.TokT("otherRoute", nil)
				_ = other
				for f := 0; f < nf; f++ {
					var rules []*V
					for _, e := range es {
						r := h.Entity("FareAttributeRule", fmt.Sprintf("rule%d@%s", f, e.name), fmt.Sprintf("rule%d", f))
						h.Set(r, "Route", e.obj)
						rules = append(rules, r.obj)
					}
					fa := h.Entity("FareAttribute", fmt.Sprintf("fare%d", f), fmt.Sprintf("fare%d", f))
					h.Set(fa, "Rules", h.List("rules"+fa.name, ruleT, rules...))
					fares = append(fares, fa)
				}
				return func(s *State, surv *Ent) []string {
					var bad []string
					for _, fa := range fares {
						if !h.inFeed(s, fa) {
							bad = append(bad, "fare "+fa.name+" was lost")
							continue
						}
						els, ok := h.listElems(s, h.Get(s, fa, "Rules"))
						if !ok {
							bad = append(bad, "the rules of "+fa.name+" cannot be determined")
							continue
						}
						n := 0
						for _, r := range els {
							if h.getF(s, r, "FareAttributeRule", "Route") == surv.obj {
								n++
							}
						}
						if n == 0 {
							bad = append(bad, "the survivor lost its rule of "+fa.name)
						}
					}
					return bad
				}
			})
		}
		add("fare of another route", 2, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
			ruleT := types.NewPointer(h.gtfsType("FareAttributeRule"))
			other := h.Entity("Route", "otherRoute", "otherRoute")
			h.Set(other, "Type", h.e.TokT("otherType", nil))
			h.Set(other, "Attributions", h.e.Nil(nil))
			for _, e := range es {
				h.Set(e, "Type", h.e.TokT("thisType", nil))
			}
			r := h.Entity("FareAttributeRule", "rule@other", "rule@other")
			h.Set(r, "Route", other.obj)
			fa := h.Entity("FareAttribute", "fare", "fare")
			h.Set(fa, "Rules", h.List("rules", ruleT, r.obj))
			fb := h.Entity("FareAttribute", "fareNoRules", "fareNoRules")
			h.Set(fb, "Rules", h.List("norules", ruleT))
			return func(s *State, surv *Ent) []string {
				var bad []string
				if !h.inFeed(s, fa) {
					bad = append(bad, "the fare of an unrelated route was deleted")
				} else if els, ok := h.listElems(s, h.Get(s, fa, "Rules")); !ok || len(els) != 1 || els[0] != r.obj {
					bad = append(bad, "the fare rule of an unrelated route was lost")
				}
				if !h.inFeed(s, fb) {
					bad = append(bad, "a fare without rules was deleted")
				}
				return bad
			}
		})
	case "Level":
		lvlStop := func(h *Heap, en *Ent, i int) {
			h.alias["ent:"+en.name] = "Stop"
			h.Set(en, "Location_type", h.e.Int(0))
			h.Set(en, "Parent_station", h.e.Nil(h.fieldType("Stop", "Parent_station")))
			h.Set(en, "Code", h.e.TokT(fmt.Sprintf("code%d", i), strT()))
		}
		simple("Stop", "Level", lvlStop)
		double("Stop", "Level", lvlStop)
	case "Service":
		simple("Trip", "Service", plainTrip)
		double("Trip", "Service", plainTrip)
	case "Shape":
		t := func(h *Heap, en *Ent, i int) {
			plainTrip(h, en, i)
		}
		simple("Trip", "Shape", t)
		double("Trip", "Shape", t)
	case "Trip":
		attribs(true)
	case "Stop":
		childStop := func(h *Heap, en *Ent, i int) {
			h.alias["ent:"+en.name] = "Stop"
			h.Set(en, "Location_type", h.e.Int(0))
			h.Set(en, "Level", h.e.Nil(nil))
			h.Set(en, "Code", h.e.TokT(fmt.Sprintf("code%d", i), strT()))
		}
		simple("Stop", "Parent_station", childStop)
		for _, lt := range [][2]int64{{1, 2}, {1, 3}, {0, 4}, {1, 4}} { // entrances, generic nodes, boarding areas
			lt := lt
			add(fmt.Sprintf("children of type %d of stops of type %d", lt[1], lt[0]), 2, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
				var rs []*Ent
				for i, e := range es {
					h.Set(e, "Location_type", h.e.Int(lt[0]))
					r := h.Entity("Stop", fmt.Sprintf("ref%d", i), fmt.Sprintf("ref%d", i))
					childStop(h, r, i)
					h.Set(r, "Location_type", h.e.Int(lt[1]))
					h.Set(r, "Parent_station", e.obj)
					rs = append(rs, r)
				}
				return func(s *State, surv *Ent) []string {
					var bad []string
					for _, r := range rs {
						if !h.inFeed(s, r) {
							bad = append(bad, "a child of a merged stop was lost")
						} else if v := h.Get(s, r, "Parent_station"); v != surv.obj {
							bad = append(bad, fmt.Sprintf("Stop.Parent_station still refers to %s instead of the surviving %s", nm(v), surv.name))
						}
					}
					return bad
				}
			})
		}
		for n := 2; n <= 3; n++ {
			add(fmt.Sprintf("stop times (%d equal)", n), n, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
				var ts []*Ent
				for i := range es {
					t := h.Entity("Trip", fmt.Sprintf("trip%d", i), fmt.Sprintf("trip%d", i))
					plainTrip(h, t, i)
					h.Set(t, "StopTimes", h.OpenList(t.name+".StopTimes", t.name+".st", stT(h), 2))
					setSt(h, t, 0, "stop", es[i].obj)
					setSt(h, t, 1, "stop", es[(i+1)%len(es)].obj)
					ts = append(ts, t)
				}
				return func(s *State, surv *Ent) []string {
					var bad []string
					for _, t := range ts {
						st, ok := h.stopTimeStops(s, h.Get(s, t, "StopTimes"))
						if !ok || len(st) != 2 {
							bad = append(bad, "stop times of "+t.name+" cannot be determined")
							continue
						}
						for i, x := range st {
							if x != surv.obj {
								bad = append(bad, fmt.Sprintf("stop time %d of %s still refers to %s", i, t.name, nm(x)))
							}
						}
					}
					return bad
				}
			})
		}
		// pathways
		for _, v := range []string{"a>x,x>b", "a>b", "a>x,b>x", "a>a", "x>b,b>a"} {
			v := v
			for n := 2; n <= 3; n++ {
				add(fmt.Sprintf("%s (%d equal)", "pathways "+v, n), n, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
					x := otherStop(h, "x")
					by := map[string]*Ent{"a": es[0], "b": es[1], "c": es[len(es)-1], "x": x}
					var ps []*Ent
					for i, pair := range strings.Split(v, ",") {
						p := h.Entity("Pathway", fmt.Sprintf("path%d", i), fmt.Sprintf("path%d", i))
						h.Set(p, "From_stop", by[pair[:1]].obj)
						h.Set(p, "To_stop", by[pair[2:]].obj)
						ps = append(ps, p)
					}
					return func(s *State, surv *Ent) []string {
						var bad []string
						for i, pair := range strings.Split(v, ",") {
							p := ps[i]
							if !h.inFeed(s, p) {
								bad = append(bad, "a pathway was lost")
								continue
							}
							for _, side := range []struct{ f, e string }{{"From_stop", pair[:1]}, {"To_stop", pair[2:]}} {
								want := surv.obj
								if side.e == "x" {
									want = x.obj
								}
								if got := h.Get(s, p, side.f); got != want {
									bad = append(bad, fmt.Sprintf("pathway %s (%s) refers to %s", side.f, pair, nm(got)))
								}
							}
						}
						return bad
					}
				})
			}
		}
		// transfers
		for _, v := range []string{"a>x", "x>b", "a>x,x>b", "a>b", "a>a", "a>b,b>a", "a>x,b>x", "x>a,x>b", "a>a,b>b", "x>x", "a>b,b>c", "a>x,c>x"} {
			v := v
			for n := 2; n <= 3; n++ {
				add(fmt.Sprintf("%s (%d equal)", "transfers "+v, n), n, func(h *Heap, es []*Ent) func(*State, *Ent) []string {
					x := otherStop(h, "x")
					by := map[string]*Ent{"a": es[0], "b": es[1], "c": es[len(es)-1], "x": x}
					vals, fvals := map[string][]*V{}, map[string][]*V{}
					var flds []*V
					canon := func(c string) string {
						if c == "x" {
							return "x"
						}
						return "S"
					}
					for i, pair := range strings.Split(v, ",") {
						val := h.Transfer(fmt.Sprintf("transfer%d", i), h.TransferKey(by[pair[:1]].obj, by[pair[2:]].obj))
						k := canon(pair[:1]) + canon(pair[2:])
						vals[k] = append(vals[k], val)
						fv := h.e.TokT(fmt.Sprintf("fld%d", i), strT())
						flds = append(flds, h.TransferKey(by[pair[:1]].obj, by[pair[2:]].obj), fv)
						fvals[k] = append(fvals[k], fv)
					}
					h.AddField("TransfersAddFlds", "col", flds...)
					return func(s *State, surv *Ent) []string {
						var bad []string
						ks, vs, ok := h.entries(s, "Transfers")
						if !ok {
							return []string{"the transfers cannot be determined"}
						}
						for k, cand := range vals {
							side := map[byte]*V{'x': x.obj, 'S': surv.obj}
							want := h.TransferKey(side[k[0]], side[k[1]])
							found := false
							for i := range ks {
								if ks[i] == want {
									found = true
									okv := false
									for _, c := range cand {
										okv = okv || c == vs[i]
									}
									if !okv {
										bad = append(bad, fmt.Sprintf("the transfer between merged stops (%s) lost its data: %s", k, nm(vs[i])))
									}
								}
							}
							fv, _ := h.addFieldOf(s, "TransfersAddFlds", "col", want)
							okv := false
							for _, c := range fvals[k] {
								okv = okv || c == fv
							}
							if found && !okv {
								bad = append(bad, fmt.Sprintf("the transfer between merged stops (%s) lost its non-standard field", k))
							}
							if !found {
								bad = append(bad, fmt.Sprintf("the transfer (%s) of a merged stop was lost", k))
							}
						}
						if len(ks) > len(vals) {
							bad = append(bad, fmt.Sprintf("%d transfers are left where %d are expected", len(ks), len(vals)))
						}
						return bad
					}
				})
			}
		}
	}
	return out
}

// otherStop adds a stop that differs from the scenario's stops.
func otherStop(h *Heap, name string) *Ent {
	x := h.Entity("Stop", name, "Stop")
	h.Set(x, "Code", h.e.TokT("code:"+name, strT()))
	h.Set(x, "Location_type", h.e.Int(0))
	h.Set(x, "Level", h.e.Nil(nil))
	h.Set(x, "Parent_station", h.e.Nil(h.fieldType("Stop", "Parent_station")))
	return x
}

// shapeKind models geometrically equal shapes.
func shapeKind(P *Program) *dupKind {
	k := &dupKind{kind: "Shape", proc: "ShapeDuplicateRemover"}
	k.cfg = func(h *Heap) map[string]*V { return map[string]*V{"MaxEqDist": h.e.TokT("maxEq", nil)} }
	k.setup = func(h *Heap, es []*Ent) {
		for _, e := range es {
			h.Set(e, "Points", h.OpenList(e.name+".Points", "pt", h.gtfsType("ShapePoint"), 1))
		}
	}
	k.decide = func(h *Heap, s *State, atom *V) tri {
		if atom.K == KTerm && atom.Op == "lt" && atom.Args[0].K == KTok && atom.Args[0].Op == "maxEq" {
			if _, chain := s.marks["chain"]; chain {
				ment := func(n string) bool {
					return atom.mentions(func(x *V) bool { return x.Op == "Lat@"+n || x.Op == "Lon@"+n })
				}
				return b3(ment("a") && ment("c"))
			}
			return no
		}
		return unk
	}
	k.call = func(h *Heap, c *CallCtx) bool {
		switch {
		case strings.HasSuffix(c.name, "processors.NewShapeIdx"):
			return c.ret(h.e.Obj("shapeidx", c.rt))
		case strings.HasSuffix(c.name, "ShapeIdx).GetNeighbors"):
			m := h.e.fresh(c.s, KObj, "neighbors", c.rt)
			h.e.setMapKeys(c.s, m, nil)
			for _, en := range h.ents {
				if en.kind == "Shape" {
					h.e.mapSet(c.s, m, en.obj, h.e.Bool(true))
				}
			}
			return c.ret(m)
		}
		return false
	}
	return k
}

// c03Jobs merges equal entities of the given kinds (nil: all) with all kinds of referrers; keep selects the problems to report.
func c03Jobs(P *Program, r *Result, prop string, kinds map[string]bool, keep func(p string) bool) (jobs []Job) {
	for _, k := range append(dupKinds(P), shapeKind(P)) {
		k := k
		if kinds != nil && !kinds[k.kind] {
			continue
		}
		scs := refScenarios(P, k.kind)
		if k.kind == "Stop" || k.kind == "Shape" {
			// equality by distance is not transitive: a is near b and b near c, but a is not near c
			for _, sc := range scs {
				if sc.n == 3 {
					sc.name, sc.chain = sc.name+" in a chain", true
					scs = append(scs, sc)
				}
			}
		}
		r.Instances[k.kind] = len(scs)
		for _, sc := range scs {
			sc := sc
			name := prop + ":" + k.kind + ":" + sc.name
			jobs = append(jobs, Job{name, func(r *Result) {
				h, es := k.buildN(P, sc.n)
				var chk func(*State, *Ent) []string
				h.e.injectiveHash = true
				h.e.h.MaxKnownRange = 2
				if k.kind == "Stop" {
					for _, e := range es {
						h.Set(e, "Level", h.e.Nil(h.fieldType("Stop", "Level")))
						h.Set(e, "Location_type", h.e.Int(1))
						h.Set(e, "Code", h.e.TokT("codeS", strT()))
						h.Set(e, "Parent_station", h.e.Nil(h.fieldType("Stop", "Parent_station")))
					}
				}
				if sc.chain {
					h.s.marks["chain"] = h.e.Bool(true)
					for _, e := range es {
						if k.kind == "Shape" {
							pt := h.e.ElemAddr(h.Get(h.s, e, "Points").Args[0], h.e.Int(0))
							h.s.mem[h.e.FieldAddr(pt, "Lat")] = h.e.TokT("Lat@"+e.name, types.Typ[types.Float32])
							h.s.mem[h.e.FieldAddr(pt, "Lon")] = h.e.TokT("Lon@"+e.name, types.Typ[types.Float32])
							continue
						}
						h.Set(e, "Lat", h.e.TokT("Lat@"+e.name, nil))
						h.Set(e, "Lon", h.e.TokT("Lon@"+e.name, nil))
					}
				}
				chk = sc.set(h, es)
				bad := 0
				n, _ := h.runScenario(r, name, k.proc, k.config(h), func(s *State) {
					var left []*Ent
					for _, e := range es {
						if h.inFeed(s, e) {
							left = append(left, e)
						}
					}
					var probs []string
					if sc.chain && len(left) == 2 && (left[0] == es[0] || left[1] == es[2]) {
						probs = h.dangling(s) // depending on the order, one end of the chain stays
					} else if len(left) != 1 {
						probs = []string{fmt.Sprintf("%d of %d equal entities are left", len(left), len(es))}
					} else {
						probs = append(chk(s, left[0]), h.dangling(s)...)
					}
					for _, p := range probs {
						if keep != nil && !keep(p) {
							continue
						}
						bad++
						r.add(name, "", h.e.trailText(s, 14), "%s, merging %d entities of kind %s: %s", k.proc, sc.n, k.kind, p)
						h.e.stop = true
					}
				})
				r.Obligations++
				if bad == 0 {
					r.Discharged++
				}
				r.Detail = append(r.Detail, fmt.Sprintf("%s %s: %d ends, %d bad, %d steps", k.proc, sc.name, n, bad, h.e.steps))
			}})
		}
	}
	return
}

func checkC03(P *Program, r *Result, tier string) {
	jobs := c03Jobs(P, r, "C03", nil, nil)
	cj := clusterJobs(P, "C03", nil)
	r.Instances["stop clusters"] = len(cj)
	aj := dupAttrJobs(P, "C03")
	r.Instances["trips merged by calendar"] = len(aj)
	runJobs(r, append(append(jobs, cj...), aj...))
}

func init() {
	register("C03", 100, "Path-sensitive abstract interpretation of every duplicate-removal pass on an abstract feed with 2-3 equal entities and individual referrers of every kind; at every reachable end of Run each referrer is still there and refers to the survivor, transfers keep their data, attributions are carried over, and no reference leaves the feed.", checkC03)
}
