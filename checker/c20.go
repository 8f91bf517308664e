package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C20: no pass crashes on a feed that omits optional references. The scenarios of the other properties are interpreted
// once more with the optional references of some or all entities empty; only crashes are reported.

var optionalRefs = map[string][]string{
	"Agency":            {"Url", "Fare_url", "Email", "Attributions"},
	"Stop":              {"Url", "Parent_station", "Level", "Translations"},
	"Route":             {"Agency", "Url", "Attributions"},
	"Trip":              {"Shape", "Short_name", "Block_id", "Frequencies", "Attributions", "Translations"},
	"FareAttribute":     {"Agency", "Rules"},
	"FareAttributeRule": {"Route"},
	"Attribution":       {"Url", "Email"},
}

type nilMode struct {
	name string
	only string // "Kind.Field" or all
	pick func(i int) bool
}

// withoutRefs is a view of the program for which scenarios start with empty references and report crashes only.
func (p *Program) withoutRefs(m *nilMode) *Program {
	q := *p
	q.nils = m
	return &q
}

// dropRefs empties optional references of the entities built so far.
func (h *Heap) dropRefs(m *nilMode) (n int) {
	count := map[string]int{}
	for _, en := range h.ents {
		i := count[en.kind]
		count[en.kind]++
		if !m.pick(i) {
			h.fillRefs(en)
			continue
		}
		for _, f := range optionalRefs[en.kind] {
			if m.only != "" && m.only != en.kind+"."+f {
				continue
			}
			if f == "Parent_station" {
				// entrances, generic nodes and boarding areas always have one
				lt := h.s.mem[h.e.FieldAddr(en.obj, "Location_type")]
				if lt == nil {
					continue
				}
				if v, ok := lt.intVal(); ok && v > 1 {
					continue
				}
			}
			h.Set(en, f, h.e.Nil(h.fieldType(en.kind, f)))
			n++
		}
	}
	return
}

// fillRefs sets optional references that are empty in the scenario but have no influence on what the passes do.
func (h *Heap) fillRefs(en *Ent) {
	for _, f := range optionalRefs[en.kind] {
		t := h.fieldType(en.kind, f)
		if v := h.s.mem[h.e.FieldAddr(en.obj, f)]; v != nil && !v.IsNil() {
			continue
		}
		switch f {
		case "Url", "Fare_url", "Email", "Short_name":
			h.Set(en, f, h.e.Obj("some:"+en.kind+"."+f, t.Underlying().(*types.Pointer).Elem()))
		case "Level":
			lv := h.e.Obj("some:level", h.gtfsType("Level"))
			h.Set(en, f, lv)
		case "Attributions":
			at := h.e.Obj("some:attr:"+en.name, h.gtfsType("Attribution"))
			h.SetT(&Ent{obj: at, kind: "Attribution"}, "Id", h.e.Str("attr:"+en.name), types.Typ[types.String])
			l := h.List("some:attrs:"+en.name, types.NewPointer(h.gtfsType("Attribution")), at)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				b := h.e.Obj("some:attrsp:"+en.name, p.Elem())
				h.e.store(h.s, b, l, p.Elem())
				l = b
			}
			h.Set(en, f, l)
		}
	}
}

// genericScens: every pass on one feed with two entities of every kind that refer to each other.
func genericScens() (out []passScen) {
	type pass struct {
		typ  string
		cfg  func(h *Heap) map[string]*V
		hook func(h *Heap)
	}
	f := func(h *Heap, n string) *V { return h.e.Term(n, types.Typ[types.Float64]) }
	geom := func(h *Heap) {
		g := geomHook(h)
		h.e.h.Call = func(c *CallCtx) bool { return g(c) }
	}
	for _, p := range []pass{
		{"AdjacentStopTimeGrouper", nil, nil}, {"AgencyDuplicateRemover", nil, nil}, {"OrphanRemover", nil, nil}, {"PlatformCodeDropper", nil, nil},
		{"CompleteTripsGeoFilter", func(h *Heap) map[string]*V {
			return map[string]*V{"Polygons": h.OpenList("polys", "poly", h.P.parserType("Polygon"), 1)}
		}, func(h *Heap) { h.e.h.Call = polyHook(h) }},
		{"StopParentAverager", func(h *Heap) map[string]*V { return map[string]*V{"MaxDist": f(h, "maxdist")} }, geom},
		{"RouteDuplicateRemover", nil, nil}, {"ServiceMinimizer", nil, nil}, {"ServiceDuplicateRemover", nil, nil}, {"ServiceCalDatesRem", nil, nil},
		{"StopParentEnforcer", nil, nil}, {"TooFastTripRemover", nil, geom}, {"ShapeRemeasurer", nil, geom},
		{"StopDuplicateRemover", func(h *Heap) map[string]*V {
			return map[string]*V{"DistThresholdStop": f(h, "ds"), "DistThresholdStation": f(h, "dst")}
		}, geom},
		{"TripDuplicateRemover", func(h *Heap) map[string]*V { return map[string]*V{"MaxDayDist": h.e.Int(7)} }, nil},
		{"FrequencyMinimizer", func(h *Heap) map[string]*V {
			return map[string]*V{"MinHeadway": h.e.Int(600), "MaxHeadway": h.e.Int(700)}
		}, nil},
		{"ShapeSnapper", func(h *Heap) map[string]*V { return map[string]*V{"MaxDist": f(h, "maxdist")} }, geom},
		{"ShapeMinimizer", func(h *Heap) map[string]*V { return map[string]*V{"Epsilon": f(h, "epsilon")} }, geom},
		{"IDMinimizer", func(h *Heap) map[string]*V { return map[string]*V{"Base": h.e.Int(10)} }, nil},
	} {
		p := p
		sc := passScen{name: "two of everything", typ: p.typ, cfg: p.cfg, setup: func(h *Heap, w *watch) {
			c := h.core(w)
			h.addEnt(c.route2)
			t2 := h.coreTrip(c, "t2", c.route2)
			h.Set(c.shape, "Points", h.OpenList("points", "pt", h.gtfsType("ShapePoint"), 2))
			lv := h.Entity("Level", "lv", "lv")
			for i, s := range c.stops {
				st := h.newStop(fmt.Sprintf("st%d", i), 1, nil)
				h.Set(s, "Parent_station", st.obj)
				h.Set(s, "Level", lv.obj)
				if p.typ == "StopDuplicateRemover" {
					break
				}
				ba := h.newStop(fmt.Sprintf("ba%d", i), 4, s)
				h.Set(ba, "Level", lv.obj)
				if p.typ == "TripDuplicateRemover" {
					setSt(h, t2, i, "stop", ba.obj)
				}
			}
			h.newPathway("p", c.stops[0], c.stops[1])
			h.newFare("fa", c.agency, c.route, nil)
			h.newFare("fb", c.agency, c.route2)
			ag2 := h.Entity("Agency", "Ag2", "Ag2")
			h.plain(ag2)
			h.Set(c.route2, "Agency", ag2.obj)
			h.Transfer("trf", h.TransferKey(c.stops[0].obj, c.stops[1].obj, c.route.obj, nil, nil, t2.obj))
			if p.typ == "OrphanRemover" { // a trip without stop times
				h.Set(t2, "StopTimes", h.e.Nil(h.fieldType("Trip", "StopTimes")))
			}
			h.Transfer("trg", h.TransferKey(c.stops[1].obj, c.stops[0].obj))
			if p.hook != nil {
				p.hook(h)
			}
		}}
		if sc.cfg == nil {
			sc.cfg = func(*Heap) map[string]*V { return nil }
		}
		out = append(out, sc)
	}
	return
}

// singleScens: trips that agree in all but one optional reference, which one of them omits.
func singleScens() (out []passScen) {
	for _, f := range append([]string{"none"}, optionalRefs["Trip"]...) {
		for k := 0; k < 3; k++ {
			f, k := f, k
			put := func(h *Heap, ts []*Ent) {
				sh := h.Entity("Shape", "shape", "shape")
				for i, t := range ts {
					for _, g := range optionalRefs["Trip"] {
						ft := h.fieldType("Trip", g)
						switch {
						case g == f && (k == 2) != (i == k):
							h.Set(t, g, h.e.Nil(ft))
						case g == "Shape":
							h.Set(t, g, sh.obj)
						case g == "Short_name" || g == "Block_id":
							b := h.e.Obj("shared:"+g, types.Typ[types.String])
							h.s.mem[b] = h.e.Str("the " + g)
							h.Set(t, g, b)
						}
					}
				}
			}
			name := fmt.Sprintf("equal trips but for %s of trip %d", f, k)
			if k == 2 {
				name = fmt.Sprintf("equal trips but for %s of all but trip 2", f)
			}
			out = append(out, passScen{name: name, typ: "FrequencyMinimizer", order: 3, setup: func(h *Heap, w *watch) {
				s0 := h.service("S0", cal{from: 0, to: 6, days: 127})
				var ts []*Ent
				for i := 0; i < 4; i++ {
					ts = append(ts, h.trip(w.base, fmt.Sprintf("t%d", i), w.base.route, s0, int64(i)*600))
				}
				put(h, ts)
			}, cfg: func(h *Heap) map[string]*V {
				return map[string]*V{"MinHeadway": h.e.Int(600), "MaxHeadway": h.e.Int(700)}
			}})
			for _, fuzzy := range []bool{false, true} {
				fuzzy := fuzzy
				n := name
				if fuzzy {
					n += ", fuzzy"
				}
				out = append(out, passScen{name: n, typ: "TripDuplicateRemover", order: 3, setup: func(h *Heap, w *watch) {
					var ts []*Ent
					for i := int64(0); i < 3; i++ {
						sv := h.service(fmt.Sprint("S", i), cal{from: 7 * (i / 2), to: 7*(i/2) + 1, days: 3})
						ts = append(ts, h.trip(w.base, fmt.Sprintf("t%d", i), w.base.route, sv, 0))
					}
					put(h, ts)
				}, cfg: func(h *Heap) map[string]*V {
					return map[string]*V{"MaxDayDist": h.e.Int(7), "Fuzzy": h.e.Bool(fuzzy)}
				}})
			}
		}
	}
	return
}

func c20Jobs(P *Program, tier string) (jobs []Job) {
	any := func(int) bool { return true }
	modes := []*nilMode{{"all references empty", "", any}, {"every second reference empty", "", func(i int) bool { return i%2 == 1 }}, {"every other reference empty", "", func(i int) bool { return i%2 == 0 }}}
	if tier == "thorough" {
		for _, k := range sortedKeys(optionalRefs) {
			for _, f := range optionalRefs[k] {
				modes = append(modes, &nilMode{k + "." + f + " empty", k + "." + f, any})
			}
		}
	}
	none := func(h *Heap, s *State, w *watch) []string { return nil }
	keep := &nilMode{"as given", "none", func(int) bool { return true }}
	for _, m := range modes {
		Q := P.withoutRefs(m)
		var js []Job
		for _, sc := range append(append(genericScens(), moreParScens(P)...), allScens("quick")...) {
			sc := sc
			if P.method(sc.typ, "Run") == nil || sc.typ == "FrequencyMinimizer" && strings.Contains(sc.name, "trips with frequencies") && !strings.HasPrefix(sc.name, "2") {
				continue // more trips reach no other dereference and exceed the budget
			}
			key := "C20:" + sc.typ + ":" + sc.name
			js = append(js, Job{key, func(r *Result) { runPass(Q, r, key, sc, none) }})
		}
		if m.only == "" {
			js = append(js, c03Jobs(Q, newResult("C20"), "C20", nil, func(string) bool { return false })...)
			js = append(js, clusterJobs(Q, "C20", func(clusterScenario, string) bool { return false })...)
			for _, k := range append(dupKinds(Q), shapeKind(Q)) {
				k := k
				for _, fuzzy := range []bool{false, true} {
					fuzzy := fuzzy
					name := "C20:" + k.proc + ":2 equal"
					if fuzzy {
						if h, _ := k.buildN(Q, 2); k.config(h)["Fuzzy"] == nil {
							continue
						}
						name += ", fuzzy"
					}
					js = append(js, Job{name, func(r *Result) {
						h, _ := k.buildN(Q, 2)
						h.e.injectiveHash = true
						c := k.config(h)
						if fuzzy {
							c["Fuzzy"] = h.e.Bool(true)
						}
						h.runScenario(r, name, k.proc, c, func(s *State) {})
					}})
				}
			}
			js = append(js, idMinJobs(Q, "C20", "quick")...)
		}
		if m == modes[0] {
			for _, sc := range fScens("quick") {
				sc := sc
				key := "C20:" + sc.name
				js = append(js, Job{key, func(r *Result) { runFreq(P.withoutRefs(keep), r, key, sc, nil) }})
			}
			for _, sc := range singleScens() {
				sc := sc
				key := "C20:" + sc.typ + ":" + sc.name
				js = append(js, Job{key, func(r *Result) { runPass(P.withoutRefs(keep), r, key, sc, none) }})
			}
			for _, k := range append(dupKinds(P), shapeKind(P)) {
				for _, f := range optionalRefs[k.kind] {
					for i := 0; i < 2; i++ {
						k, f, i := k, f, i
						name := fmt.Sprintf("C20:%s:2 equal but for %s of number %d", k.proc, f, i)
						js = append(js, Job{name, func(r *Result) {
							h, _ := k.buildN(P.withoutRefs(&nilMode{name, k.kind + "." + f, func(j int) bool { return j == i }}), 2)
							h.e.injectiveHash = true
							h.runScenario(r, name, k.proc, k.config(h), func(s *State) {})
						}})
					}
				}
			}
		}
		for _, j := range js {
			j, m := j, m
			jobs = append(jobs, Job{j.Name + ", " + m.name, func(r *Result) {
				x := newResult("C20")
				j.Run(x)
				r.Obligations++
				bad := 0
				for _, f := range x.Findings {
					if strings.HasPrefix(f.Key, "nil:") || strings.HasPrefix(f.Key, "internal") || strings.HasSuffix(f.Key, ":undecided") {
						bad++
						r.addF(f)
					}
				}
				if bad == 0 {
					r.Discharged++
				}
				for k := range x.Functions {
					r.Functions[k] = true
				}
				r.Steps += x.Steps
				r.States += x.States
				r.Detail = append(r.Detail, fmt.Sprintf("%s, %s: %d references emptied, %d steps", j.Name, m.name, x.Instances["emptied"], x.Steps))
			}})
		}
	}
	return
}

func checkC20(P *Program, r *Result, tier string) { runJobs(r, c20Jobs(P, tier)) }

func init() {
	register("C20", 100, "Path-sensitive abstract interpretation of every pass on the scenarios of all properties and on a feed with two entities of every kind, with the optional references of all, of every other or of single fields empty; no path dereferences an empty reference or crashes otherwise.", checkC20)
}

// crashSite is the place of the last crash of a state.
func (e *Engine) crashSite(s *State) string {
	for t := s.trail; t != nil; t = t.prev {
		if strings.HasSuffix(t.text, "crash") {
			return e.pos(t.pos)
		}
	}
	return "-"
}
