package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C04 and C23: transfers and other references after passes that remove or add entities.

// transfersForAll adds two transfers for every stop, route and trip of the feed: one from and one to it.
func (h *Heap) transfersForAll(w *watch) {
	n := 0
	for _, kind := range []string{"Stop", "Route", "Trip"} {
		ks, vs, ok := h.entries(h.s, feedMaps[kind])
		if !ok {
			continue
		}
		for j := range ks {
			for i := 0; i < 2; i++ {
				a := []*V{w.base.stops[0].obj, w.base.stops[1].obj, nil, nil, nil, nil}
				switch kind {
				case "Stop":
					a[i] = vs[j]
				case "Route":
					a[2+i] = vs[j]
				case "Trip":
					a[4+i] = vs[j]
				}
				h.Transfer(fmt.Sprintf("all%d", n), h.TransferKey(a[0], a[1], a[2:]...))
				n++
			}
		}
	}
}

// polyHook answers whether a polygon contains a stop: any answer per stop.
func polyHook(h *Heap) func(c *CallCtx) bool {
	return func(c *CallCtx) bool {
		if strings.HasSuffix(c.name, "Polygon).PolyContains") || strings.HasSuffix(c.name, "Polygon).PolyContainsPoint") {
			return c.ret(h.e.Term("contains", types.Typ[types.Bool], c.args[1:]...))
		}
		return h.baseCall(c)
	}
}

// otherScens: passes not covered by the families of other properties.
func otherScens() (out []passScen) {
	// trips over chains of stops in all kinds of station hierarchies
	for _, hier := range []string{"without stations", "with stations", "with boarding areas"} {
		hier := hier
		out = append(out, passScen{name: "stops " + hier, typ: "CompleteTripsGeoFilter",
			cfg: func(h *Heap) map[string]*V {
				return map[string]*V{"Polygons": h.OpenList("polys", "poly", h.P.parserType("Polygon"), 1)}
			},
			setup: func(h *Heap, w *watch) {
				c := h.core(w)
				h.e.h.Call = polyHook(h)
				h.addEnt(c.route2)
				t := h.coreTrip(c, "t", c.route2)
				nd := h.newStop("nd", 3, nil)
				x := c.stops[1]
				switch hier {
				case "with stations":
					for i, s := range c.stops {
						st := h.newStop(fmt.Sprintf("st%d", i), 1, nil)
						h.Set(s, "Parent_station", st.obj)
						h.Set(nd, "Parent_station", st.obj)
					}
				case "with boarding areas":
					st := h.newStop("st", 1, nil)
					h.Set(x, "Parent_station", st.obj)
					h.Set(nd, "Parent_station", st.obj)
					ba := h.newStop("ba", 4, x)
					x = h.newStop("x", 0, nil)
					setSt(h, t, 0, "stop", x.obj)
					setSt(h, c.trip, 1, "stop", x.obj)
					h.newPathway("q", ba, c.stops[1])
				}
				h.newPathway("p", c.stops[0], nd)
				h.newPathway("p2", nd, c.stops[1])
				h.newPathway("p3", nd, nd)
				h.newPathway("p4", c.stops[1], c.stops[0])
				h.newFare("p", c.agency, c.route)
			}})
	}
	out = append(out, newStopScens()...)
	for _, n := range []int{2, 3} {
		n := n
		out = append(out, passScen{name: fmt.Sprintf("%d stops", n), typ: "TooFastTripRemover", cfg: func(*Heap) map[string]*V { return nil },
			setup: func(h *Heap, w *watch) {
				c := h.core(w)
				h.addEnt(c.route2)
				h.e.h.Call = func(cc *CallCtx) bool {
					if strings.HasSuffix(cc.name, "processors.distSApprox") {
						return cc.ret(h.e.Term("dist", types.Typ[types.Float64], cc.args...))
					}
					return h.baseCall(cc)
				}
				t := h.trip(c.tripBase, "t", c.route2, c.service, 100)
				h.Set(t, "StopTimes", h.OpenList("t.StopTimes", "st", stT(h), n))
				for i := 0; i < n; i++ {
					setSt(h, t, i, "stop", c.stops[i%2].obj)
					setSt(h, t, i, "arrival_time", h.gtfsTime(int64(i)*300))
					setSt(h, t, i, "departure_time", h.gtfsTime(int64(i)*300))
				}
			}})
	}
	return
}

// newStopScens: passes that add stops, for stops with IDs that look like new ones.
func newStopScens() (out []passScen) {
	none := func(*Heap) map[string]*V { return nil }
	for _, names := range [][]string{{"a"}, {"a", "b"}, {"a", "par::a"}, {"a", "par::a", "par1::a"}} {
		names := names
		out = append(out, passScen{name: fmt.Sprint(names), typ: "StopParentEnforcer", cfg: none, setup: func(h *Heap, w *watch) {
			h.core(w)
			for _, n := range names {
				h.plainID("Stop", n)
			}
		}})
	}
	for _, n := range []int{1, 2} {
		for _, with := range []string{"", "with a station and level", "with stops named alike"} {
			n, with := n, with
			if n > 1 && with != "" {
				continue
			}
			out = append(out, passScen{name: strings.TrimSpace(fmt.Sprintf("%d trips %s", n, with)), typ: "ShapeSnapper",
				cfg: func(h *Heap) map[string]*V {
					return map[string]*V{"MaxDist": h.e.Term("maxdist", types.Typ[types.Float64])}
				},
				setup: func(h *Heap, w *watch) {
					c := h.core(w)
					h.Set(c.shape, "Points", h.OpenList("points", "pt", h.gtfsType("ShapePoint"), 3-n))
					if with == "with a station and level" {
						st := h.newStop("st", 1, nil)
						lv := h.Entity("Level", "lv", "lv")
						h.Set(c.stops[0], "Parent_station", st.obj)
						h.Set(c.stops[0], "Level", lv.obj)
					}
					if with == "with stops named alike" {
						for i := 1; i < 3; i++ {
							h.plainID("Stop", fmt.Sprintf("%d#idstop0", i))
						}
					}
					for i := 1; i < n; i++ {
						h.coreTrip(c, fmt.Sprintf("t%d", i), c.route)
					}
				}})
		}
	}
	return
}

// plainID adds an entity with a given ID.
func (h *Heap) plainID(kind, id string) *Ent {
	en := h.entityID(kind, "named "+id, h.e.Str(id))
	h.plain(en)
	for _, f := range h.fields(kind) {
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			h.Set(en, f.Name(), h.e.Const(h.e.Int(0).C, f.Type()))
		}
	}
	return en
}

// passJobs runs the scenarios of all families with one rule; transfers asks for transfers of everything.
func passJobs(P *Program, prop, tier string, transfers bool, rule func(h *Heap, s *State, w *watch) []string) (jobs []Job) {
	for _, sc := range allScens(tier) {
		sc := sc
		key := prop + ":" + sc.typ + ":" + sc.name
		setup := sc.setup
		sc.setup = func(h *Heap, w *watch) {
			setup(h, w)
			w.keepCal, w.groups = nil, nil
			if transfers {
				h.transfersForAll(w)
			}
		}
		jobs = append(jobs, Job{key, func(r *Result) { runPass(P, r, key, sc, rule) }})
	}
	return
}

func checkC04(P *Program, r *Result, tier string) {
	jobs := passJobs(P, "C04", tier, true, func(h *Heap, s *State, w *watch) []string {
		return append(h.undetermined(s), h.danglingTransfers(s)...)
	})
	isT := func(p string) bool { return strings.HasPrefix(p, "a transfer refers") }
	jobs = append(jobs, clusterJobs(P, "C04", func(_ clusterScenario, p string) bool { return isT(p) })...)
	runJobs(r, append(jobs, c03Jobs(P, r, "C04", map[string]bool{"Stop": true, "Route": true, "Trip": true}, isT)...))
}

func init() {
	register("C04", 60, "Path-sensitive abstract interpretation of every pass that deletes stops, routes or trips, on abstract feeds with transfers from and to every stop, route and trip; at every reachable end no transfer refers to an entity that is not in the feed.", checkC04)
}

// parserType is a named type of the package that declares the feed.
func (p *Program) parserType(name string) types.Type {
	return p.feed.Obj().Pkg().Scope().Lookup(name).Type()
}

// allScens are the scenarios of all passes that add or delete entities.
func allScens(tier string) []passScen {
	var scs []passScen
	scs = append(scs, otherScens()...)
	scs = append(scs, c16Scens(tier)...)
	for _, sc := range copyScens(tier) {
		scs = append(scs, sc.passScen)
	}
	for _, sc := range orphScens() {
		sc := sc
		scs = append(scs, passScen{name: sc.name, typ: "OrphanRemover", setup: func(h *Heap, w *watch) { sc.set(h, h.core(w)) }})
	}
	for i := range scs {
		if scs[i].cfg == nil {
			scs[i].cfg = func(*Heap) map[string]*V { return nil }
		}
	}
	return scs
}
