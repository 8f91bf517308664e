package main

import (
	"fmt"
	"go/types"
)

// C09: orphan removal.

// core is a small feed whose entities are all in use.
type core struct {
	*tripBase
	agency  *Ent
	shape   *Ent
	service *Ent
	trip    *Ent
}

// core builds the feed: a trip on route r1 of an agency, with a shape, a service and two stops.
func (h *Heap) core(w *watch) *core {
	c := &core{tripBase: w.base}
	c.agency = h.Entity("Agency", "Ag", "Ag")
	h.plain(c.agency)
	c.shape = h.Entity("Shape", "Sh", "Sh")
	h.Set(c.shape, "Points", h.e.Nil(h.fieldType("Shape", "Points")))
	c.service = h.service("S", cal{from: 0, to: 6, days: 127})
	for _, r := range []*Ent{c.route, c.route2} {
		h.Set(r, "Agency", c.agency.obj)
		for _, f := range []string{"Continuous_pickup", "Continuous_drop_off"} {
			h.Set(r, f, h.e.Const(h.e.Int(1).C, h.fieldType("Route", f)))
		}
	}
	c.trip = h.coreTrip(c, "core", c.route)
	h.delEnt(c.route2)
	return c
}

// delEnt takes an entity out of the initial feed.
func (h *Heap) delEnt(en *Ent) { h.e.mapDel(h.s, h.FeedMap(feedMaps[en.kind]), en.id) }

func (h *Heap) addEnt(en *Ent) { h.e.mapSet(h.s, h.FeedMap(feedMaps[en.kind]), en.id, en.obj) }

// coreTrip adds a trip with two stop times that both allow boarding and alighting.
func (h *Heap) coreTrip(c *core, name string, route *Ent) *Ent {
	t := h.trip(c.tripBase, name, route, c.service, 0)
	for i := range c.stops {
		setSt(h, t, i, "pudo", h.e.Const(h.e.Int(0).C, types.Typ[types.Uint8]))
	}
	h.Set(t, "Shape", c.shape.obj)
	return t
}

// newStop adds a plain stop.
func (h *Heap) newStop(name string, loc int64, parent *Ent) *Ent {
	s := mkStop(h, name, loc, nil)
	h.plain(s)
	if parent != nil {
		h.Set(s, "Parent_station", parent.obj)
	}
	return s
}

// newPathway adds a pathway.
func (h *Heap) newPathway(name string, from, to *Ent) *Ent {
	p := h.Entity("Pathway", name, name)
	h.plain(p)
	h.Set(p, "From_stop", from.obj)
	h.Set(p, "To_stop", to.obj)
	return p
}

// newFare adds a fare with rules for the given routes (nil: a rule without route).
func (h *Heap) newFare(name string, agency *Ent, routes ...*Ent) *Ent {
	f := h.Entity("FareAttribute", name, name)
	h.plain(f)
	if agency != nil {
		h.Set(f, "Agency", agency.obj)
	}
	rt := types.NewPointer(h.gtfsType("FareAttributeRule"))
	var rs []*V
	for i, r := range routes {
		rl := h.Entity("FareAttributeRule", fmt.Sprintf("rule%d@%s", i, name), "rule")
		h.plain(rl)
		if r != nil {
			h.Set(rl, "Route", r.obj)
		}
		rs = append(rs, rl.obj)
	}
	if len(rs) > 0 {
		h.Set(f, "Rules", h.List("rules@"+name, rt, rs...))
	}
	return f
}

// unreferenced lists entities of the kinds orphan removal covers that nothing in the feed refers to.
func (h *Heap) unreferenced(s *State) (out []string) {
	used := map[*V]bool{}
	list := func(kind string, f func(o *V)) {
		_, vs, ok := h.entries(s, feedMaps[kind])
		if !ok {
			out = append(out, fmt.Sprintf("the entities of kind %s are undetermined", kind))
			return
		}
		for _, o := range vs {
			if !isEntObj(o) {
				out = append(out, fmt.Sprintf("%s of kind %s is undetermined", nm(o), kind))
				continue
			}
			f(o)
		}
	}
	for _, rk := range refKinds {
		list(rk.kind, func(o *V) { used[h.getF(s, o, rk.kind, rk.field)] = true })
	}
	list("Trip", func(o *V) {
		els, ok := h.stopTimeStops(s, h.getF(s, o, "Trip", "StopTimes"))
		if !ok {
			out = append(out, "stop times undetermined")
		}
		for _, st := range els {
			used[st] = true
		}
	})
	list("FareAttribute", func(o *V) {
		els, ok := h.listElems(s, h.getF(s, o, "FareAttribute", "Rules"))
		if !ok {
			out = append(out, "fare rules undetermined")
		}
		for _, r := range els {
			used[h.getF(s, r, "FareAttributeRule", "Route")] = true
		}
	})
	ks, _, ok := h.entries(s, "Transfers")
	if !ok {
		out = append(out, "the transfers are undetermined")
	}
	for _, k := range ks {
		if k.K == KStruct {
			for _, a := range k.Args {
				used[a] = true
			}
		}
	}
	for _, kind := range []string{"Agency", "Stop", "Shape", "Service", "Route"} {
		list(kind, func(o *V) {
			if used[o] {
				return
			}
			if kind == "Stop" {
				if l, ok := h.getF(s, o, "Stop", "Location_type").intVal(); ok && l == 2 {
					return // entrances are kept
				}
			}
			out = append(out, fmt.Sprintf("%s %s is kept, although nothing in the feed refers to it", kind, nm(o)))
		})
	}
	return
}

// undetermined lists the maps of the feed whose content is not known in a state.
func (h *Heap) undetermined(s *State) (out []string) {
	for _, kind := range sortedKeys(feedMaps) {
		if _, _, ok := h.entries(s, feedMaps[kind]); !ok {
			out = append(out, "the content of feed."+feedMaps[kind]+" is undetermined")
		}
	}
	if _, _, ok := h.entries(s, "Transfers"); !ok {
		out = append(out, "the transfers of the feed are undetermined")
	}
	return
}

type orphScen struct {
	name string
	set  func(h *Heap, c *core) (kept, gone []*Ent)
}

func orphScens() (out []orphScen) {
	type ents = []*Ent
	add := func(name string, set func(h *Heap, c *core) (kept, gone []*Ent)) {
		out = append(out, orphScen{name, set})
	}
	// a trip that is deleted because it never stops
	dead := func(h *Heap, c *core, name string, r *Ent) *Ent {
		t := h.coreTrip(c, name, r)
		h.Set(t, "StopTimes", h.e.Nil(h.fieldType("Trip", "StopTimes")))
		return t
	}
	add("nothing unreferenced", func(h *Heap, c *core) (ents, ents) { return nil, nil })
	for _, loc := range []int64{0, 1, 3, 4} {
		loc := loc
		add(fmt.Sprintf("unused stop of type %d", loc), func(h *Heap, c *core) (ents, ents) {
			return nil, ents{h.newStop("x", loc, nil)}
		})
	}
	for _, loc := range []int64{0, 1, 2, 3, 4} {
		for i := 0; i < 2; i++ {
			loc, i := loc, i
			add(fmt.Sprintf("stop of type %d used by stop time %d", loc, i), func(h *Heap, c *core) (ents, ents) {
				x := h.newStop("x", loc, nil)
				t := h.coreTrip(c, "t", c.route)
				setSt(h, t, i, "stop", x.obj)
				return ents{x, t}, nil
			})
			add(fmt.Sprintf("stop of type %d used at end %d of a pathway", loc, i), func(h *Heap, c *core) (ents, ents) {
				x := h.newStop("x", loc, nil)
				p := h.newPathway("p", [2]*Ent{x, c.stops[0]}[i], [2]*Ent{c.stops[0], x}[i])
				return ents{x, p}, nil
			})
		}
	}
	for _, loc := range []int64{0, 2, 3} {
		loc := loc
		add(fmt.Sprintf("station of a used stop of type %d", loc), func(h *Heap, c *core) (ents, ents) {
			st := h.newStop("st", 1, nil)
			x := h.newStop("x", loc, st)
			p := h.newPathway("p", x, c.stops[1])
			return ents{st, x, p}, nil
		})
		if loc != 2 {
			add(fmt.Sprintf("station of an unused stop of type %d", loc), func(h *Heap, c *core) (ents, ents) {
				st := h.newStop("st", 1, nil)
				x := h.newStop("x", loc, st)
				return nil, ents{st, x}
			})
		}
	}
	add("station with a used and an unused stop", func(h *Heap, c *core) (ents, ents) {
		st := h.newStop("st", 1, nil)
		x, y := h.newStop("x", 0, st), h.newStop("y", 0, st)
		h.Set(c.stops[0], "Parent_station", h.e.Nil(nil))
		t := h.coreTrip(c, "t", c.route)
		setSt(h, t, 1, "stop", y.obj)
		return ents{st, y, t}, ents{x}
	})
	add("station of an entrance", func(h *Heap, c *core) (ents, ents) {
		st := h.newStop("st", 1, nil)
		return ents{st, h.newStop("x", 2, st)}, nil
	})
	add("unused boarding area of an unused platform", func(h *Heap, c *core) (ents, ents) {
		st := h.newStop("st", 1, nil)
		pl := h.newStop("pl", 0, st)
		ba := h.newStop("ba", 4, pl)
		return nil, ents{st, pl, ba}
	})
	add("unused boarding area of a used platform", func(h *Heap, c *core) (ents, ents) {
		st := h.newStop("st", 1, nil)
		pl := h.newStop("pl", 0, st)
		ba := h.newStop("ba", 4, pl)
		t := h.coreTrip(c, "t", c.route)
		setSt(h, t, 0, "stop", pl.obj)
		return ents{st, pl, t}, ents{ba}
	})
	add("used boarding area", func(h *Heap, c *core) (ents, ents) {
		st := h.newStop("st", 1, nil)
		pl := h.newStop("pl", 0, st)
		ba := h.newStop("ba", 4, pl)
		nd := h.newStop("nd", 3, st)
		return ents{st, pl, ba, nd, h.newPathway("p", ba, nd)}, nil
	})
	add("stop used by a trip without boarding", func(h *Heap, c *core) (ents, ents) {
		x := h.newStop("x", 0, nil)
		t := dead(h, c, "t", c.route)
		_ = x
		return nil, ents{x, t}
	})
	for _, dir := range []string{"unused", "used", "of a fare rule", "of the second fare", "of a deleted trip", "of a deleted trip and a fare rule"} {
		dir := dir
		add("route "+dir, func(h *Heap, c *core) (kept, gone ents) {
			h.addEnt(c.route2)
			ag := h.Entity("Agency", "Ag2", "Ag2")
			h.plain(ag)
			h.Set(c.route2, "Agency", ag.obj)
			both := ents{c.route2, ag}
			switch dir {
			case "unused":
				return nil, both
			case "used":
				return append(both, h.coreTrip(c, "t", c.route2)), nil
			case "of a fare rule":
				return append(both, h.newFare("f", nil, nil, c.route2)), nil
			case "of the second fare":
				return append(both, h.newFare("f", nil, c.route), h.newFare("g", nil, c.route2)), nil
			case "of a deleted trip":
				return nil, append(both, dead(h, c, "t", c.route2))
			}
			return append(both, h.newFare("g", nil, c.route2, c.route)), ents{dead(h, c, "t", c.route2)}
		})
	}
	for _, dir := range []string{"unused", "of a fare", "of a used route", "of an unused route", "of a fare and an unused route"} {
		dir := dir
		add("agency "+dir, func(h *Heap, c *core) (kept, gone ents) {
			ag := h.Entity("Agency", "Ag2", "Ag2")
			h.plain(ag)
			switch dir {
			case "unused":
				return nil, ents{ag}
			case "of a fare":
				return ents{ag, h.newFare("f", ag)}, nil
			}
			h.addEnt(c.route2)
			h.Set(c.route2, "Agency", ag.obj)
			switch dir {
			case "of a used route":
				return ents{ag, c.route2, h.coreTrip(c, "t", c.route2)}, nil
			case "of an unused route":
				return nil, ents{ag, c.route2}
			}
			return ents{ag, h.newFare("f", ag, c.route)}, ents{c.route2}
		})
	}
	for _, kind := range []string{"Shape", "Service"} {
		for _, dir := range []string{"unused", "used", "used by a deleted trip", "used by a deleted and another trip"} {
			kind, dir := kind, dir
			add(kind+" "+dir, func(h *Heap, c *core) (kept, gone ents) {
				var x *Ent
				if kind == "Shape" {
					x = h.Entity("Shape", "x", "x")
					h.Set(x, "Points", h.e.Nil(h.fieldType("Shape", "Points")))
				} else {
					x = h.service("x", cal{from: 0, to: 6, days: 127})
				}
				switch dir {
				case "unused":
					return nil, ents{x}
				case "used":
					t := h.coreTrip(c, "t", c.route)
					h.Set(t, kind, x.obj)
					return ents{x, t}, nil
				}
				t := dead(h, c, "t", c.route)
				h.Set(t, kind, x.obj)
				if dir == "used by a deleted trip" {
					return nil, ents{x, t}
				}
				u := h.coreTrip(c, "u", c.route)
				h.Set(u, kind, x.obj)
				return ents{x, u}, ents{t}
			})
		}
	}
	// trips that can be boarded and left, in several ways
	pudo := func(h *Heap, t *Ent, a, b int64) {
		for i, v := range []int64{a, b} {
			setSt(h, t, i, "pudo", h.e.Const(h.e.Int(v).C, types.Typ[types.Uint8]))
		}
	}
	// pickup, drop off, continuous pickup, continuous drop off in two bits each
	bits := func(p, d, cp, cd int64) int64 { return p | d<<2 | cp<<4 | cd<<6 }
	for n, v := range map[string][2]int64{
		"regular ends":                     {bits(0, 1, 1, 1), bits(1, 0, 1, 1)},
		"on request":                       {bits(2, 1, 1, 1), bits(1, 3, 1, 1)},
		"continuous pickup only":           {bits(1, 1, 0, 1), bits(1, 0, 1, 1)},
		"continuous drop off only":         {bits(0, 1, 1, 1), bits(1, 1, 1, 0)},
		"continuous pickup at the end":     {bits(1, 1, 1, 1), bits(1, 0, 2, 1)},
		"continuous drop off at the start": {bits(0, 1, 1, 3), bits(1, 1, 1, 1)},
	} {
		n, v := n, v
		add("trip with boarding and alighting, "+n, func(h *Heap, c *core) (ents, ents) {
			t := h.coreTrip(c, "t", c.route)
			pudo(h, t, v[0], v[1])
			return ents{t}, nil
		})
	}
	add("trip with continuous boarding and alighting on its route", func(h *Heap, c *core) (ents, ents) {
		t := h.coreTrip(c, "t", c.route)
		pudo(h, t, bits(1, 1, 1, 1), bits(1, 1, 1, 1))
		for _, f := range []string{"Continuous_pickup", "Continuous_drop_off"} {
			h.Set(c.route, f, h.e.Const(h.e.Int(0).C, h.fieldType("Route", f)))
		}
		return ents{t}, nil
	})
	return
}

// orphJobs runs orphan removal on every scenario.
func orphJobs(P *Program, prop string, rule func(h *Heap, s *State, kept, gone []*Ent) []string) (jobs []Job) {
	for _, sc := range orphScens() {
		for _, tr := range []bool{false, true} {
			sc, tr := sc, tr
			name := sc.name
			if tr {
				name += ", with transfers"
			}
			key := prop + ":OrphanRemover:" + name
			jobs = append(jobs, Job{key, func(r *Result) {
				var kept, gone []*Ent
				var c *core
				var keys []*V
				ps := passScen{name: name, typ: "OrphanRemover", cfg: func(*Heap) map[string]*V { return nil }, setup: func(h *Heap, w *watch) {
					c = h.core(w)
					kept, gone = sc.set(h, c)
					if tr {
						keys = h.allTransfers(c, kept, gone)
					}
				}}
				runPass(P, r, key, ps, func(h *Heap, s *State, w *watch) (out []string) {
					out = rule(h, s, append([]*Ent{c.agency, c.route, c.shape, c.service, c.trip, c.stops[0], c.stops[1]}, kept...), gone)
					if prop != "C09" {
						return
					}
					ks, _, _ := h.entries(s, "Transfers")
					for _, k := range keys {
						found := false
						for _, x := range ks {
							found = found || x == k
						}
						if !found {
							out = append(out, "a transfer between stops, routes and trips that are all in use is deleted")
						}
					}
					return
				})
			}})
		}
	}
	return
}

// allTransfers adds transfers in every position of the key from and to each of the given entities; it returns the keys of those between used entities.
func (h *Heap) allTransfers(c *core, kept, gone []*Ent) (keys []*V) {
	n := 0
	add := func(key *V) {
		h.Transfer(fmt.Sprintf("tr%d", n), key)
		n++
	}
	full := h.TransferKey(c.stops[0].obj, c.stops[1].obj, c.route.obj, c.route.obj, c.trip.obj, c.trip.obj)
	half := h.TransferKey(c.stops[1].obj, c.stops[0].obj)
	add(full)
	add(half)
	for _, list := range [][]*Ent{gone, kept} {
		for _, x := range list {
			for i := 0; i < 2; i++ {
				a := []*V{c.stops[0].obj, c.stops[1].obj, nil, nil, nil, nil}
				switch x.kind {
				case "Stop":
					a[i] = x.obj
				case "Route":
					a[2+i] = x.obj
				case "Trip":
					a[4+i] = x.obj
				default:
					continue
				}
				add(h.TransferKey(a[0], a[1], a[2:]...))
			}
		}
	}
	return []*V{full, half}
}

func checkC09(P *Program, r *Result, tier string) {
	runJobs(r, orphJobs(P, "C09", func(h *Heap, s *State, kept, gone []*Ent) (out []string) {
		out = h.undetermined(s)
		for _, k := range kept {
			if !h.inFeed(s, k) {
				out = append(out, fmt.Sprintf("%s %s is deleted, although it is in use", k.kind, k.name))
			}
		}
		for _, g := range gone {
			if h.inFeed(s, g) {
				out = append(out, fmt.Sprintf("%s %s is kept, although it is not in use", g.kind, g.name))
			}
		}
		out = append(out, h.unreferenced(s)...)
		return append(out, h.dangling(s)...)
	}))
}

func init() {
	register("C09", 60, "Path-sensitive abstract interpretation of orphan removal on abstract feeds with every kind of use of every kind of entity; at every reachable end every entity in use is still in the feed, no entity without a use is, and no reference leaves the feed.", checkC09)
}
