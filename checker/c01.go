package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01 / C02 / C03: duplicate removal.
//
// Scenario = abstract feed with two individual entities a, b of one kind whose attributes are symbolic and
// pairwise equal except for the one attribute under test, plus the individuals that refer to them.
// The whole pass is interpreted; the verdict is read off the abstract feed at every reachable end.

type dupKind struct {
	kind   string
	proc   string
	cfg    func(h *Heap) map[string]*V
	skip   map[string]bool // attributes that need not agree, with the reason given in DESIGN.md
	setup  func(h *Heap, es []*Ent)
	extra  []dupScenario
	decide func(h *Heap, s *State, atom *V) tri
	call   func(h *Heap, c *CallCtx) bool

	constIDs bool // identifiers are constants even for two entities
}

type dupScenario struct {
	name string
	set  func(h *Heap, a, b *Ent)
}

func strT() types.Type  { return types.Typ[types.String] }
func boolT() types.Type { return types.Typ[types.Bool] }

// specialConsts collects the constants that code of the repository compares the given attribute with; the empty value is always included.
func specialConsts(P *Program, kind, field string, t types.Type) []*ssa.Const {
	var out []*ssa.Const
	seen := map[string]bool{}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	add := func(c *ssa.Const) {
		if c.Value != nil && !seen[c.Value.ExactString()] && len(out) < 6 {
			seen[c.Value.ExactString()] = true
			out = append(out, c)
		}
	}
	switch {
	case b.Info()&types.IsString != 0:
		add(ssa.NewConst(constant.MakeString(""), t))
	case b.Info()&types.IsNumeric != 0:
		add(ssa.NewConst(constant.MakeInt64(0), t))
	}
	isField := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.FieldAddr:
				pt, ok := x.X.Type().Underlying().(*types.Pointer)
				if !ok {
					return false
				}
				st, ok := pt.Elem().Underlying().(*types.Struct)
				return ok && st.Field(x.Field).Name() == field && strings.HasSuffix(types.Unalias(pt.Elem()).String(), "/gtfs."+kind)
			case *ssa.Call: // accessor with the name of the attribute
				f := x.Call.StaticCallee()
				return f != nil && f.Signature.Recv() != nil && strings.EqualFold(f.Name(), field) && strings.HasSuffix(strings.TrimPrefix(f.Signature.Recv().Type().String(), "*"), "/gtfs."+kind)
			}
			return false
		}
	}
	for _, fn := range P.allFuncs() {
		for _, bl := range fn.Blocks {
			for _, ins := range bl.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if c, ok := pr[1].(*ssa.Const); ok && isField(pr[0]) {
						add(c)
					}
				}
			}
		}
	}
	return out
}

// fieldScenarios derives "differs only in this attribute" scenarios from the struct type.
// neverNil lists pointer attributes the feed parser always fills.
var neverNil = map[string]bool{"Trip.Headsign": true, "Trip.Route": true, "Trip.Service": true}

func fieldScenarios(P *Program, kind string, skip map[string]bool) []dupScenario {
	var out []dupScenario
	h0 := &Heap{P: P}
	for _, f := range h0.fields(kind) {
		f := f
		if f.Name() == idField(kind) || skip[f.Name()] {
			continue
		}
		add := func(variant string, set func(h *Heap, a, b *Ent)) {
			out = append(out, dupScenario{kind + "." + f.Name() + variant, set})
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				add("", func(h *Heap, a, b *Ent) { h.Set(a, f.Name(), h.e.Bool(true)); h.Set(b, f.Name(), h.e.Bool(false)) })
				add(":swapped", func(h *Heap, a, b *Ent) { h.Set(a, f.Name(), h.e.Bool(false)); h.Set(b, f.Name(), h.e.Bool(true)) })
				continue
			}
			add("", func(h *Heap, a, b *Ent) {
				h.Set(a, f.Name(), h.e.TokT(f.Name()+"@a", f.Type()))
				h.Set(b, f.Name(), h.e.TokT(f.Name()+"@b", f.Type()))
			})
			for _, c := range specialConsts(P, kind, f.Name(), f.Type()) {
				c := c
				add(":"+c.Value.String(), func(h *Heap, a, b *Ent) {
					h.Set(a, f.Name(), h.e.Const(c.Value, f.Type()))
					h.Set(b, f.Name(), h.e.TokT(f.Name()+"@b", f.Type()))
				})
				add(":"+c.Value.String()+" (b)", func(h *Heap, a, b *Ent) {
					h.Set(b, f.Name(), h.e.Const(c.Value, f.Type()))
					h.Set(a, f.Name(), h.e.TokT(f.Name()+"@a", f.Type()))
				})
			}
		case *types.Pointer:
			mk := func(h *Heap, n string) *V {
				t := h.e.TokT(f.Name()+"@"+n, f.Type())
				if !isGtfsEntity(u.Elem()) {
					h.content[t] = h.e.TokT("*"+f.Name()+"@"+n, u.Elem())
				}
				return t
			}
			add("", func(h *Heap, a, b *Ent) { h.Set(a, f.Name(), mk(h, "a")); h.Set(b, f.Name(), mk(h, "b")) })
			if neverNil[kind+"."+f.Name()] {
				continue
			}
			add(":absent", func(h *Heap, a, b *Ent) { h.Set(a, f.Name(), h.e.Nil(f.Type())); h.Set(b, f.Name(), mk(h, "b")) })
			add(":absentb", func(h *Heap, a, b *Ent) { h.Set(a, f.Name(), mk(h, "a")); h.Set(b, f.Name(), h.e.Nil(f.Type())) })
		default:
			add("", func(h *Heap, a, b *Ent) {
				h.Set(a, f.Name(), h.e.TokT(f.Name()+"@a", f.Type()))
				h.Set(b, f.Name(), h.e.TokT(f.Name()+"@b", f.Type()))
			})
		}
	}
	if ff, ok := addFlds[kind]; ok {
		two := func(which string, va, vb bool) func(h *Heap, a, b *Ent) {
			return func(h *Heap, a, b *Ent) {
				for _, col := range []string{"col1", "col2"} {
					x, y := h.e.TokT(col, strT()), h.e.TokT(col, strT())
					if col == which {
						x, y = h.e.TokT(col+"@a", strT()), h.e.TokT(col+"@b", strT())
					}
					var kv []*V
					if va || col != which {
						kv = append(kv, a.id, x)
					}
					if vb || col != which {
						kv = append(kv, b.id, y)
					}
					h.AddField(ff, col, kv...)
				}
			}
		}
		out = append(out, dupScenario{kind + "/additional field 1", two("col1", true, true)},
			dupScenario{kind + "/additional field 2", two("col2", true, true)},
			dupScenario{kind + "/additional field absent", two("col1", false, true)},
			dupScenario{kind + "/additional field absent (b)", two("col2", true, false)})
	}
	return out
}

func isGtfsEntity(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/gtfs")
}

// bigDiff: numeric tokens that a scenario makes different differ by more than any tolerance.
func bigDiff(h *Heap, atom *V) tri {
	if atom.K != KTerm || atom.Op != "lt" {
		return unk
	}
	d := func(v *V) int {
		if v.K == KTerm && v.Op == "arith:-" && v.Args[0].K == KTok && v.Args[1].K == KTok && v.Args[0] != v.Args[1] {
			if v.Args[0].Op < v.Args[1].Op {
				return -1
			}
			return 1
		}
		return 0
	}
	x, y := d(atom.Args[0]), d(atom.Args[1])
	switch {
	case x < 0 && y == 0:
		return yes
	case x > 0 && y == 0:
		return no
	case y < 0 && x == 0:
		return no
	case y > 0 && x == 0:
		return yes
	}
	return unk
}

func dupKinds(P *Program) []*dupKind {
	noAttr := map[string]bool{"Attributions": true, "Translations": true}
	with := func(names ...string) map[string]bool {
		m := map[string]bool{}
		for k := range noAttr {
			m[k] = true
		}
		for _, n := range names {
			m[n] = true
		}
		return m
	}
	nilLists := func(h *Heap, es []*Ent) {
		for _, en := range es {
			for _, f := range h.fields(en.kind) {
				if f.Name() == "Attributions" || f.Name() == "Translations" {
					h.Set(en, f.Name(), h.e.Nil(f.Type()))
				}
			}
		}
	}
	var ks []*dupKind
	ks = append(ks, &dupKind{kind: "Agency", proc: "AgencyDuplicateRemover", skip: noAttr, setup: nilLists})

	// routes, with fare rules
	route := &dupKind{kind: "Route", proc: "RouteDuplicateRemover", skip: noAttr, setup: nilLists}
	ruleT := types.NewPointer((&Heap{P: P}).gtfsType("FareAttributeRule"))
	fare := func(h *Heap, name string, rules ...*V) {
		fa := h.Entity("FareAttribute", name, name)
		h.Set(fa, "Rules", h.List("rules."+name, ruleT, rules...))
	}
	rule := func(h *Heap, r *V, as string, over map[string]string) *V {
		en := h.Entity("FareAttributeRule", fmt.Sprintf("rule%d", len(h.ents)), as)
		h.Set(en, "Route", r)
		for f, t := range over {
			if t == "" {
				h.Set(en, f, h.e.Str(""))
			} else {
				h.Set(en, f, h.e.TokT(t, strT()))
			}
		}
		return en.obj
	}
	for _, f := range (&Heap{P: P}).fields("FareAttributeRule") {
		if f.Name() == "Route" {
			continue
		}
		n := f.Name()
		for _, vv := range [][3]string{{"", n + "@a", n + "@b"}, {":empty", "", n + "@b"}, {":empty (b)", n + "@a", ""}} {
			vv := vv
			over := func(i int) map[string]string { return map[string]string{n: vv[i]} }
			same := map[string]string{n: "same1"}
			route.extra = append(route.extra, dupScenario{"Route/fare rule " + n + vv[0], func(h *Heap, a, b *Ent) {
				fare(h, "fare1", rule(h, a.obj, "r", over(1)), rule(h, b.obj, "r", over(2)))
			}}, dupScenario{"Route/fare rule of second fare " + n + vv[0], func(h *Heap, a, b *Ent) {
				fare(h, "fare1", rule(h, a.obj, "r", nil), rule(h, b.obj, "r", nil))
				fare(h, "fare2", rule(h, b.obj, "r", over(2)), rule(h, a.obj, "r", over(1)))
			}}, dupScenario{"Route/second fare rule " + n + vv[0], func(h *Heap, a, b *Ent) {
				fare(h, "fare1", rule(h, a.obj, "r", same), rule(h, b.obj, "r", same),
					rule(h, a.obj, "r", over(1)), rule(h, b.obj, "r", over(2)))
			}}, dupScenario{"Route/first fare rule, second one equal " + n + vv[0], func(h *Heap, a, b *Ent) {
				fare(h, "fare1", rule(h, b.obj, "r", over(2)), rule(h, b.obj, "r", same), rule(h, a.obj, "r", over(1)), rule(h, a.obj, "r", same))
			}}, dupScenario{"Route/fare rules in another order " + n + vv[0], func(h *Heap, a, b *Ent) {
				fare(h, "fare1", rule(h, a.obj, "r", same), rule(h, a.obj, "r", over(1)), rule(h, b.obj, "r", over(2)), rule(h, b.obj, "r", same))
			}})
		}
	}
	route.extra = append(route.extra, dupScenario{"Route/one more fare rule (a)", func(h *Heap, a, b *Ent) {
		fare(h, "fare1", rule(h, a.obj, "r", nil), rule(h, b.obj, "r", nil), rule(h, a.obj, "r", map[string]string{"Origin_id": "o2"}))
	}}, dupScenario{"Route/one more fare rule (b)", func(h *Heap, a, b *Ent) {
		fare(h, "fare1", rule(h, a.obj, "r", nil), rule(h, b.obj, "r", nil), rule(h, b.obj, "r", map[string]string{"Origin_id": "o2"}))
	}}, dupScenario{"Route/rules in different fares", func(h *Heap, a, b *Ent) {
		fare(h, "fare1", rule(h, a.obj, "r", nil))
		fare(h, "fare2", rule(h, b.obj, "r", nil))
	}})
	other := func(h *Heap) *V { return h.Entity("Route", "other", "other").obj }
	route.extra = append(route.extra,
		dupScenario{"Route/fare rule only for one", func(h *Heap, a, b *Ent) { fare(h, "fare1", rule(h, a.obj, "r", nil)) }},
		dupScenario{"Route/fare rule only for the other", func(h *Heap, a, b *Ent) { fare(h, "fare1", rule(h, b.obj, "r", nil)) }},
		dupScenario{"Route/fare rule only for one, after another route's", func(h *Heap, a, b *Ent) {
			fare(h, "fare1", rule(h, h.e.TokT("otherRoute", nil), "r", nil), rule(h, b.obj, "r", nil))
		}})
	_ = other
	ks = append(ks, route)

	// stops (non-fuzzy): coordinates handled by distance scenarios
	stop := &dupKind{kind: "Stop", proc: "StopDuplicateRemover", skip: with("Lat", "Lon"), setup: nilLists}
	stop.cfg = func(h *Heap) map[string]*V {
		return map[string]*V{"Fuzzy": h.e.Bool(false), "DistThresholdStop": h.e.TokT("maxStop", nil), "DistThresholdStation": h.e.TokT("maxStation", nil)}
	}
	// distance predicates: nearStop / nearStation decide "distance exceeds the threshold"
	stop.decide = func(h *Heap, s *State, atom *V) tri {
		if atom.K != KTerm || atom.Op != "lt" {
			return unk
		}
		isDist := func(v *V) bool {
			return v.mentions(func(x *V) bool { return x.Op == "Lat@a" || x.Op == "Stop.Lat" || x.Op == "Lon@b" || x.Op == "Stop.Lon" })
		}
		a, b := atom.Args[0], atom.Args[1]
		half := func(v *V) *V { // half of a threshold
			if v.K == KTerm && v.Op == "arith:/" && v.Args[0].K == KTok {
				return v.Args[0]
			}
			return v
		}
		a, b = half(a), half(b)
		far := func(t string) tri {
			v, ok := s.marks["far:"+t]
			if !ok {
				return no
			}
			return b3(v.boolVal())
		}
		if _, chain := s.marks["chain"]; chain {
			// only the first and the last stop are far from each other
			ment := func(n string) bool {
				return atom.mentions(func(x *V) bool { return x.Op == "Lat@"+n || x.Op == "Lon@"+n })
			}
			apart := ment("a") && ment("c")
			if a.K == KTok && strings.HasPrefix(a.Op, "max") {
				return b3(apart)
			}
			if b.K == KTok && strings.HasPrefix(b.Op, "max") {
				return b3(!apart)
			}
		}
		if a.K == KTok && strings.HasPrefix(a.Op, "max") && (isDist(b) || isNumConst(b)) {
			return far(a.Op)
		}
		if b.K == KTok && strings.HasPrefix(b.Op, "max") && (isDist(a) || isNumConst(a)) {
			if far(b.Op) == yes {
				return no
			}
			return yes
		}
		return unk
	}
	farScen := func(name string, loc int64, farStop, farStation bool) dupScenario {
		return dupScenario{name, func(h *Heap, a, b *Ent) {
			for _, f := range []string{"Lat", "Lon"} {
				h.Set(a, f, h.e.TokT(f+"@a", nil))
				h.Set(b, f, h.e.TokT(f+"@b", nil))
			}
			h.Set(a, "Location_type", h.e.Int(loc))
			h.Set(b, "Location_type", h.e.Int(loc))
			h.s.marks["far:maxStop"] = h.e.Bool(farStop)
			h.s.marks["far:maxStation"] = h.e.Bool(farStation)
		}}
	}
	stop.extra = []dupScenario{
		farScen("Stop/farther apart than the stop distance", 0, true, false),
		farScen("Stop/farther apart (entrance)", 2, true, false),
		farScen("Stop/farther apart (station)", 1, true, true),
		farScen("Stop/farther apart (boarding area)", 4, true, true),
	}
	ks = append(ks, stop)

	lvl := &dupKind{kind: "Level", proc: "StopDuplicateRemover", skip: noAttr, setup: nilLists}
	lvl.cfg = stop.cfg
	ks = append(ks, lvl)

	// trips
	trip := &dupKind{kind: "Trip", proc: "TripDuplicateRemover", skip: with("Service", "Shape", "StopTimes", "Frequencies")}
	trip.cfg = func(h *Heap) map[string]*V { return map[string]*V{"Fuzzy": h.e.Bool(false)} }
	trip.setup = func(h *Heap, es []*Ent) { tripSetup(h, es, 3) }
	for i := 0; i < 3; i++ {
		i := i
		for _, v := range []string{"stop without station", "station", "stop of a station", "boarding area of a station", "stop of a station and other station"} {
			v := v
			trip.extra = append(trip.extra, dupScenario{fmt.Sprintf("Trip/station of stop time %d (%s)", i, v), func(h *Heap, a, b *Ent) {
				mk := func(n string) *Ent {
					switch v {
					case "station":
						return mkStop(h, "stop@"+n, 1, nil)
					case "stop of a station":
						return mkStop(h, "stop@"+n, 0, mkStop(h, "station@"+n, 1, nil))
					case "boarding area of a station":
						return mkStop(h, "stop@"+n, 4, mkStop(h, "platform@"+n, 0, mkStop(h, "station@"+n, 1, nil)))
					case "stop of a station and other station":
						if n == "a" {
							return mkStop(h, "stop@"+n, 0, mkStop(h, "station@"+n, 1, nil))
						}
						return mkStop(h, "stop@"+n, 1, nil)
					}
					return mkStop(h, "stop@"+n, 0, nil)
				}
				setSt(h, a, i, "stop", mk("a").obj)
				setSt(h, b, i, "stop", mk("b").obj)
			}})
		}
		if i > 0 {
			trip.extra = append(trip.extra, dupScenario{fmt.Sprintf("Trip/arrival at stop time %d", i), func(h *Heap, a, b *Ent) {
				setSt(h, a, i, "arrival_time", h.e.TokT("arr@a", nil))
				setSt(h, b, i, "arrival_time", h.e.TokT("arr@b", nil))
				if i == 2 { // the departure at the last stop is not compared; make it differ as well
					setSt(h, a, i, "departure_time", h.e.TokT("dep@a", nil))
					setSt(h, b, i, "departure_time", h.e.TokT("dep@b", nil))
				}
			}})
		}
		if i < 2 {
			trip.extra = append(trip.extra, dupScenario{fmt.Sprintf("Trip/departure at stop time %d", i), func(h *Heap, a, b *Ent) {
				setSt(h, a, i, "departure_time", h.e.TokT("dep@a", nil))
				setSt(h, b, i, "departure_time", h.e.TokT("dep@b", nil))
				if i == 0 {
					setSt(h, a, i, "arrival_time", h.e.TokT("arr@a", nil))
					setSt(h, b, i, "arrival_time", h.e.TokT("arr@b", nil))
				}
			}})
		}
	}
	trip.extra = append(trip.extra, dupScenario{"Trip/number of stop times", func(h *Heap, a, b *Ent) {
		h.Set(b, "StopTimes", h.OpenList("b.StopTimes", "st", stT(h), 2))
	}}, dupScenario{"Trip/number of stop times (b longer)", func(h *Heap, a, b *Ent) {
		h.Set(a, "StopTimes", h.OpenList("a.StopTimes", "st", stT(h), 2))
	}})
	for _, w := range []string{"a", "b"} {
		w := w
		trip.extra = append(trip.extra, dupScenario{"Trip/frequencies of " + w, func(h *Heap, a, b *Ent) {
			en := map[string]*Ent{"a": a, "b": b}[w]
			fT := types.NewPointer(h.gtfsType("Frequency"))
			p := h.e.Obj("freqs", types.NewSlice(fT))
			h.s.mem[p] = h.List("freqlist", fT, h.Entity("Frequency", "f1", "f1").obj)
			h.Set(en, "Frequencies", p)
		}})
	}
	ks = append(ks, trip)

	// services: compared by active days
	srv := &dupKind{kind: "Service", proc: "ServiceDuplicateRemover", skip: map[string]bool{}}
	srv.setup = func(h *Heap, es []*Ent) {
		for _, s := range []string{"a", "b", "c", "d"} {
			h.s.marks["first@"+s] = h.e.Int(0)
			h.s.marks["last@"+s] = h.e.Int(2)
		}
		for i := 0; i < 3; i++ {
			for _, s := range []string{"a", "b", "c", "d"} {
				h.s.marks[fmt.Sprintf("act@%s:%d", s, i)] = h.e.Bool(i != 1)
			}
		}
	}
	for i := 1; i < 2; i++ {
		i := i
		for _, v := range []bool{true, false} {
			v := v
			srv.extra = append(srv.extra, dupScenario{fmt.Sprintf("Service/activity on a day between first and last (%v)", v), func(h *Heap, a, b *Ent) {
				h.s.marks[fmt.Sprintf("act@a:%d", i)] = h.e.Bool(v)
				h.s.marks[fmt.Sprintf("act@b:%d", i)] = h.e.Bool(!v)
			}})
		}
	}
	srv.extra = append(srv.extra, dupScenario{"Service/last active day", func(h *Heap, a, b *Ent) {
		h.s.marks["last@a"] = h.e.Int(3)
		h.s.marks["act@a:3"] = h.e.Bool(true)
		h.s.marks["act@a:2"] = h.e.Bool(true)
	}}, dupScenario{"Service/first active day", func(h *Heap, a, b *Ent) {
		h.s.marks["first@b"] = h.e.Int(-1)
		h.s.marks["act@b:-1"] = h.e.Bool(true)
	}}, dupScenario{"Service/shifted by some days", func(h *Heap, a, b *Ent) {
		h.s.marks["first@b"] = h.e.Int(7)
		h.s.marks["last@b"] = h.e.Int(9)
		for i := 0; i < 3; i++ {
			h.s.marks[fmt.Sprintf("act@b:%d", i+7)] = h.e.Bool(i != 1)
		}
	}}, dupScenario{"Service/last active day, no exceptions in common", func(h *Heap, a, b *Ent) {
		h.s.marks["last@b"] = h.e.Int(4)
		h.s.marks["act@b:3"] = h.e.Bool(false)
		h.s.marks["act@b:4"] = h.e.Bool(true)
	}})
	ks = append(ks, srv)
	return ks
}

// mkStop adds a stop of the given location type and parent.
func mkStop(h *Heap, name string, loc int64, parent *Ent) *Ent {
	st := h.Entity("Stop", name, name)
	h.Set(st, "Location_type", h.e.Int(loc))
	if parent != nil {
		h.Set(st, "Parent_station", parent.obj)
	} else {
		h.Set(st, "Parent_station", h.e.Nil(h.fieldType("Stop", "Parent_station")))
	}
	return st
}

func stT(h *Heap) types.Type { return h.gtfsType("StopTime") }

func setSt(h *Heap, en *Ent, i int, f string, v *V) {
	sl := h.s.mem[h.e.FieldAddr(en.obj, "StopTimes")]
	h.s.mem[h.e.FieldAddr(h.e.ElemAddr(sl.Args[0], h.e.Int(int64(i))), f)] = v
}

// tripSetup: both trips share service, route, shape; n stop times with equal symbolic content.
func tripSetup(h *Heap, es []*Ent, n int) {
	sv := h.Entity("Service", "sv", "sv")
	h.s.marks["first@sv"], h.s.marks["last@sv"] = h.e.Int(0), h.e.Int(1)
	h.s.marks["act@sv:0"], h.s.marks["act@sv:1"] = h.e.Bool(true), h.e.Bool(true)
	headsign := h.e.TokT("headsign", nil)
	h.content[headsign] = h.e.TokT("*headsign", nil)
	var stops []*V
	for i := 0; i < n; i++ {
		stops = append(stops, mkStop(h, fmt.Sprintf("stop%d", i), int64(i%2), nil).obj)
	}
	for _, en := range es {
		h.Set(en, "Service", sv.obj)
		h.Set(en, "Headsign", headsign)
		h.Set(en, "Frequencies", h.e.Nil(nil))
		h.Set(en, "Attributions", h.e.Nil(nil))
		h.Set(en, "Translations", h.e.Nil(nil))
		h.Set(en, "Shape", h.e.Nil(nil))
		h.Set(en, "StopTimes", h.OpenList(en.name+".StopTimes", "st", stT(h), n))
		for i := 0; i < n; i++ {
			setSt(h, en, i, "sequence", h.e.Int(int64(i+2)))
			setSt(h, en, i, "stop", stops[i])
			setSt(h, en, i, "arrival_time", h.e.TokT(fmt.Sprintf("arr%d", i), nil))
			setSt(h, en, i, "departure_time", h.e.TokT(fmt.Sprintf("dep%d", i), nil))
		}
	}
}

// serviceCalls models the observers of a service by the activity table of the scenario.
func (h *Heap) serviceCalls(c *CallCtx) bool {
	e := h.e
	if c.fn == nil || len(c.args) == 0 || c.args[0].K != KObj || !strings.HasPrefix(c.args[0].Op, "ent:") {
		return false
	}
	nm := strings.TrimPrefix(c.args[0].Op, "ent:")
	s := c.s
	switch {
	case strings.HasSuffix(c.name, "gtfs.Service).GetFirstActiveDate"), strings.HasSuffix(c.name, "gtfs.Service).GetFirstDefinedDate"):
		if v, ok := s.marks["first@"+nm]; ok {
			return c.ret(e.Term("date", nil, v))
		}
	case strings.HasSuffix(c.name, "gtfs.Service).GetLastActiveDate"), strings.HasSuffix(c.name, "gtfs.Service).GetLastDefinedDate"):
		if v, ok := s.marks["last@"+nm]; ok {
			return c.ret(e.Term("date", nil, v))
		}
	case strings.HasSuffix(c.name, "gtfs.Service).IsActiveOn"):
		if d := dayOf(c.args[1]); d != nil {
			if i, ok := d.intVal(); ok {
				if v, ok := s.marks[fmt.Sprintf("act@%s:%d", nm, i)]; ok {
					return c.ret(v)
				}
				if _, ok := s.marks["first@"+nm]; ok {
					return c.ret(e.Bool(false))
				}
			}
		}
	}
	return false
}

func (k *dupKind) build(P *Program, sc *dupScenario) (*Heap, *Ent, *Ent) {
	h, es := k.buildN(P, 2)
	if sc != nil {
		sc.set(h, es[0], es[1])
	}
	return h, es[0], es[1]
}

// buildN makes a heap with n entities that agree in every attribute.
func (k *dupKind) buildN(P *Program, n int) (*Heap, []*Ent) {
	h := newHeap(P)
	var es []*Ent
	for _, nm := range []string{"a", "b", "c", "d", "e", "f", "g"}[:n] {
		h.constIDs = n > 2 || k.constIDs
		es = append(es, h.Entity(k.kind, nm, k.kind))
		h.constIDs = false
	}
	if k.setup != nil {
		k.setup(h, es)
	}
	h.e.h.Decide = func(s *State, atom *V) tri {
		if k.decide != nil {
			if r := k.decide(h, s, atom); r != unk {
				return r
			}
		}
		return bigDiff(h, atom)
	}
	h.e.h.Call = func(c *CallCtx) bool { return (k.call != nil && k.call(h, c)) || h.serviceCalls(c) || h.baseCall(c) }
	return h, es
}

func (k *dupKind) config(h *Heap) map[string]*V {
	if k.cfg != nil {
		return k.cfg(h)
	}
	return nil
}

func checkC01(P *Program, r *Result, tier string) {
	var jobs []Job
	for _, k := range dupKinds(P) {
		scs := k.extra
		if k.kind != "Service" {
			scs = append(fieldScenarios(P, k.kind, k.skip), scs...)
		}
		r.Instances[k.kind] = len(scs)
		for i := range scs {
			sc := &scs[i]
			k := k
			jobs = append(jobs, Job{sc.name, func(r *Result) {
				h, a, b := k.build(P, sc)
				bad := 0
				n, _ := h.runScenario(r, "C01:"+sc.name, k.proc, k.config(h), func(s *State) {
					if !h.inFeed(s, a) || !h.inFeed(s, b) {
						bad++
						r.add("C01:"+sc.name, "", h.e.trailText(s, 14), "%s merges two entities of kind %s although they differ in %s", k.proc, k.kind, sc.name)
						h.e.stop = true
					}
				})
				r.Obligations++
				if bad == 0 {
					r.Discharged++
				}
				r.Detail = append(r.Detail, fmt.Sprintf("%s %s: %d ends, %d merging, %d steps", k.proc, sc.name, n, bad, h.e.steps))
			}})
		}
	}
	runJobs(r, jobs)
}

// concretise gives the attributes of an entity individual values named after grp; references and optional attributes are absent.
func concretise(h *Heap, en *Ent, k *dupKind, grp string) {
	for _, f := range h.fields(k.kind) {
		n := k.kind + "." + f.Name()
		if f.Name() == idField(k.kind) || k.skip[f.Name()] && f.Name() != "Attributions" && f.Name() != "Translations" {
			continue
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean == 0 {
				h.Set(en, f.Name(), h.e.TokT(f.Name()+"@"+grp, f.Type()))
			}
		case *types.Pointer:
			switch {
			case neverNil[n] && isGtfsEntity(u.Elem()):
			case neverNil[n]:
				t := h.e.TokT(f.Name()+"@"+grp, f.Type())
				h.content[t] = h.e.TokT("*"+f.Name()+"@"+grp, u.Elem())
				h.Set(en, f.Name(), t)
			default:
				h.Set(en, f.Name(), h.e.Nil(f.Type()))
			}
		}
	}
}

// eqScenario: entities that agree in every attribute; exactly one of each group must be left.
type eqScenario struct {
	name string
	n    int
	ncpu int64
	set  func(h *Heap, es []*Ent) (more [][]*Ent)
}

func eqScenarios(P *Program, k *dupKind) []eqScenario {
	var out []eqScenario
	for ncpu := int64(1); ncpu <= 3; ncpu++ {
		out = append(out, eqScenario{fmt.Sprintf("%d workers", ncpu), 2, ncpu, nil})
	}
	for n := 3; n <= 4; n++ {
		for ncpu := int64(1); ncpu <= 4; ncpu++ {
			if k.kind == "Trip" && (n > 3 || ncpu > 2) {
				continue
			}
			out = append(out, eqScenario{fmt.Sprintf("%d entities, %d workers", n, ncpu), n, ncpu, nil})
		}
	}
	// two equal entities among others, in the same bucket of the search or in other ones
	for _, pads := range []int{1, 3, 5} {
		for _, ncpu := range []int64{2, 3, 4} {
			for _, bucket := range []string{"same", "other"} {
				if (k.kind == "Trip" || k.kind == "Stop") && (pads > 3 || ncpu > 3) || k.kind == "Trip" && pads == 3 && bucket == "same" || k.kind == "Service" && (bucket == "same" || pads > 1) || k.kind == "Level" && bucket == "same" {
					continue
				}
				pads, bucket := pads, bucket
				out = append(out, eqScenario{fmt.Sprintf("%d different ones in %s bucket, %d workers", pads, bucket, ncpu), pads + 2, ncpu, func(h *Heap, es []*Ent) [][]*Ent {
					var kv []*V
					for i := range es {
						grp := fmt.Sprintf("pad%d", i)
						if i >= pads {
							grp = "same"
						}
						concretise(h, es[i], k, "same")
						if ff := addFlds[k.kind]; ff != "" && bucket == "same" {
							kv = append(kv, es[i].id, h.e.TokT(grp, strT()))
						} else {
							concretise(h, es[i], k, grp)
						}
						if i >= pads {
							continue
						}
						if k.kind == "Service" {
							h.s.marks["last@"+es[i].name] = h.e.Int(int64(3 + i))
							h.s.marks[fmt.Sprintf("act@%s:%d", es[i].name, 3+i)] = h.e.Bool(true)
						}
					}
					if len(kv) > 0 {
						h.AddField(addFlds[k.kind], "col", kv...)
					}
					g := [][]*Ent{es[pads:]}
					for i := 0; i < pads; i++ {
						g = append(g, es[i:i+1])
					}
					return g
				}})
			}
		}
	}
	if k.kind == "Service" {
		return out
	}
	// attributes absent or with a special value in all of them
	for _, f := range (&Heap{P: P}).fields(k.kind) {
		f := f
		if f.Name() == idField(k.kind) || k.skip[f.Name()] && f.Name() != "Shape" {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Pointer:
			if !neverNil[k.kind+"."+f.Name()] {
				out = append(out, eqScenario{"without " + f.Name(), 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
					for _, en := range es {
						h.Set(en, f.Name(), h.e.Nil(f.Type()))
					}
					return nil
				}})
			}
			if !isGtfsEntity(f.Type().Underlying().(*types.Pointer).Elem()) {
				out = append(out, eqScenario{"equal content of " + f.Name(), 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
					c := h.e.TokT("*"+f.Name(), f.Type().Underlying().(*types.Pointer).Elem())
					for _, en := range es {
						t := h.e.TokT(f.Name()+"@"+en.name, f.Type())
						h.content[t] = c
						h.Set(en, f.Name(), t)
					}
					return nil
				}})
			}
		case *types.Basic:
			for _, c := range specialConsts(P, k.kind, f.Name(), f.Type()) {
				c := c
				out = append(out, eqScenario{f.Name() + " = " + c.Value.String(), 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
					for _, en := range es {
						h.Set(en, f.Name(), h.e.Const(c.Value, f.Type()))
					}
					return nil
				}})
			}
		}
	}
	if ff, ok := addFlds[k.kind]; ok {
		for _, v := range []string{"present", "absent", "empty column"} {
			v := v
			out = append(out, eqScenario{"additional fields " + v, 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
				for i, col := range []string{"col1", "col2"} {
					var kv []*V
					if v == "present" || v == "absent" && i == 1 {
						x := h.e.TokT(col, strT())
						for _, en := range es {
							kv = append(kv, en.id, x)
						}
					}
					h.AddField(ff, col, kv...)
				}
				return nil
			}})
		}
	}
	if k.kind == "Route" {
		ruleT := types.NewPointer((&Heap{P: P}).gtfsType("FareAttributeRule"))
		for _, ord := range [][]int{{0, 1}, {1, 0}, {0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 2, 1}, {3, 2, 0, 1}} {
			for _, fares := range []int{1, 2} {
				ord, fares := ord, fares
				out = append(out, eqScenario{fmt.Sprintf("equal fare rules %v in %d fares", ord, fares), 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
					for fi := 0; fi < fares; fi++ {
						var rs []*V
						for _, i := range ord { // rules 0,2 of a; 1,3 of b; 0=1 and 2=3 in content
							rl := h.Entity("FareAttributeRule", fmt.Sprintf("rule%d.%d", fi, i), fmt.Sprintf("rule%d.%d", fi, i/2))
							h.Set(rl, "Route", es[i%2].obj)
							for _, f := range h.fields("FareAttributeRule") {
								if f.Name() != "Route" {
									h.Set(rl, f.Name(), h.e.TokT(fmt.Sprintf("%s%d", f.Name(), i/2), strT()))
								}
							}
							rs = append(rs, rl.obj)
						}
						fa := h.Entity("FareAttribute", fmt.Sprintf("fare%d", fi), fmt.Sprintf("fare%d", fi))
						h.Set(fa, "Rules", h.List(fmt.Sprintf("rules%d", fi), ruleT, rs...))
					}
					return nil
				}})
			}
		}
	}
	if k.kind == "Stop" {
		for _, loc := range []int64{0, 1, 2, 3, 4} {
			loc := loc
			out = append(out, eqScenario{fmt.Sprintf("location type %d", loc), 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
				for _, en := range es {
					h.Set(en, "Location_type", h.e.Int(loc))
				}
				return nil
			}})
		}
		out = append(out, eqScenario{"equal stops of equal stations", 2, 2, func(h *Heap, es []*Ent) [][]*Ent {
			var ch []*Ent
			fix := func(en *Ent) {
				for _, f := range h.fields("Stop") {
					switch f.Type().Underlying().(type) {
					case *types.Basic:
						if f.Name() != "Id" && f.Name() != "Lat" && f.Name() != "Lon" {
							h.Set(en, f.Name(), h.e.TokT(f.Name(), f.Type()))
						}
					case *types.Pointer, *types.Slice:
						h.Set(en, f.Name(), h.e.Nil(f.Type()))
					}
				}
			}
			for i, en := range es {
				fix(en)
				h.e.mapDel(h.s, h.FeedMap("Stops"), en.id)
				en.id = h.e.Str("id" + en.name)
				h.Set(en, "Id", en.id)
				h.e.mapSet(h.s, h.FeedMap("Stops"), en.id, en.obj)
				h.Set(en, "Location_type", h.e.Int(1))
				h.Set(en, "Parent_station", h.e.Nil(nil))
				h.constIDs = true
				c := h.Entity("Stop", fmt.Sprintf("c%d", i), "Stop")
				h.constIDs = false
				fix(c)
				h.Set(c, "Location_type", h.e.Int(0))
				h.Set(c, "Parent_station", en.obj)
				ch = append(ch, c)
			}
			return [][]*Ent{es, ch}
		}})
	}
	return out
}

func checkC02(P *Program, r *Result, tier string) {
	var jobs []Job
	for _, k := range dupKinds(P) {
		for _, sc := range eqScenarios(P, k) {
			k, sc := k, sc
			name := fmt.Sprintf("C02:%s equal, %s", k.kind, sc.name)
			jobs = append(jobs, Job{name, func(r *Result) {
				h, es := k.buildN(P, sc.n)
				var groups [][]*Ent
				if sc.n > 2 {
					h.e.h.MaxKnownRange = 2
				}
				if sc.set != nil {
					groups = sc.set(h, es)
				}
				if len(groups) == 0 {
					groups = [][]*Ent{es}
				}
				if len(groups) > 1 {
					h.e.injectiveHash = true
					h.e.h.MaxKnownRange = 2
				}
				if strings.Contains(sc.name, "different ones") {
					h.e.h.MaxKnownRange = 3
				}
				h.ncpu = sc.ncpu
				bad := 0
				n, _ := h.runScenario(r, name, k.proc, k.config(h), func(s *State) {
					for _, g := range groups {
						left := 0
						for _, en := range g {
							if h.inFeed(s, en) {
								left++
							}
						}
						if left > 1 {
							bad++
							r.add(name, "", h.e.trailText(s, 14), "%s leaves %d of %d identical entities of kind %s unmerged (%s)", k.proc, left, len(g), k.kind, sc.name)
							h.e.stop = true
						} else if left == 0 {
							bad++
							r.add(name+":all", "", h.e.trailText(s, 14), "%s removes all of %d identical entities of kind %s (%s)", k.proc, len(g), k.kind, sc.name)
							h.e.stop = true
						}
					}
				})
				r.Obligations++
				if bad == 0 {
					r.Discharged++
				}
				r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d not merged, %d steps", name, n, bad, h.e.steps))
			}})
		}
	}
	jobs = append(jobs, toleratedJobs(P)...)
	runJobs(r, jobs)
}

func init() {
	register("C01", 180, "Path-sensitive abstract interpretation of every duplicate-removal pass on an abstract feed with two individual entities that agree in all symbolic attributes except one; at every reachable end of Run both entities must still be in the feed.", checkC01)
	register("C02", 100, "Path-sensitive abstract interpretation of every duplicate-removal pass on an abstract feed with two entities equal in all attributes, for 1 to 4 workers, absent and special values, and fare rules in any order; at every reachable end of Run exactly one of them must be left.", checkC02)
}
