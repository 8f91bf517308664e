package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Integrity oracles, read off a final abstract state.

var refKinds = []struct{ kind, field, target string }{
	{"Route", "Agency", "Agency"}, {"Trip", "Route", "Route"}, {"Trip", "Service", "Service"}, {"Trip", "Shape", "Shape"},
	{"Stop", "Parent_station", "Stop"}, {"Stop", "Level", "Level"}, {"FareAttribute", "Agency", "Agency"},
	{"Pathway", "From_stop", "Stop"}, {"Pathway", "To_stop", "Stop"},
}

// entries lists the entities stored in a feed map in the final state.
func (h *Heap) entries(s *State, field string) (ks, vs []*V, ok bool) {
	m := s.mem[h.e.FieldAddr(h.feed, field)]
	keys, known := h.e.mapKeys(s, m)
	if !known {
		return nil, nil, false
	}
	for _, k := range keys {
		ks = append(ks, k)
		vs = append(vs, s.mem[h.e.EntryAddr(m, k)])
	}
	return ks, vs, true
}

func (h *Heap) getF(s *State, obj *V, kind, field string) *V {
	return h.e.load(s, h.e.FieldAddr(obj, field), h.fieldType(kind, field))
}

// listElems returns the elements of a slice value, ok=false if not individually known.
func (h *Heap) listElems(s *State, sl *V) ([]*V, bool) {
	if sl == nil || sl.IsNil() {
		return nil, true
	}
	return h.e.elems(s, sl)
}

func (h *Heap) alive(s *State, kind string, v *V) bool {
	_, vs, ok := h.entries(s, feedMaps[kind])
	if !ok {
		return true
	}
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

func isEntObj(v *V) bool { return v != nil && v.K == KObj }

// dangling lists references from entities in the feed to entities that are not in it.
func (h *Heap) dangling(s *State) []string {
	var out []string
	bad := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	for _, rk := range refKinds {
		ks, vs, ok := h.entries(s, feedMaps[rk.kind])
		if !ok {
			continue
		}
		for i, o := range vs {
			if !isEntObj(o) {
				continue
			}
			t := h.getF(s, o, rk.kind, rk.field)
			if isEntObj(t) && !h.alive(s, rk.target, t) {
				bad("%s.%s of %s refers to %s, which is not in the feed", rk.kind, rk.field, nm(ks[i]), nm(t))
			}
		}
	}
	_, vs, ok := h.entries(s, "Trips")
	if ok {
		for _, o := range vs {
			if !isEntObj(o) {
				continue
			}
			sl := h.getF(s, o, "Trip", "StopTimes")
			els, ok := h.stopTimeStops(s, sl)
			if !ok {
				continue
			}
			for _, st := range els {
				if isEntObj(st) && !h.alive(s, "Stop", st) {
					bad("a stop time of trip %s refers to stop %s, which is not in the feed", nm(o), nm(st))
				}
			}
		}
	}
	_, vs, ok = h.entries(s, "FareAttributes")
	if ok {
		for _, o := range vs {
			if !isEntObj(o) {
				continue
			}
			els, ok := h.listElems(s, h.getF(s, o, "FareAttribute", "Rules"))
			if !ok {
				continue
			}
			for _, r := range els {
				if !isEntObj(r) {
					continue
				}
				rt := h.getF(s, r, "FareAttributeRule", "Route")
				if isEntObj(rt) && !h.alive(s, "Route", rt) {
					bad("a fare rule of %s refers to route %s, which is not in the feed", nm(o), nm(rt))
				}
			}
		}
	}
	return append(out, h.danglingTransfers(s)...)
}

// danglingTransfers lists transfers whose key refers to an entity that is not in the feed.
func (h *Heap) danglingTransfers(s *State) []string {
	var out []string
	ks, _, ok := h.entries(s, "Transfers")
	if !ok {
		return nil
	}
	tt := h.gtfsType("TransferKey").Underlying().(*types.Struct)
	for _, k := range ks {
		if k.K != KStruct {
			continue
		}
		for i := 0; i < tt.NumFields(); i++ {
			v := k.Args[i]
			kind := tt.Field(i).Type().(*types.Pointer).Elem().(*types.Named).Obj().Name()
			if isEntObj(v) && !h.alive(s, kind, v) {
				out = append(out, fmt.Sprintf("a transfer refers to %s %s (%s), which is not in the feed", strings.ToLower(kind), nm(v), tt.Field(i).Name()))
			}
		}
	}
	return out
}

// stopTimeStops lists the stops of a stop time slice.
func (h *Heap) stopTimeStops(s *State, sl *V) ([]*V, bool) {
	if sl == nil || sl.IsNil() {
		return nil, true
	}
	if sl.K != KSlice {
		return nil, false
	}
	n, ok := sl.Args[2].intVal()
	off, ok2 := sl.Args[1].intVal()
	if !ok || !ok2 {
		return nil, false
	}
	var out []*V
	for i := int64(0); i < n; i++ {
		el := h.e.ElemAddr(sl.Args[0], h.e.Int(off+i))
		out = append(out, h.e.load(s, h.e.FieldAddr(el, "stop"), types.NewPointer(h.gtfsType("Stop"))))
	}
	return out, true
}

// keyMismatch lists entities stored under a key different from their identifier, and entities stored twice.
func (h *Heap) keyMismatch(s *State) []string {
	var out []string
	for _, kind := range sortedKeys(feedMaps) {
		ks, vs, ok := h.entries(s, feedMaps[kind])
		if !ok {
			continue
		}
		seen := map[*V]*V{}
		for i, o := range vs {
			if !isEntObj(o) {
				continue
			}
			id := h.getF(s, o, kind, idField(kind))
			if id != ks[i] {
				out = append(out, fmt.Sprintf("%s stored under %s carries identifier %s", kind, nm(ks[i]), nm(id)))
			}
			if p, dup := seen[o]; dup {
				out = append(out, fmt.Sprintf("%s is stored under both %s and %s", nm(o), nm(p), nm(ks[i])))
			}
			seen[o] = ks[i]
		}
	}
	return out
}

func nm(v *V) string {
	x := v.String()
	x = strings.TrimPrefix(x, "&")
	for _, p := range []string{"ent:", "$id:", "$"} {
		x = strings.TrimPrefix(x, p)
	}
	if len(x) > 60 {
		x = x[:60]
	}
	return x
}

func (h *Heap) TransferKey(from, to *V, more ...*V) *V {
	t := h.gtfsType("TransferKey")
	n := t.Underlying().(*types.Struct).NumFields()
	args := make([]*V, n)
	for i := range args {
		args[i] = h.e.Nil(t.Underlying().(*types.Struct).Field(i).Type())
	}
	if from != nil {
		args[0] = from
	}
	if to != nil {
		args[1] = to
	}
	for i, v := range more {
		if v != nil {
			args[2+i] = v
		}
	}
	return h.e.Struct(t, args...)
}

// Transfer adds a transfer with an individual value.
func (h *Heap) Transfer(name string, key *V) *V {
	t := h.gtfsType("TransferVal")
	v := h.e.Struct(t, h.e.TokT(name+".type", types.Typ[types.Int]), h.e.TokT(name+".min", types.Typ[types.Int]))
	h.e.mapSet(h.s, h.FeedMap("Transfers"), key, v)
	return v
}

// addFieldOf returns the value of a non-standard field column for a key in the final state.
func (h *Heap) addFieldOf(s *State, feedField, column string, key *V) (*V, bool) {
	m := s.mem[h.e.FieldAddr(h.feed, feedField)]
	inner := s.mem[h.e.EntryAddr(m, h.e.Str(column))]
	if inner == nil {
		return nil, false
	}
	ks, ok := h.e.mapKeys(s, inner)
	if !ok {
		return nil, false
	}
	for _, k := range ks {
		if k == key {
			return s.mem[h.e.EntryAddr(inner, k)], true
		}
	}
	return nil, true
}
