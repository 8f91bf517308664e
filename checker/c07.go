package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C07, C08, C15: ID minimisation (IDMinimizer.Run) and the restoration of original IDs in main.

// idKinds lists the kinds of entities with IDs and the flag of IDMinimizer that keeps them.
var idKinds = []struct{ kind, keep, opt string }{
	{"Agency", "KeepAgencies", "keep-agency-ids"}, {"Stop", "KeepStations", "keep-station-ids"}, {"Route", "KeepRoutes", "keep-route-ids"},
	{"Trip", "KeepTrips", "keep-trip-ids"}, {"Service", "KeepServices", "keep-service-ids"}, {"FareAttribute", "KeepFares", "keep-fare-ids"},
	{"Shape", "KeepShapes", "keep-shape-ids"}, {"Level", "KeepLevels", "keep-level-ids"}, {"Pathway", "KeepPathways", "keep-pathway-ids"},
}

// idFlds lists the non-standard field tables keyed by an ID of the kind.
var idFlds = map[string][]string{"Agency": {"AgenciesAddFlds"}, "Stop": {"StopsAddFlds"}, "Route": {"RoutesAddFlds"},
	"Trip": {"TripsAddFlds", "StopTimesAddFlds", "FrequenciesAddFlds"}, "FareAttribute": {"FareAttributesAddFlds", "FareRulesAddFlds"},
	"Shape": {"ShapesAddFlds"}, "Level": {"LevelsAddFlds"}, "Pathway": {"PathwaysAddFlds"}}

type fldEntry struct {
	en        *Ent
	fld, col  string
	val, norm *V
}

// norm replaces a map value by its sorted content.
func (h *Heap) norm(s *State, v *V) *V {
	if v == nil || v.IsNil() {
		return h.e.Tuple()
	}
	if v.K == KObj {
		ks, ok := h.e.mapKeys(s, v)
		if !ok {
			return v
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		var r []*V
		for _, k := range ks {
			r = append(r, k, s.mem[h.e.EntryAddr(v, k)])
		}
		return h.e.Tuple(r...)
	}
	return v
}

// addIDFields gives every entity but the last a value in each table keyed by its ID (column "all": every entity).
func (h *Heap) addIDFields(kind string, es []*Ent) (out []fldEntry) {
	for _, f := range idFlds[kind] {
		outer := h.FeedMap(f)
		for _, col := range []string{"all:" + f, "some:" + f} {
			colT := outer.T.Underlying().(*types.Map).Elem()
			inner := h.s.mem[h.e.EntryAddr(outer, h.e.Str(col))]
			if inner == nil {
				inner = h.Map(f+"."+col, colT)
				h.e.mapSet(h.s, outer, h.e.Str(col), inner)
			}
			for i, en := range es {
				if strings.HasPrefix(col, "some") && i == len(es)-1 {
					out = append(out, fldEntry{en, f, col, nil, nil})
					continue
				}
				v := h.e.TokT(f+"."+col+"@"+en.name, types.Typ[types.String])
				if mt, ok := colT.Underlying().(*types.Map).Elem().Underlying().(*types.Map); ok {
					v = h.Map(f+"."+col+"@"+en.name, mt, h.e.TokT("sub0@"+en.name, mt.Key()), v, h.e.TokT("sub1@"+en.name, mt.Key()), h.e.TokT(f+"."+col+"'@"+en.name, types.Typ[types.String]))
				}
				h.e.mapSet(h.s, inner, en.id, v)
				out = append(out, fldEntry{en, f, col, v, h.norm(h.s, v)})
			}
		}
	}
	return
}

// fldProblems compares the non-standard field tables with the entries attached before.
func (h *Heap) fldProblems(s *State, fs []fldEntry) (out []string) {
	for _, f := range fs {
		id := h.Get(s, f.en, idField(f.en.kind))
		v, ok := h.addFieldOf(s, f.fld, f.col, id)
		if !ok {
			out = append(out, fmt.Sprintf("column %s of %s is gone or undetermined", f.col, f.fld))
			continue
		}
		n := h.norm(s, v)
		if f.val == nil {
			if v != nil && !v.IsNil() && n != h.e.Tuple() && n != h.e.Str("") {
				out = append(out, fmt.Sprintf("%s of %s: a value (%s) appears for an entity that had none", f.fld, nm(f.en.obj), nm(v)))
			}
			continue
		}
		if n != f.norm {
			got := "none"
			if v != nil {
				got = nm(v)
			}
			out = append(out, fmt.Sprintf("%s of %s is not found under its ID %s any more (found %s)", f.fld, nm(f.en.obj), nm(id), got))
		}
	}
	return
}

// attributions hangs attributions with IDs on the feed, an agency, a route and a trip.
func (h *Heap) attributions(first map[string]*Ent) []*Ent {
	var all []*Ent
	at := types.NewPointer(h.gtfsType("Attribution"))
	mk := func(where string, n int) *V {
		var vs []*V
		for i := 0; i < n; i++ {
			a := h.Entity("Attribution", fmt.Sprintf("attr%d@%s", i, where), fmt.Sprintf("attr%d@%s", i, where))
			a.id = h.e.TokT("id:"+a.name, strT())
			h.Set(a, "Id", a.id)
			all = append(all, a)
			vs = append(vs, a.obj)
		}
		return h.List("attrs@"+where, at, vs...)
	}
	h.s.mem[h.e.FieldAddr(h.feed, "Attributions")] = mk("feed", 2)
	for _, k := range []string{"Agency", "Route"} {
		if e := first[k]; e != nil {
			h.Set(e, "Attributions", mk(k, 2))
		}
	}
	if e := first["Trip"]; e != nil {
		p := h.e.Obj("attrsp@Trip", types.NewSlice(at))
		h.s.mem[p] = mk("Trip", 2)
		h.Set(e, "Attributions", p)
	}
	return all
}

// plain leaves the reference fields of an entity empty.
func (h *Heap) plain(en *Ent) {
	for _, f := range h.fields(en.kind) {
		switch f.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice:
			h.Set(en, f.Name(), h.e.Nil(f.Type()))
		}
	}
}

type idScen struct {
	name  string
	kinds []int // indices into idKinds
	n     int   // entities of each kind
	base  int
	pre   string
	keep  map[string]bool
	ids   []string // constant IDs; empty: any IDs
	attrs bool
	order int
}

func idScens(tier string) (out []idScen) {
	all := make([]int, len(idKinds))
	for i := range all {
		all[i] = i
	}
	// each kind alone, every iteration order, arbitrary IDs and IDs that clash with the new ones
	for i, k := range idKinds {
		for _, base := range []int{10, 36} {
			for _, pre := range []string{"", "p"} {
				for _, ids := range [][]string{nil, {pre + "3", pre + "1", pre + "2"}, {pre + "2", pre + "3", pre + "4"}} {
					for _, kp := range []bool{false, true} {
						n := "any IDs"
						if ids != nil {
							n = strings.Join(ids, ",")
						}
						sc := idScen{name: fmt.Sprintf("3 of kind %s (%s), base %d, prefix %q", k.kind, n, base, pre), kinds: []int{i}, n: 3, base: base, pre: pre, ids: ids, keep: map[string]bool{}}
						if kp {
							sc.keep[k.keep] = true
							sc.name += ", kept"
						}
						out = append(out, sc)
					}
				}
			}
		}
	}
	for i, k := range idKinds {
		out = append(out, idScen{name: fmt.Sprintf("40 of kind %s, base %d", k.kind, 10+26*(i%2)), kinds: []int{i}, n: 40, base: 10 + 26*(i%2), keep: map[string]bool{}, order: 1})
	}
	add := func(name string, keep map[string]bool) {
		out = append(out, idScen{name: "2 of every kind, " + name, kinds: all, n: 2, base: 10, keep: keep, attrs: true, order: 3})
	}
	add("none kept", map[string]bool{})
	every := map[string]bool{"KeepAttributions": true, "KeepBlocks": true}
	for i, k := range idKinds {
		every[k.keep] = true
		add("only "+k.keep, map[string]bool{k.keep: true})
		x := map[string]bool{"KeepAttributions": true}
		for _, q := range idKinds {
			x[q.keep] = q.keep != k.keep
		}
		add("all but "+k.keep, x)
		for _, q := range idKinds[i+1:] {
			if tier == "thorough" {
				add(k.keep+" and "+q.keep, map[string]bool{k.keep: true, q.keep: true})
			}
		}
	}
	add("only KeepAttributions", map[string]bool{"KeepAttributions": true})
	add("all kept", every)
	x := map[string]bool{}
	for k := range every {
		x[k] = k != "KeepAttributions"
	}
	add("all but KeepAttributions", x)
	return
}

// minimizeIDs runs IDMinimizer on the scenario; done gets every end.
func minimizeIDs(P *Program, r *Result, key string, sc idScen, done func(h *Heap, s *State, ents map[string][]*Ent, attrs []*Ent, fs []fldEntry) []string) {
	h := newHeap(P)
	h.e.h.MaxKnownRange = sc.order
	h.e.maxList = 64
	ents := map[string][]*Ent{}
	first := map[string]*Ent{}
	var fs []fldEntry
	for _, ki := range sc.kinds {
		k := idKinds[ki]
		var es []*Ent
		for i := 0; i < sc.n; i++ {
			name := fmt.Sprintf("%s%d", strings.ToLower(k.kind), i)
			if sc.ids == nil {
				en := h.Entity(k.kind, name, name)
				h.plain(en)
				es = append(es, en)
				continue
			}
			es = append(es, h.entityID(k.kind, name, h.e.Str(sc.ids[i])))
		}
		ents[k.kind] = es
		first[k.kind] = es[0]
		fs = append(fs, h.addIDFields(k.kind, es)...)
	}
	var attrs []*Ent
	if sc.attrs {
		attrs = h.attributions(first)
	}
	cfg := map[string]*V{"Base": h.e.Int(int64(sc.base)), "Prefix": h.e.Str(sc.pre)}
	for k, v := range sc.keep {
		cfg[k] = h.e.Bool(v)
	}
	bad := 0
	n, ok := h.runScenario(r, key, "IDMinimizer", cfg, func(s *State) {
		for _, p := range done(h, s, ents, attrs, fs) {
			bad++
			r.add(key, "", h.e.trailText(s, 14), "IDMinimizer, %s: %s", sc.name, p)
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", sc.name, n, bad, h.e.steps))
}

// entityID adds an entity with a given ID.
func (h *Heap) entityID(kind, name string, id *V) *Ent {
	o := h.e.Obj("ent:"+name, h.gtfsType(kind))
	h.alias["ent:"+name] = name
	en := &Ent{obj: o, name: name, kind: kind, id: id}
	h.ents = append(h.ents, en)
	h.plain(en)
	h.Set(en, idField(kind), id)
	h.e.mapSet(h.s, h.FeedMap(feedMaps[kind]), id, o)
	return en
}

// idProblems lists entities that were lost or whose ID is not unique or differs from their key.
func (h *Heap) idProblems(s *State, ents map[string][]*Ent, attrs []*Ent) (out []string) {
	out = h.keyMismatch(s)
	for _, k := range idKinds {
		n := 0
		for _, en := range ents[k.kind] {
			if !h.inFeed(s, en) {
				out = append(out, fmt.Sprintf("%s is not in the feed any more", nm(en.obj)))
			}
			n++
		}
		if ks, _, ok := h.entries(s, feedMaps[k.kind]); !ok || len(ks) != n {
			out = append(out, fmt.Sprintf("%d entries of kind %s instead of %d", len(ks), k.kind, n))
		}
	}
	seen := map[*V]*Ent{}
	for _, a := range attrs {
		id := h.Get(s, a, "Id")
		if p, dup := seen[id]; dup {
			out = append(out, fmt.Sprintf("%s and %s share the ID %s", nm(a.obj), nm(p.obj), nm(id)))
		}
		seen[id] = a
	}
	return
}

func isMinID(v *V, pre string, base int) bool {
	s, ok := constStr(v)
	if !ok || !strings.HasPrefix(s, pre) {
		return false
	}
	s = s[len(pre):]
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || base == 36 && c >= 'a' && c <= 'z') {
			return false
		}
	}
	return len(s) <= 2
}

func idMinJobs(P *Program, prop, tier string) (jobs []Job) {
	for _, sc := range idScens(tier) {
		sc := sc
		key := prop + ":IDMinimizer:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			minimizeIDs(P, r, key, sc, func(h *Heap, s *State, ents map[string][]*Ent, attrs []*Ent, fs []fldEntry) (out []string) {
				switch prop {
				case "C07":
					return h.idProblems(s, ents, attrs)
				case "C08":
					return h.fldProblems(s, fs)
				case "C15":
					for _, k := range idKinds {
						for _, en := range ents[k.kind] {
							id := h.Get(s, en, idField(k.kind))
							if sc.keep[k.keep] {
								if id != en.id {
									out = append(out, fmt.Sprintf("with %s the ID of %s becomes %s", k.keep, nm(en.obj), nm(id)))
								}
							} else if !isMinID(id, sc.pre, sc.base) {
								out = append(out, fmt.Sprintf("the ID of %s becomes %s, which is not a minimised ID", nm(en.obj), nm(id)))
							}
						}
					}
					for _, a := range attrs {
						id := h.Get(s, a, "Id")
						if sc.keep["KeepAttributions"] {
							if id != a.id {
								out = append(out, fmt.Sprintf("with KeepAttributions the ID of %s becomes %s", nm(a.obj), nm(id)))
							}
						} else if !isMinID(id, sc.pre, sc.base) {
							out = append(out, fmt.Sprintf("the ID of %s becomes %s, which is not a minimised ID", nm(a.obj), nm(id)))
						}
					}
					return
				}
				return nil
			})
		}})
	}
	return
}

// restScen is a restoration of original IDs after several feeds were read.
type restScen struct {
	name  string
	paths int
	pre   string
	ids   [][]string // original IDs of each feed
	keep  map[string]bool
	kinds []int
	// every trip is in a block
	blocks bool
}

func restScens(tier string) (out []restScen) {
	all := make([]int, len(idKinds))
	keepAll := map[string]bool{"keep-attribution-ids": true, "keep-block-ids": true}
	for i, k := range idKinds {
		all[i] = i
		keepAll[k.opt] = true
	}
	for i, k := range idKinds {
		for _, ids := range [][][]string{{{"a", "b"}, {"c"}}, {{"a", "b"}, {"a"}}, {{"1#x"}, {"y"}}, {{"1#x"}, {"x"}}, {{"x", "0#x"}, {"1#x", "x"}}, {{"", "0"}, {"0"}}} {
			for _, pre := range []string{"", "p"} {
				out = append(out, restScen{name: fmt.Sprintf("%s IDs %v, prefix %q", k.kind, ids, pre), paths: 2, pre: pre, ids: ids, keep: map[string]bool{k.opt: true}, kinds: []int{i}})
			}
		}
		out = append(out, restScen{name: fmt.Sprintf("%s IDs of one feed, prefix", k.kind), paths: 1, pre: "p", ids: [][]string{{"a", "pa", "b"}}, keep: map[string]bool{k.opt: true}, kinds: []int{i}})
		out = append(out, restScen{name: fmt.Sprintf("%s IDs of one feed, no prefix", k.kind), paths: 1, pre: "", ids: [][]string{{"a", "0#a", "b"}}, keep: map[string]bool{k.opt: true}, kinds: []int{i}})
		out = append(out, restScen{name: fmt.Sprintf("all kinds, only --%s", k.opt), paths: 2, ids: [][]string{{"a"}, {"b"}}, keep: map[string]bool{k.opt: true}, kinds: all})
		x := map[string]bool{}
		for o := range keepAll {
			x[o] = o != k.opt
		}
		out = append(out, restScen{name: fmt.Sprintf("all kinds, all but --%s", k.opt), paths: 2, ids: [][]string{{"a"}, {"b"}}, keep: x, kinds: all})
	}
	for _, o := range []string{"keep-block-ids", "keep-attribution-ids"} {
		x := map[string]bool{}
		for q := range keepAll {
			x[q] = q != o
		}
		if o == "keep-block-ids" {
			out = append(out, restScen{name: "only --" + o + ", clashing blocks", paths: 2, ids: [][]string{{"x", "1#x", "y"}, {"x"}}, keep: map[string]bool{o: true}, kinds: []int{3, 4}, blocks: true})
		}
		for _, ids := range [][][]string{{{"a", "b"}, {"c"}}, {{"a"}, {"a"}}, {{"1#x"}, {"x"}}} {
			out = append(out, restScen{name: fmt.Sprintf("only --%s %v", o, ids), paths: 2, ids: ids, keep: map[string]bool{o: true}, kinds: all})
		}
		out = append(out, restScen{name: fmt.Sprintf("all but --%s", o), paths: 2, ids: [][]string{{"a"}, {"b"}}, keep: x, kinds: all})
	}
	out = append(out, restScen{name: "nothing kept", paths: 2, ids: [][]string{{"a"}, {"b"}}, keep: map[string]bool{}, kinds: all})
	out = append(out, restScen{name: "three feeds, all kept", paths: 3, ids: [][]string{{"a"}, {"b"}, {"c"}}, keep: keepAll, kinds: all})
	out = append(out, restScen{name: "--keep-ids", paths: 2, ids: [][]string{{"a"}, {"b"}}, keep: map[string]bool{"keep-ids": true, "keep-attribution-ids": true}, kinds: all})
	return
}

// restored is an entity as it was read: prefixed ID and original ID.
type restored struct {
	en         *Ent
	full, orig string
	feed       int
}

// restore interprets main on several feeds whose entities have given IDs.
func restore(P *Program, r *Result, prop, key string, sc restScen, done func(h *Heap, s *State, es []restored, attrs, blocks []restored, fs []fldEntry) []string) {
	m := scen(sc.paths)
	for _, o := range sortedKeys(sc.keep) {
		if sc.keep[o] {
			m.set(o, true)
		}
	}
	if sc.pre != "" {
		m.set("prefix", sc.pre)
	}
	var es, attrs, blocks []restored
	var fs []fldEntry
	var last *Heap
	have := map[string]bool{}
	m.onParse = func(mh *mainHeap, s *State, feed *V, n int) {
		evs := mh.events(s)
		pre, _ := constStr(evs[len(evs)-1].prefix)
		h := &Heap{P: P, e: mh.e, s: s, feed: feed, alias: map[string]string{}, content: map[*V]*V{}}
		if last != nil {
			h.alias = last.alias
		}
		last = h
		mh.e.h.LoadDefault = func(st *State, addr *V, t types.Type) *V {
			root, _ := addrPath(addr)
			if root.K == KObj && strings.HasPrefix(root.Op, "global:"+repoMod) {
				return mh.e.Zero(t)
			}
			return h.loadDefault(st, addr, t)
		}
		add := !have[fmt.Sprint(n)]
		have[fmt.Sprint(n)] = true
		first := map[string]*Ent{}
		for _, ki := range sc.kinds {
			k := idKinds[ki]
			var here []*Ent
			for i, id := range sc.ids[n] {
				name := fmt.Sprintf("%s%d.%d", strings.ToLower(k.kind), n, i)
				en := h.entityID(k.kind, name, h.e.Str(pre+id))
				here = append(here, en)
				if first[k.kind] == nil {
					first[k.kind] = en
				}
				if add {
					es = append(es, restored{en, pre + id, id, n})
				}
				if k.kind == "Trip" && len(sc.kinds) > 1 && (i < 2 || sc.blocks) {
					// two trips may share a block
					bid := sc.ids[n][i/2]
					b := h.e.Obj("block@"+name, types.Typ[types.String])
					s.mem[b] = h.e.Str(pre + bid)
					h.Set(en, "Block_id", b)
					if add {
						blocks = append(blocks, restored{en, pre + bid, bid, n})
					}
				}
			}
			f := h.addIDFields(k.kind, here)
			if add {
				fs = append(fs, f...)
			}
		}
		if len(sc.kinds) > 2 {
			at := types.NewPointer(h.gtfsType("Attribution"))
			for where, w := range []string{"", "Agency", "Route", "Trip"} {
				id := fmt.Sprintf("%d", where)
				if len(sc.ids[n]) > 1 {
					id += fmt.Sprint("f", n)
				}
				a := h.Entity("Attribution", fmt.Sprintf("attr%d.%d", n, where), fmt.Sprintf("attr%d.%d", n, where))
				h.Set(a, "Id", h.e.Str(pre+id))
				if add {
					attrs = append(attrs, restored{a, pre + id, id, n})
				}
				l := h.List(a.name, at, a.obj)
				switch w {
				case "":
					old, _ := h.listElems(s, s.mem[h.e.FieldAddr(feed, "Attributions")])
					s.mem[h.e.FieldAddr(feed, "Attributions")] = h.List(a.name, at, append(append([]*V(nil), old...), a.obj)...)
				case "Trip":
					p := h.e.Obj("attrsp@"+a.name, types.NewSlice(at))
					s.mem[p] = l
					h.Set(first[w], "Attributions", p)
				default:
					h.Set(first[w], "Attributions", l)
				}
			}
		}
	}
	m.order3 = len(sc.kinds) > 1
	bad := 0
	mh := runMain(P, r, key, m)
	n := 0
	for _, end := range mh.ends {
		ws := end.of("write")
		if len(ws) == 0 || last == nil {
			continue
		}
		n++
		h := *last
		h.s, h.feed = end.s, ws[0].feed
		for _, p := range done(&h, end.s, es, attrs, blocks, fs) {
			bad++
			r.add(key, "", mh.e.trailText(end.s, 14), "main with %s, %s: %s", m, sc.name, p)
		}
	}
	if n == 0 && bad == 0 {
		bad++
		r.add(key+":nowrite", "", nil, "main with %s: no path writes the feed", m)
	}
	r.Obligations++
	if bad == 0 {
		r.Discharged++
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", sc.name, n, bad, mh.e.steps))
}

// clash reports whether another entity of the kind may take the original ID.
func clash(es []restored, i int, sameKind func(a, b restored) bool) bool {
	for j, x := range es {
		if j != i && sameKind(es[i], x) && (x.orig == es[i].orig || x.full == es[i].orig) {
			return true
		}
	}
	return false
}

func restJobs(P *Program, prop, tier string) (jobs []Job) {
	for _, sc := range restScens(tier) {
		sc := sc
		key := prop + ":restore:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			restore(P, r, prop, key, sc, func(h *Heap, s *State, es, attrs, blocks []restored, fs []fldEntry) (out []string) {
				switch prop {
				case "C07":
					byKind := map[string][]*Ent{}
					for _, x := range es {
						byKind[x.en.kind] = append(byKind[x.en.kind], x.en)
					}
					var as []*Ent
					for _, x := range attrs {
						as = append(as, x.en)
					}
					out = h.idProblems(s, byKind, as)
					// blocks stay the same partition of the trips
					for i, a := range blocks {
						for _, b := range blocks[:i] {
							va, vb := h.block(s, a.en), h.block(s, b.en)
							if (va == vb) != (a.full == b.full) {
								out = append(out, fmt.Sprintf("trips %s (block %s) and %s (block %s) end up in blocks %s and %s", a.en.name, a.full, b.en.name, b.full, nm(va), nm(vb)))
							}
						}
					}
				case "C08":
					return h.fldProblems(s, fs)
				case "C15":
					check := func(x restored, id *V, kept, cl bool, what string) {
						switch {
						case !kept && id != h.e.Str(x.full):
							out = append(out, fmt.Sprintf("the %s ID %q becomes %s although it is not to be kept", what, x.full, nm(id)))
						case kept && !cl && id != h.e.Str(x.orig):
							out = append(out, fmt.Sprintf("the %s ID %q of feed %d is written as %s", what, x.orig, x.feed, nm(id)))
						case kept && cl && id != h.e.Str(x.orig) && id != h.e.Str(x.full):
							out = append(out, fmt.Sprintf("the %s ID %q of feed %d is written as %s", what, x.orig, x.feed, nm(id)))
						}
					}
					kept := func(o string) bool { return sc.keep[o] || sc.keep["keep-ids"] }
					for i, x := range es {
						for _, k := range idKinds {
							if k.kind == x.en.kind {
								check(x, h.Get(s, x.en, idField(k.kind)), kept(k.opt), clash(es, i, func(a, b restored) bool { return a.en.kind == b.en.kind }), k.kind)
							}
						}
					}
					for i, x := range attrs {
						check(x, h.Get(s, x.en, "Id"), sc.keep["keep-attribution-ids"], clash(attrs, i, func(a, b restored) bool { return true }), "attribution")
					}
					for i, x := range blocks {
						check(x, h.block(s, x.en), kept("keep-block-ids"), clash(blocks, i, func(a, b restored) bool { return a.full != b.full }), "block")
					}
				}
				return
			})
		}})
	}
	return
}

func (h *Heap) block(s *State, t *Ent) *V {
	return h.e.load(s, h.Get(s, t, "Block_id"), types.Typ[types.String])
}

func idJobs(P *Program, r *Result, prop, tier string) []Job {
	a, b := idMinJobs(P, prop, tier), restJobs(P, prop, tier)
	r.Instances["minimisation"], r.Instances["restoration"] = len(a), len(b)
	return append(a, b...)
}

func init() {
	register("C07", 300, "IDMinimizer.Run and the restoration of IDs in main are interpreted on feeds with individual entities of every kind, arbitrary and clashing IDs, every set of kept kinds and every map iteration order, and every pass that creates entities on feeds in which the IDs it would give are taken: at every end no entity is lost, keys equal the identifiers carried, and identifiers (attributions and blocks included) are distinct.", func(P *Program, r *Result, tier string) {
		jobs := append(idJobs(P, r, "C07", tier), newIDJobs(P, "C07", tier)...)
		jobs = append(jobs, clusterJobs(P, "C07", func(_ clusterScenario, p string) bool {
			return strings.Contains(p, "overwritten") || strings.Contains(p, "stored under")
		})...)
		runJobs(r, jobs)
	})
	register("C08", 300, "IDMinimizer.Run and the restoration of IDs in main are interpreted on feeds whose entities carry non-standard field values in every table keyed by an ID: at every end each value is found under the current ID of its entity and no entity gained another one's value.", func(P *Program, r *Result, tier string) { runJobs(r, idJobs(P, r, "C08", tier)) })
	register("C15", 300, "IDMinimizer.Run and the restoration of IDs in main are interpreted with every keep option alone, all but one, and all: kept kinds carry their original IDs at every end (after several feeds: unless the original is taken), all others a minimised ID of the requested base and prefix, or the prefixed one.", func(P *Program, r *Result, tier string) { runJobs(r, idJobs(P, r, "C15", tier)) })
}
