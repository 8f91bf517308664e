package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C21: copies of trips.

// tripExtras gives a trip individual optional attributes, frequencies, attributions and non-standard fields.
func (h *Heap) tripExtras(t *Ent, freqs int) {
	h.ownName(t)
	sh := h.Entity("Shape", "shape@"+t.name, "shape")
	h.Set(t, "Shape", sh.obj)
	h.tripDetails(t, t.name, freqs)
}

// tripDetails gives a trip attributions of its own, and stop time attributes and non-standard values after the given name.
func (h *Heap) tripDetails(t *Ent, who string, freqs int) {
	e := h.e
	at := types.NewPointer(h.gtfsType("Attribution"))
	var as []*V
	for i := 0; i < 3; i++ {
		a := h.Entity("Attribution", fmt.Sprintf("attr%d@%s", i, t.name), fmt.Sprintf("attr%d", i))
		h.plain(a)
		if i < 2 {
			u := e.Obj("url@"+a.name, h.fieldType("Attribution", "Url").Underlying().(*types.Pointer).Elem())
			h.Set(a, "Url", u)
		}
		h.Set(a, "Id", e.Str(a.name))
		h.Set(a, "Organization_name", e.TokT("org@"+a.name, strT()))
		as = append(as, a.obj)
		h.AddFieldTo("AttributionsAddFlds", "acol", a.obj, e.TokT("acol@"+a.name, strT()))
	}
	p := e.Obj("attrsp@"+t.name, types.NewSlice(at))
	h.s.mem[p] = h.List("attrs@"+t.name, at, as...)
	h.Set(t, "Attributions", p)
	for i := 0; i < 2; i++ {
		hs := e.TokT(fmt.Sprintf("sthead%d@%s", i, who), h.fieldType("Trip", "Headsign"))
		h.content[hs] = e.TokT("*"+hs.Op, strT())
		setSt(h, t, i, "headsign", hs)
		setSt(h, t, i, "pudo", e.Const(e.Int(int64(4+i)).C, types.Typ[types.Uint8]))
		setSt(h, t, i, "shape_dist_traveled", e.TokT(fmt.Sprintf("dist%d@%s", i, who), types.Typ[types.Float32]))
	}
	h.AddFieldTo("TripsAddFlds", "tcol", t.id, e.TokT("tcol@"+who, strT()))
	m := h.FeedMap("StopTimesAddFlds").T.Underlying().(*types.Map).Elem().Underlying().(*types.Map).Elem()
	h.AddFieldTo("StopTimesAddFlds", "scol", t.id, h.Map("scol@"+who, m, e.Int(1), e.TokT("scol1@"+who, strT()), e.Int(2), e.TokT("scol2@"+who, strT())))
	if freqs > 0 {
		fs := h.frequencies(t, freqs)
		m = h.FeedMap("FrequenciesAddFlds").T.Underlying().(*types.Map).Elem().Underlying().(*types.Map).Elem()
		h.AddFieldTo("FrequenciesAddFlds", "fcol", t.id, h.Map("fcol@"+t.name, m, fs[0].obj, e.TokT("fcol0@"+t.name, strT())))
	}
}

// ownName gives a trip names of its own.
func (h *Heap) ownName(t *Ent) {
	for _, f := range []string{"Short_name", "Block_id"} {
		v := h.e.TokT(f+"@"+t.name, h.fieldType("Trip", f))
		h.content[v] = h.e.Str(f + " of " + t.name)
		h.Set(t, f, v)
	}
}

// AddFieldTo adds a value to a non-standard field column.
func (h *Heap) AddFieldTo(feedField, column string, k, v *V) {
	m := h.FeedMap(feedField)
	inner := h.s.mem[h.e.EntryAddr(m, h.e.Str(column))]
	if inner == nil {
		inner = h.Map(feedField+"."+column, m.T.Underlying().(*types.Map).Elem())
		h.e.mapSet(h.s, m, h.e.Str(column), inner)
	}
	h.e.mapSet(h.s, inner, k, v)
}

// strContent gives the text behind an optional string.
func (h *Heap) strContent(s *State, p *V) *V {
	if p == nil || p.IsNil() {
		return nil
	}
	return h.e.load(s, p, strT())
}

// tripView is what one trip looks like in a state.
type tripView struct {
	obj     *V
	id      *V
	plain   map[string]string // attributes compared as a whole
	stRoot  *V
	sts     []map[string]*V
	freqs   []*V
	frP     *V
	frRoot  *V
	attrs   []map[string]string
	attrIDs []string
	atRoot  *V
	flds    map[string]string
	unknown []string
}

func (h *Heap) tripView(s *State, o *V) *tripView {
	v := &tripView{obj: o, id: h.getF(s, o, "Trip", "Id"), plain: map[string]string{}, flds: map[string]string{}}
	for _, f := range h.fields("Trip") {
		x := h.getF(s, o, "Trip", f.Name())
		switch f.Name() {
		case "Id", "Service", "StopTimes", "Frequencies", "Attributions", "Translations":
			continue
		}
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok && !isGtfsEntity(pt.Elem()) {
			x = h.strContent(s, x)
		}
		v.plain[f.Name()] = fmt.Sprint(x)
	}
	sl := h.getF(s, o, "Trip", "StopTimes")
	if !sl.IsNil() && sl.K == KSlice {
		v.stRoot = sl.Args[0]
		n, ok := sl.Args[2].intVal()
		off, ok2 := sl.Args[1].intVal()
		if !ok || !ok2 {
			v.unknown = append(v.unknown, "number of stop times")
		}
		st := h.gtfsType("StopTime").Underlying().(*types.Struct)
		for i := int64(0); i < n; i++ {
			m := map[string]*V{}
			for j := 0; j < st.NumFields(); j++ {
				f := st.Field(j)
				m[f.Name()] = h.e.load(s, h.e.FieldAddr(h.e.ElemAddr(sl.Args[0], h.e.Int(off+i)), f.Name()), f.Type())
			}
			v.sts = append(v.sts, m)
		}
	} else if !sl.IsNil() {
		v.unknown = append(v.unknown, "stop times")
	}
	list := func(f string) (p, root *V, els []*V) {
		p = h.getF(s, o, "Trip", f)
		if p.IsNil() {
			return nil, nil, nil
		}
		l := h.e.load(s, p, h.fieldType("Trip", f).Underlying().(*types.Pointer).Elem())
		els, ok := h.listElems(s, l)
		if !ok {
			v.unknown = append(v.unknown, f)
		}
		if l.K == KSlice {
			root = l.Args[0]
		}
		return p, root, els
	}
	v.frP, v.frRoot, v.freqs = list("Frequencies")
	var as []*V
	_, v.atRoot, as = list("Attributions")
	for _, a := range as {
		m := map[string]string{}
		for _, f := range h.fields("Attribution") {
			x := h.getF(s, a, "Attribution", f.Name())
			if f.Name() == "Id" {
				v.attrIDs = append(v.attrIDs, fmt.Sprint(x))
				continue
			}
			m[f.Name()] = fmt.Sprint(x)
		}
		if c, ok := h.addFieldOf(s, "AttributionsAddFlds", "acol", a); ok {
			m["acol"] = fmt.Sprint(c)
		}
		v.attrs = append(v.attrs, m)
	}
	for _, fc := range [][2]string{{"TripsAddFlds", "tcol"}, {"StopTimesAddFlds", "scol"}, {"FrequenciesAddFlds", "fcol"}} {
		x, ok := h.addFieldOf(s, fc[0], fc[1], v.id)
		if ok && x != nil {
			n := h.norm(s, x)
			if n == h.e.Tuple() {
				continue
			}
			v.flds[fc[0]] = fmt.Sprint(n)
		}
	}
	return v
}

// copyProblems compares every trip of the feed with the original it stems from.
func (h *Heap) copyProblems(s *State, orig []*tripView, times, freqs bool) (out []string) {
	_, vs, ok := h.entries(s, "Trips")
	if !ok {
		return []string{"the trips of the feed are undetermined"}
	}
	var views []*tripView
	derived := map[*tripView]int{}
	for _, o := range vs {
		if !isEntObj(o) {
			out = append(out, fmt.Sprintf("a trip of the feed is undetermined (%s)", nm(o)))
			continue
		}
		v := h.tripView(s, o)
		for _, u := range v.unknown {
			out = append(out, fmt.Sprintf("%s of trip %s undetermined", u, nm(v.id)))
		}
		views = append(views, v)
		// the original: the one that agrees in most attributes
		var best *tripView
		bestN := -1
		for _, w := range orig {
			n := 0
			for f, x := range w.plain {
				if v.plain[f] == x {
					n++
				}
			}
			if x, ok := v.flds["TripsAddFlds"]; ok && x == w.flds["TripsAddFlds"] {
				n++
			}
			if fmt.Sprint(v.attrs) == fmt.Sprint(w.attrs) {
				n++
			}
			if n > bestN {
				best, bestN = w, n
			}
		}
		derived[best]++
		who := fmt.Sprintf("trip %s, which stems from %s,", nm(v.id), nm(best.id))
		for _, f := range sortedKeys(best.plain) {
			if v.plain[f] != best.plain[f] {
				out = append(out, fmt.Sprintf("%s has %s %s instead of %s", who, f, v.plain[f], best.plain[f]))
			}
		}
		if len(v.sts) != len(best.sts) {
			out = append(out, fmt.Sprintf("%s has %d stop times instead of %d", who, len(v.sts), len(best.sts)))
		} else {
			for i := range v.sts {
				for _, f := range sortedKeys(v.sts[i]) {
					if !times && (f == "arrival_time" || f == "departure_time") {
						continue
					}
					if v.sts[i][f] != best.sts[i][f] {
						out = append(out, fmt.Sprintf("%s has %s %s at stop time %d instead of %s", who, f, v.sts[i][f], i, best.sts[i][f]))
					}
				}
			}
		}
		if freqs && fmt.Sprint(v.freqs) != fmt.Sprint(best.freqs) {
			same := len(v.freqs) == len(best.freqs)
			for i := range best.freqs {
				for _, f := range h.fields("Frequency") {
					same = same && h.getF(s, v.freqs[i], "Frequency", f.Name()) == h.getF(s, best.freqs[i], "Frequency", f.Name())
				}
			}
			if !same {
				out = append(out, fmt.Sprintf("%s has %d frequencies instead of %d, or other ones", who, len(v.freqs), len(best.freqs)))
			}
		}
		if !freqs { // a trip with frequencies takes over the attributions of the trips it replaces
			own := map[string]int{}
			for _, a := range v.attrs {
				own[fmt.Sprint(a)]++
			}
			for _, a := range best.attrs {
				if own[fmt.Sprint(a)]--; own[fmt.Sprint(a)] < 0 {
					out = append(out, fmt.Sprintf("%s lacks attribution %v", who, a))
				}
			}
			for _, w := range orig {
				if w == best {
					continue
				}
				for _, a := range w.attrs {
					own[fmt.Sprint(a)]--
				}
			}
			for _, a := range sortedKeys(own) {
				if own[a] > 0 {
					out = append(out, fmt.Sprintf("%s has attribution %s, which no original has", who, a))
				}
			}
		} else if fmt.Sprint(v.attrs) != fmt.Sprint(best.attrs) {
			out = append(out, fmt.Sprintf("%s has attributions %v instead of %v", who, v.attrs, best.attrs))
		}
		for _, f := range sortedKeys(best.flds) {
			if f == "FrequenciesAddFlds" && !freqs {
				continue
			}
			if v.flds[f] != best.flds[f] {
				out = append(out, fmt.Sprintf("%s has %q in %s instead of %q", who, v.flds[f], f, best.flds[f]))
			}
		}
		for _, f := range sortedKeys(v.flds) {
			if _, ok := best.flds[f]; !ok {
				out = append(out, fmt.Sprintf("%s has %q in %s, which the original lacks", who, v.flds[f], f))
			}
		}
	}
	for i, v := range views {
		for _, w := range views[:i] {
			who := fmt.Sprintf("trips %s and %s share ", nm(v.id), nm(w.id))
			if v.id == w.id {
				out = append(out, who+"their ID")
			}
			if v.stRoot != nil && v.stRoot == w.stRoot {
				out = append(out, who+"their stop times")
			}
			if v.frP != nil && v.frP == w.frP || v.frRoot != nil && v.frRoot == w.frRoot {
				out = append(out, who+"their list of frequencies")
			}
			if v.atRoot != nil && v.atRoot == w.atRoot {
				out = append(out, who+"their list of attributions")
			}
			for _, a := range v.attrIDs {
				for _, b := range w.attrIDs {
					if a == b && a != `""` {
						out = append(out, who+"the attribution ID "+a)
					}
				}
			}
		}
	}
	for _, w := range orig {
		if freqs && derived[w] == 0 {
			out = append(out, fmt.Sprintf("no trip stems from %s any more", nm(w.id)))
		}
	}
	return
}

type copyScen struct {
	passScen
	times, freqs bool // stop times and frequencies are kept by the pass
}

func copyScens(tier string) (out []copyScen) {
	split := map[string]cal{
		"two exceptions":         {from: 0, to: 6, days: 127, exc: map[int64]bool{2: false, 4: false}},
		"additional days":        {from: 0, to: 3, days: 2, exc: map[int64]bool{9: true, 12: true}},
		"explicit days only":     {noRange: true, exc: map[int64]bool{1: true, 3: true}},
		"one block":              {from: 0, to: 6, days: 62},
		"no active day":          {from: 0, to: 1, days: 3, exc: map[int64]bool{0: false, 1: false}},
		"removed at the borders": {from: 0, to: 4, days: 127, exc: map[int64]bool{0: false, 4: false}},
	}
	for _, cn := range sortedKeys(split) {
		for _, nt := range []int{1, 2} {
			for _, taken := range []bool{false, true} {
				cn, nt, taken := cn, nt, taken
				name := fmt.Sprintf("%s, %d trips", cn, nt)
				if taken {
					name += ", IDs taken"
				}
				setup := func(h *Heap, w *watch) {
					sv := h.service("S", split[cn])
					s0 := h.service("S0", cal{from: 0, to: 6, days: 127})
					for i := 0; i < nt; i++ {
						t := h.trip(w.base, fmt.Sprintf("t%d", i), w.base.route, sv, int64(i)*100)
						h.tripExtras(t, []int{2, 0, 1}[(i+nt-1)%3])
						w.ents[t.name] = t
					}
					x := h.trip(w.base, "x", w.base.route2, s0, 5000)
					h.ownName(x)
					w.ents["x"] = x
					if taken {
						for _, n := range []string{"S_1", "S_3"} {
							h.service(n, cal{from: 0, to: 1, days: 127})
						}
						for _, n := range []string{"t0_1", "t0_2"} {
							t := h.trip(w.base, "y"+n, w.base.route2, s0, 6000)
							h.ownName(t)
							h.e.mapDel(h.s, h.FeedMap("Trips"), t.id)
							t.id = h.e.Str("id" + n)
							h.Set(t, "Id", t.id)
							h.e.mapSet(h.s, h.FeedMap("Trips"), t.id, t.obj)
							w.ents[t.name] = t
						}
					}
					k := h.Entity("Stop", "other", "other")
					h.plain(k)
					st := w.ents["t0"].obj
					h.Transfer("tr1", h.TransferKey(w.base.stops[0].obj, k.obj, nil, nil, st, w.ents["x"].obj))
				}
				out = append(out, copyScen{passScen{name: name, typ: "ServiceCalDatesRem", setup: setup}, true, true})
				if cn == "no active day" {
					continue
				}
				out = append(out, copyScen{passScen{name: name, typ: "ServiceNonOverlapper", setup: setup, cfg: func(h *Heap) map[string]*V {
					var ds []*V
					for _, d := range []string{"Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"} {
						ds = append(ds, h.e.Str(d))
					}
					return map[string]*V{"DayNames": h.List("daynames", strT(), ds...), "YearWeekName": h.e.Str("W")}
				}}, true, true})
			}
		}
	}
	// departures that can be covered by overlapping series, starting from the given seconds
	series := map[string][]int64{
		"one series":               {0, 600, 1200, 1800},
		"two interleaved series":   {0, 600, 1200, 100, 800, 1500},
		"a series and a single":    {0, 600, 1200, 4000},
		"interleaved with singles": {0, 600, 1200, 100, 800, 1500, 5000},
	}
	for _, sn := range sortedKeys(series) {
		for _, taken := range []bool{false, true} {
			sn, taken := sn, taken
			name := sn
			if taken {
				name += ", IDs taken"
			}
			setup := func(h *Heap, w *watch) {
				s0 := h.service("S0", cal{from: 0, to: 6, days: 127})
				for i, at := range series[sn] {
					t := h.trip(w.base, fmt.Sprintf("t%d", i), w.base.route, s0, at)
					h.tripDetails(t, "t", 0)
					w.ents[t.name] = t
				}
				x := h.trip(w.base, "x", w.base.route2, s0, 5000)
				h.ownName(x)
				w.ents["x"] = x
				for i := 0; taken && i < len(series[sn]); i++ {
					n := fmt.Sprintf("t%d_2", i)
					t := h.trip(w.base, "y"+n, w.base.route2, s0, 6000)
					h.ownName(t)
					h.e.mapDel(h.s, h.FeedMap("Trips"), t.id)
					t.id = h.e.Str("id" + n)
					h.Set(t, "Id", t.id)
					h.e.mapSet(h.s, h.FeedMap("Trips"), t.id, t.obj)
					w.ents[t.name] = t
				}
				k := h.Entity("Stop", "other", "other")
				h.plain(k)
				for i := range series[sn] {
					h.Transfer(fmt.Sprintf("tr%d", i), h.TransferKey(w.base.stops[0].obj, k.obj, nil, nil, w.ents[fmt.Sprintf("t%d", i)].obj, w.ents["x"].obj))
				}
			}
			out = append(out, copyScen{passScen{name: name, typ: "FrequencyMinimizer", setup: setup, order: 3, cfg: func(h *Heap) map[string]*V {
				return map[string]*V{"MinHeadway": h.e.Int(600), "MaxHeadway": h.e.Int(700)}
			}}, false, false})
		}
	}
	return
}

func copyJobs(P *Program, prop, tier string, rule func(h *Heap, s *State, w *watch, sc copyScen, orig []*tripView) []string) (jobs []Job) {
	for _, sc := range copyScens(tier) {
		sc := sc
		key := prop + ":" + sc.typ + ":" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			var orig []*tripView
			ps := sc.passScen
			setup := ps.setup
			ps.setup = func(h *Heap, w *watch) {
				setup(h, w)
				_, vs, _ := h.entries(h.s, "Trips")
				for _, o := range vs {
					orig = append(orig, h.tripView(h.s, o))
				}
			}
			if ps.cfg == nil {
				ps.cfg = func(*Heap) map[string]*V { return nil }
			}
			runPass(P, r, key, ps, func(h *Heap, s *State, w *watch) []string { return rule(h, s, w, sc, orig) })
		}})
	}
	return
}

func checkC21(P *Program, r *Result, tier string) {
	runJobs(r, copyJobs(P, "C21", tier, func(h *Heap, s *State, w *watch, sc copyScen, orig []*tripView) []string {
		return h.copyProblems(s, orig, sc.times, sc.freqs)
	}))
}

var _ = strings.Contains

func init() {
	register("C21", 20, "Path-sensitive abstract interpretation of the passes that copy trips, on abstract feeds whose trips carry individual values in every attribute; at every reachable end each trip of the feed is compared with the one it stems from, and no two trips share mutable data.", checkC21)
}
