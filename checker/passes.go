package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Passes that adapt services and trips, on small abstract feeds: C16, C21 and parts of C04 and C07.

// cal is the calendar of a service: first and last day, weekday bits (day n is weekday n mod 7) and exceptions.
type cal struct {
	from, to int64
	days     int64
	exc      map[int64]bool
	noRange  bool
}

// service adds a service with the given calendar.
func (h *Heap) service(name string, c cal) *Ent {
	e := h.e
	en := h.entityID("Service", name, e.Str(name))
	dT := h.gtfsType("Date")
	h.Set(en, "daymap", e.Const(e.Int(c.days).C, types.Typ[types.Uint8]))
	h.Set(en, "start_date", e.Zero(dT))
	h.Set(en, "end_date", e.Zero(dT))
	if !c.noRange {
		h.Set(en, "start_date", e.Date(c.from))
		h.Set(en, "end_date", e.Date(c.to))
	}
	var kv []*V
	var ds []int64
	for d := range c.exc {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	for _, d := range ds {
		kv = append(kv, e.Date(d), e.Bool(c.exc[d]))
	}
	h.Set(en, "exceptions", h.Map("exceptions."+name, h.fieldType("Service", "exceptions"), kv...))
	return en
}

// calText renders the calendar of a service object in a state; it changes exactly if the calendar is written.
func (h *Heap) calText(s *State, o *V) string {
	var b strings.Builder
	for _, f := range []string{"daymap", "start_date", "end_date"} {
		fmt.Fprintf(&b, "%s=%s ", f, h.getF(s, o, "Service", f))
	}
	m := h.getF(s, o, "Service", "exceptions")
	ks, ok := h.e.mapKeys(s, m)
	if !ok {
		return b.String() + "exceptions unknown: " + m.String()
	}
	var ex []string
	for _, k := range ks {
		ex = append(ex, fmt.Sprintf("%s:%s", k, s.mem[h.e.EntryAddr(m, k)]))
	}
	sort.Strings(ex)
	return b.String() + strings.Join(ex, ",")
}

// activeDays evaluates a calendar with known content for the days lo..hi.
func (h *Heap) activeDays(s *State, o *V, lo, hi int64) (string, bool) {
	dm, ok := h.getF(s, o, "Service", "daymap").intVal()
	if !ok {
		return "", false
	}
	day := func(f string) (int64, bool) {
		v := h.getF(s, o, "Service", f)
		if d := dayOf(v); d != nil {
			return d.intVal()
		}
		return 0, false
	}
	from, ok1 := day("start_date")
	to, ok2 := day("end_date")
	m := h.getF(s, o, "Service", "exceptions")
	ks, known := h.e.mapKeys(s, m)
	if !known {
		return "", false
	}
	ex := map[int64]bool{}
	for _, k := range ks {
		d := dayOf(k)
		if d == nil {
			return "", false
		}
		i, ok := d.intVal()
		v := s.mem[h.e.EntryAddr(m, k)]
		if !ok || !v.isBool() {
			return "", false
		}
		ex[i] = v.boolVal()
	}
	var out []string
	for d := lo; d <= hi; d++ {
		act := ok1 && ok2 && d >= from && d <= to && dm&(1<<uint(((d%7)+7)%7)) != 0
		if v, ok := ex[d]; ok {
			act = v
		}
		if act {
			out = append(out, fmt.Sprint(d))
		}
	}
	return strings.Join(out, ","), true
}

// tripBase builds n+1 shared attributes for trips: one route, agency, k stops.
type tripBase struct {
	route, route2 *Ent
	stops         []*Ent
	headsign      *V
}

func (h *Heap) tripBase() *tripBase {
	b := &tripBase{}
	mk := func(n string) *Ent {
		r := h.Entity("Route", n, n)
		h.plain(r)
		h.Set(r, "Type", h.e.Int(3))
		return r
	}
	b.route, b.route2 = mk("r1"), mk("r2")
	for i := 0; i < 2; i++ {
		st := mkStop(h, fmt.Sprintf("stop%d", i), 0, nil)
		h.plain(st)
		b.stops = append(b.stops, st)
	}
	b.headsign = h.e.TokT("headsign", nil)
	h.content[b.headsign] = h.e.Str("head")
	return b
}

// gtfsTime is a known time of day.
func (h *Heap) gtfsTime(sec int64) *V {
	i8 := func(n int64) *V { return h.e.Const(h.e.Int(n).C, types.Typ[types.Int8]) }
	return h.e.Struct(h.gtfsType("Time"), i8(sec/3600), i8(sec/60%60), i8(sec%60))
}

// trip adds a trip on the given route and service, with two stop times from start on.
func (h *Heap) trip(b *tripBase, name string, route, service *Ent, start int64) *Ent {
	t := h.Entity("Trip", name, "trip")
	h.plain(t)
	for _, f := range h.fields("Trip") {
		if bt, ok := f.Type().Underlying().(*types.Basic); ok && f.Name() != "Id" && bt.Info()&types.IsBoolean == 0 {
			h.Set(t, f.Name(), h.e.TokT("trip."+f.Name(), f.Type()))
		}
	}
	h.Set(t, "Route", route.obj)
	h.Set(t, "Service", service.obj)
	h.Set(t, "Headsign", b.headsign)
	h.Set(t, "StopTimes", h.OpenList(name+".StopTimes", "st", stT(h), len(b.stops)))
	for i, st := range b.stops {
		setSt(h, t, i, "sequence", h.e.Int(int64(i+1)))
		setSt(h, t, i, "stop", st.obj)
		setSt(h, t, i, "arrival_time", h.gtfsTime(start+int64(i)*600))
		setSt(h, t, i, "departure_time", h.gtfsTime(start+int64(i)*600))
	}
	return t
}

// refProblems lists services and routes used by trips of the feed that are not in the feed.
func (h *Heap) tripRefProblems(s *State) (out []string) {
	_, vs, ok := h.entries(s, "Trips")
	if !ok {
		return []string{"the trips of the feed are undetermined"}
	}
	for _, t := range vs {
		if !isEntObj(t) {
			continue
		}
		sv := h.getF(s, t, "Trip", "Service")
		if !isEntObj(sv) {
			out = append(out, fmt.Sprintf("the service of trip %s is undetermined (%s)", nm(t), nm(sv)))
		} else if !h.alive(s, "Service", sv) {
			out = append(out, fmt.Sprintf("trip %s uses service %s, which is not in the feed", nm(t), nm(sv)))
		}
	}
	return
}

type passScen struct {
	name  string
	typ   string
	cfg   func(h *Heap) map[string]*V
	setup func(h *Heap, w *watch)
	order int
}

// watch is what a scenario asks to be checked at the end.
type watch struct {
	keepCal []*Ent // trips whose service must not be changed
	days    map[*Ent]string
	lo, hi  int64
	base    *tripBase
	ents    map[string]*Ent
	copies  []*Ent // trips copies of which are compared
	flds    map[string]string
	before  map[string]*V // keys of the entities of the initial feed
	groups  map[int64]string
	start   map[*Ent]int64
}

func groupKeys(m map[int64]string) (ks []int64) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return
}

func imax64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// frequencies hangs n frequencies on a trip.
func (h *Heap) frequencies(tr *Ent, n int) []*Ent {
	fT := types.NewPointer(h.gtfsType("Frequency"))
	p := h.e.Obj("freqs@"+tr.name, types.NewSlice(fT))
	var fs []*V
	var es []*Ent
	for i := 0; i < n; i++ {
		f := h.Entity("Frequency", fmt.Sprintf("f%d@%s", i, tr.name), "f")
		es = append(es, f)
		fs = append(fs, f.obj)
	}
	h.s.mem[p] = h.List("freqlist@"+tr.name, fT, fs...)
	h.Set(tr, "Frequencies", p)
	return es
}

func (w *watch) bystander(t ...*Ent) { w.keepCal = append(w.keepCal, t...) }

// runPass interprets one pass on one scenario and reports the problems done finds at each end.
func runPass(P *Program, r *Result, key string, sc passScen, done func(h *Heap, s *State, w *watch) []string) {
	h := newHeap(P)
	h.e.injectiveHash = true
	h.e.maxGen = 40
	h.e.h.MaxKnownRange = 3
	if sc.order != 0 {
		h.e.h.MaxKnownRange = sc.order
	}
	h.constIDs = true
	w := &watch{ents: map[string]*Ent{}, start: map[*Ent]int64{}, lo: -10, hi: 60}
	w.base = h.tripBase()
	sc.setup(h, w)
	init := map[*Ent]string{}
	for _, t := range w.keepCal {
		init[t] = h.calText(h.s, h.Get(h.s, t, "Service"))
	}
	svc := map[*Ent]*V{}
	for _, t := range w.keepCal {
		svc[t] = h.Get(h.s, t, "Service")
	}
	bad := 0
	n, ok := h.runScenario(r, key, sc.typ, sc.cfg(h), func(s *State) {
		var probs []string
		for _, t := range w.keepCal {
			if !h.inFeed(s, t) {
				continue
			}
			sv := h.Get(s, t, "Service")
			if !isEntObj(sv) {
				probs = append(probs, fmt.Sprintf("the service of trip %s is undetermined", t.name))
				continue
			}
			if got := h.calText(s, sv); got != init[t] {
				probs = append(probs, fmt.Sprintf("the calendar of trip %s, which is not adapted, changes from %s to %s", t.name, init[t], got))
			}
		}
		for _, st := range groupKeys(w.groups) {
			days := map[string]bool{}
			for tr, at := range w.start {
				if at != st || !h.inFeed(s, tr) {
					continue
				}
				ds, ok := h.activeDays(s, h.Get(s, tr, "Service"), w.lo, w.hi)
				if !ok {
					probs = append(probs, fmt.Sprintf("the days of trip %s are undetermined", tr.name))
				}
				for _, d := range strings.Split(ds, ",") {
					days[d] = true
				}
			}
			for _, d := range strings.Split(w.groups[st], ",") {
				if !days[d] {
					probs = append(probs, fmt.Sprintf("no trip starting at %d runs on day %s any more", st, d))
				}
				delete(days, d)
			}
			for _, d := range sortedKeys(days) {
				probs = append(probs, fmt.Sprintf("a trip starting at %d runs on day %s", st, d))
			}
		}
		probs = append(probs, done(h, s, w)...)
		for _, p := range probs {
			bad++
			r.add(key, "", h.e.trailText(s, 16), "%s, %s: %s", sc.typ, sc.name, p)
			h.e.stop = true
		}
	})
	_ = svc
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
}

// c16Scens: pairs of mergeable trips whose services are shared with other trips.
func c16Scens(tier string) (out []passScen) {
	week := func(i int64) cal { return cal{from: 7 * i, to: 7*i + 1, days: 3} }
	type grp struct {
		svc   map[string]cal
		trips []string // name:service:start:route
		keep  []string
		days  map[int64]string // days on which the trips starting at a time run, all together
	}
	add := func(name string, g grp) {
		for _, m := range []struct {
			n          string
			dist       int64
			aggr, fuzz bool
		}{{"adjacent", 7, false, false}, {"aggressive", 1, true, false}, {"fuzzy", 7, false, true}} {
			m := m
			out = append(out, passScen{name: name + ", " + m.n, typ: "TripDuplicateRemover", cfg: func(h *Heap) map[string]*V {
				return map[string]*V{"Fuzzy": h.e.Bool(m.fuzz), "Aggressive": h.e.Bool(m.aggr), "MaxDayDist": h.e.Int(m.dist)}
			}, setup: func(h *Heap, w *watch) {
				for _, sn := range sortedKeys(g.svc) {
					w.ents[sn] = h.service(sn, g.svc[sn])
				}
				for _, tn := range g.trips {
					p := strings.Split(tn, ":")
					rt := w.base.route
					if len(p) > 3 && p[3] == "2" {
						rt = w.base.route2
					}
					var st int64
					fmt.Sscan(p[2], &st)
					tr := h.trip(w.base, p[0], rt, w.ents[p[1]], imax64(st, 0))
					w.ents[p[0]] = tr
					w.start[tr] = st
					if st < 0 {
						h.Set(tr, "StopTimes", h.e.Nil(h.fieldType("Trip", "StopTimes")))
					}
					if len(p) > 3 && p[3] == "f" {
						h.frequencies(tr, 1)
					}
				}
				w.groups = g.days
				for _, k := range g.keep {
					w.bystander(w.ents[k])
				}
			}})
		}
	}
	adj := map[string]cal{"S1": week(0), "S2": week(1)}
	add("two weeks, first one shared", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2"}, []string{"x"}, nil})
	add("two weeks, second one shared", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S2:7200:2"}, []string{"x"}, nil})
	add("two weeks, both shared", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000"}, []string{"x", "y"}, nil})
	add("two weeks, shared twice", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S1:10000:2"}, []string{"x", "y"}, nil})
	add("two weeks, duplicate on the first one", grp{adj, []string{"a:S1:0", "a2:S1:0", "b:S2:0", "x:S1:7200"}, []string{"x"}, nil})
	ov := map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 5, to: 15, days: 127}}
	four := map[string]cal{"S1": week(0), "S2": week(1), "S3": week(2), "S4": {from: 21, to: 22, days: 3, exc: map[int64]bool{24: true}}}
	four["S1"] = cal{from: 0, to: 1, days: 3, exc: map[int64]bool{3: true}}
	add("four weeks, all shared", grp{four, []string{"a:S1:0", "b:S2:0", "c:S3:0", "d:S4:0", "x:S1:7200:2", "y:S2:9000:2", "z:S3:10000:2", "v:S4:11000:2"}, []string{"x", "y", "z", "v"}, map[int64]string{0: "0,1,3,7,8,14,15,21,22,24"}})
	fov := map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 5, to: 15, days: 127}, "S3": {from: 12, to: 19, days: 127}}
	add("three overlapping, all shared", grp{fov, []string{"a:S1:0", "b:S2:0", "c:S3:0", "x:S1:7200:2", "y:S2:9000:2", "z:S3:10000:2"}, []string{"x", "y", "z"}, nil})
	two := map[string]cal{"S1": week(0), "S2": week(1)}
	add("two weeks, two groups", grp{two, []string{"a:S1:0", "b:S2:0", "c:S1:7200", "d:S2:7200"}, nil, map[int64]string{0: "0,1,7,8", 7200: "0,1,7,8"}})
	add("two weeks, two groups, both shared", grp{two, []string{"a:S1:0", "b:S2:0", "c:S1:7200", "d:S2:7200", "x:S1:10000:2"}, []string{"x"}, map[int64]string{0: "0,1,7,8", 7200: "0,1,7,8"}})
	add("two weeks, shared with a trip without stops", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S1:-1:2", "y:S2:-1:2"}, []string{"x", "y"}, nil})
	add("two weeks, shared with a trip with frequencies", grp{adj, []string{"a:S1:0", "b:S2:0", "x:S1:0:f", "y:S2:0:f"}, []string{"x", "y"}, nil})
	add("two weeks, new ID taken", grp{map[string]cal{"S1": week(0), "S2": week(1), "merged0": week(4)}, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000", "z:merged0:12000:2"}, []string{"x", "y", "z"}, nil})
	add("overlapping, new ID taken", grp{map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 5, to: 15, days: 127}, "merged0": {from: 20, to: 21, days: 127}}, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000", "z:merged0:12000:2"}, []string{"x", "y", "z"}, nil})
	in := map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 2, to: 3, days: 127}, "S3": {from: 4, to: 5, days: 127}}
	add("contained trip of a shared service", grp{in, []string{"a:S1:0", "c:S2:0", "p:S2:7200", "q:S3:7200", "x:S2:10000:2"}, []string{"x"}, nil})
	for _, full := range []bool{false, true} {
		sv := map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 2, to: 3, days: 127}, "S3": {from: 9, to: 15, days: 127}, "S4": {from: 11, to: 12, days: 127}}
		trips, n := []string{"a:S1:0", "c:S2:0", "b:S3:0", "x:S1:7200:2", "y:S3:9000:2"}, "contained trip, then adjacent ones"
		if full {
			trips, n = append(trips, "d:S4:0"), "contained trips, then adjacent ones"
		}
		add(n, grp{sv, trips, []string{"x", "y"}, map[int64]string{0: "0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15"}})
		ov := map[string]cal{"S1": {from: 0, to: 8, days: 127}, "S2": {from: 2, to: 3, days: 127}, "S3": {from: 7, to: 15, days: 127}, "S4": {from: 11, to: 12, days: 127}}
		add(n+", overlapping", grp{ov, trips, []string{"x", "y"}, map[int64]string{0: "0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15"}})
	}
	ex := map[string]cal{"S1": {from: 0, to: 4, days: 127, exc: map[int64]bool{2: false}}, "S2": {from: 4, to: 8, days: 127, exc: map[int64]bool{6: false}}}
	add("overlapping with exceptions, both shared", grp{ex, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000"}, []string{"x", "y"}, nil})
	only := map[string]cal{"S1": {noRange: true, exc: map[int64]bool{0: true, 3: true}}, "S2": {noRange: true, exc: map[int64]bool{3: true, 5: true}}}
	add("overlapping explicit dates, both shared", grp{only, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000"}, []string{"x", "y"}, nil})
	add("overlapping, first one shared", grp{ov, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2"}, []string{"x"}, nil})
	add("overlapping, second one shared", grp{ov, []string{"a:S1:0", "b:S2:0", "x:S2:7200:2"}, []string{"x"}, nil})
	add("overlapping, both shared", grp{ov, []string{"a:S1:0", "b:S2:0", "x:S1:7200:2", "y:S2:9000"}, []string{"x", "y"}, nil})
	return
}

func checkC16(P *Program, r *Result, tier string) {
	var jobs []Job
	for _, sc := range c16Scens(tier) {
		sc := sc
		key := "C16:" + sc.typ + ":" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			runPass(P, r, key, sc, func(h *Heap, s *State, w *watch) []string {
				return append(h.tripRefProblems(s), h.keyMismatch(s)...)
			})
		}})
	}
	runJobs(r, jobs)
}

func init() {
	register("C16", 20, "Path-sensitive abstract interpretation of the passes that adapt services for single trips, on abstract feeds in which the adapted services are shared with trips that are not adapted.", checkC16)
}
