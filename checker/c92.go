package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C92: compression into frequencies. Departure times, running times and frequencies are known numbers, all other attributes are
// symbolic. Before the pass and at every end, all trips are expanded into their departures: each with the stops, the times
// relative to the departure and all attributes of the trip; the two multisets must be equal.

// A ftrip is one trip: its first departure, the pattern it follows, and its frequencies (start-end/headway, ~ if not exact).
type ftrip struct {
	name  string
	dep   int64
	class string
	freqs []string
}

type fscen struct {
	name     string
	trips    []ftrip
	min, max int64
	order    int // 0: one direction for all loops over maps
}

const fH = 3600

// patterns: per stop, arrival and departure relative to the departure at the first stop (-1: no times).
var fPatterns = map[string][][2]int64{
	"":             {{0, 0}, {600, 660}, {1200, 1200}},
	"dwell":        {{-300, 0}, {600, 660}, {1200, 1200}},
	"longer dwell": {{-360, 0}, {540, 660}, {1140, 1200}},
	"slow":         {{0, 0}, {600, 660}, {1260, 1260}},
	"early":        {{0, 0}, {540, 660}, {1200, 1200}},
	"late":         {{0, 0}, {600, 720}, {1200, 1200}},
	"untimed":      {{0, 0}, {-1, -1}, {1200, 1200}},
	"short":        {{0, 0}, {600, 600}},
	"none":         {},
	"headsign":     {{0, 0}, {600, 660}, {1200, 1200}},
}

func fScens(tier string) (out []fscen) {
	add := func(name string, min, max int64, trips ...ftrip) {
		out = append(out, fscen{name: name, trips: trips, min: min, max: max})
	}
	run := func(class string, deps ...int64) (ts []ftrip) {
		for i, d := range deps {
			ts = append(ts, ftrip{fmt.Sprintf("%s%d", string(rune('a'+len(class)%26)), i), d, class, nil})
		}
		return
	}
	every := func(from, step int64, n int) (ds []int64) {
		for i := 0; i < n; i++ {
			ds = append(ds, from+int64(i)*step)
		}
		return
	}
	fr := func(name string, dep int64, class string, freqs ...string) ftrip {
		return ftrip{name, dep, class, freqs}
	}
	d := int64(8 * fH)
	add("one trip", 1, 86400, run("", d)...)
	add("two trips", 1, 86400, run("", d, d+600)...)
	add("same time", 1, 86400, run("", d, d)...)
	add("same time twice", 1, 86400, run("", d, d, d+600, d+600)...)
	add("duplicate inside a series", 1, 86400, run("", d, d+600, d+600, d+1200)...)
	add("series", 1, 86400, run("", every(d, 600, 5)...)...)
	add("series over midnight", 1, 86400, run("", every(23*fH+1800, 1200, 4)...)...)
	add("series after midnight", 1, 86400, run("", every(25*fH, 1800, 3)...)...)
	add("irregular", 1, 86400, run("", d, d+300, d+1000, d+2300)...)
	add("series with a gap", 1, 86400, run("", d, d+600, d+1200, d+2400, d+3000)...)
	add("interleaved series", 1, 86400, run("", d, d+600, d+1200, d+200, d+800, d+1400)...)
	add("interleaved headways", 1, 86400, run("", d, d+600, d+1200, d+1800, d+900, d+1000, d+1100)...)
	add("two headways", 1, 86400, run("", d, d+600, d+1200, d+1500, d+1800, d+2100)...)
	add("series ends where the next begins", 1, 86400, run("", d, d+600, d+1200, d+1500, d+1600, d+1700)...)
	add("seconds", 1, 86400, run("", d, d+61, d+122, d+184)...)
	add("headway too small", 300, 86400, run("", every(d, 200, 4)...)...)
	add("headway too large", 1, 300, run("", every(d, 600, 4)...)...)
	add("headway too large by a second", 1, 599, run("", every(d, 600, 4)...)...)
	add("headway too small by a second", 601, 86400, run("", every(d, 600, 2)...)...)
	add("only headway allowed", 600, 600, run("", append(every(d, 600, 3), every(d+1801, 601, 2)...)...)...)
	add("headway bounds", 600, 900, run("", d, d+300, d+900, d+1500, d+2400)...)
	for _, c := range []string{"dwell", "untimed", "short", "slow"} {
		add("series, "+c, 1, 86400, run(c, every(d, 600, 3)...)...)
	}
	for _, c := range []string{"dwell", "slow", "early", "late", "short", "untimed", "headsign"} {
		add("alternating with "+c, 1, 86400, append(run("", every(d, 600, 3)...), run(c, every(d+300, 600, 3)...)...)...)
	}
	add("different dwells", 1, 86400, append(run("dwell", every(d, 600, 2)...), run("longer dwell", every(d+360, 600, 2)...)...)...)
	add("without stop times", 1, 86400, append(run("", every(d, 600, 3)...), run("none", 0, 0)...)...)
	// trips that have frequencies already
	add("frequency", 1, 86400, fr("f", d, "", "28800-32400/600"))
	add("frequency not exact", 1, 86400, fr("f", d, "", "28800-32400/600~"))
	add("frequency from midnight", 1, 86400, fr("f", d, "", "0-1800/600"), fr("g", d, "", "1800-3600/600"))
	add("frequency elsewhere", 1, 86400, fr("f", 0, "", "28800-32400/600"), fr("g", 600, "", "36000-39600/600"))
	add("frequency elsewhere, untimed", 1, 86400, fr("f", 0, "untimed", "28800-32400/600"), fr("g", 0, "untimed", "36000-39600/600"))
	add("frequency with a dwell", 1, 86400, fr("f", d, "dwell", "28800-32400/600"), fr("g", d, "dwell", "32400-36000/600"))
	add("frequency and trips with a dwell", 1, 86400, append(run("dwell", every(d+3600, 600, 3)...), fr("f", d, "dwell", "28800-32400/600"))...)
	add("frequency from midnight with a dwell", 1, 86400, fr("f", d, "dwell", "0-1800/600"), fr("g", d, "dwell", "1800-3600/600"))
	add("frequency and trips", 1, 86400, append(run("", every(d+3600, 600, 3)...), fr("f", d, "", "28800-32400/600"))...)
	add("frequency not exact and trips", 1, 86400, append(run("", every(d+3600, 600, 3)...), fr("f", d, "", "28800-32400/600~"))...)
	add("not exact and exact at once", 1, 86400, fr("f", d, "", "28800-32400/600~"), fr("g", d, "", "28800-32400/600"))
	add("not exact twice", 1, 86400, fr("f", d, "", "28800-32400/600~"), fr("g", d, "", "32400-36000/600~"))
	add("not exact, then exact", 1, 86400, fr("f", d, "", "28800-32400/600~"), fr("g", d, "", "32400-36000/600"))
	add("exact, then not exact", 1, 86400, fr("f", d, "", "28800-32400/600"), fr("g", d, "", "32400-36000/600~"))
	// every loop over a map in its own direction
	for _, ts := range [][]ftrip{run("", d, d+600), run("", every(d, 600, 3)...), run("", d, d, d+600), run("", d, d+600, d+1500),
		append(run("", d, d+600), run("slow", d+1200)...), {fr("f", d, "", "28800-30000/600"), fr("g", d, "", "30000-31200/600")}, append(run("", d+1200), fr("f", d, "", "28800-30000/600"))} {
		add(fmt.Sprintf("any order %d", len(out)), 1, 86400, ts...)
		out[len(out)-1].order = 2
	}
	add("not exact overlapping", 1, 86400, fr("f", d, "", "28800-32400/1200~"), fr("g", d, "", "29400-33000/1200~"))
	add("two frequencies", 1, 86400, fr("f", d, "", "28800-30600/600", "30600-32400/300"))
	add("two frequencies with a gap", 1, 86400, fr("f", d, "", "28800-30600/600", "34200-36000/600"), fr("g", d, "", "30600-34200/600"))
	add("end not a multiple", 1, 86400, fr("f", d, "", "28800-30500/600"), fr("g", d, "", "30600-32300/600"))
	add("frequency of one departure", 1, 86400, fr("f", d, "", "28800-28801/600"), fr("g", d, "", "29400-29401/600"))
	add("frequency of no departure", 1, 86400, fr("f", d, "", "28800-28800/600"), fr("g", d, "", "29400-31200/600"))
	add("empty list of frequencies", 1, 86400, fr("f", d, "", "-"), fr("g", d+600, "", "-"), fr("h", d+1200, ""))
	add("headway outside the bounds", 900, 1800, fr("f", d, "", "28800-32400/600"), fr("g", d, "", "32400-36000/600"))
	add("two patterns with frequencies", 1, 86400, fr("f", d, "", "28800-30600/600"), fr("g", d, "", "30600-32400/600"), fr("h", d, "slow", "28800-30600/600"), fr("i", d, "slow", "30600-32400/600"))
	add("new ID taken", 1, 86400, append(run("", d, d+600, d+1200, d+300, d+700, d+1250), ftrip{"a0_2", d, "short", nil}, ftrip{"a1_2", d, "slow", nil}, ftrip{"a5_2", d, "headsign", nil})...)
	// any sets of departures
	n, sz := 48, 6
	if tier == "thorough" {
		n, sz = 400, 8
	}
	rng := rand.New(rand.NewSource(92))
	for i := 0; i < n; i++ {
		var ts []ftrip
		k := 3 + rng.Intn(sz-2)
		for j := 0; j < k; j++ {
			at := d + int64(rng.Intn(9))*300
			if i%4 == 3 && j == 0 {
				ex := ""
				if i%8 == 3 {
					ex = "~"
				}
				ts = append(ts, fr("f", at, "", fmt.Sprintf("%d-%d/%d%s", at, at+1200, 300*(1+rng.Intn(2)), ex)))
				continue
			}
			ts = append(ts, ftrip{fmt.Sprintf("a%d", j), at, "", nil})
		}
		add(fmt.Sprintf("departures %d", i), []int64{1, 1, 600, 1}[i%4], []int64{86400, 900, 86400, 86400}[i%4], ts...)
	}
	return
}

// fDeparture describes one departure: kind, time, and everything else a passenger sees.
func fDeparture(at int64, exact bool, what string) string {
	k := "by headway"
	if exact {
		k = "scheduled"
	}
	return fmt.Sprintf("%s %d:%02d:%02d %s", k, at/3600, at/60%60, at%60, what)
}

func (h *Heap) secs(t *V) (int64, bool) {
	if t == nil || len(t.Args) != 3 || t.K != KStruct {
		return 0, false
	}
	var x [3]int64
	for i, a := range t.Args {
		n, ok := a.intVal()
		if !ok {
			return 0, false
		}
		x[i] = n
	}
	return x[0]*3600 + x[1]*60 + x[2], true
}

// expand lists the departures of all trips, those of trips without frequencies, the frequencies of every trip and what could not be determined.
func (h *Heap) expand(s *State) (deps, plain map[string]int, freqs map[string][][4]int64, probs []string) {
	deps, plain, freqs = map[string]int{}, map[string]int{}, map[string][][4]int64{}
	ids, vs, known := h.entries(s, "Trips")
	if !known {
		return deps, plain, freqs, []string{"the trips of the feed are undetermined"}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].String() < vs[j].String() })
	_ = ids
	bad := func(f string, a ...any) { probs = append(probs, fmt.Sprintf(f, a...)) }
	for _, t := range vs {
		if t.K != KObj && !isEntObj(t) {
			bad("a trip of the feed is undetermined")
			continue
		}
		v := h.tripView(s, t)
		who := nm(t) + " (" + fmt.Sprint(v.id) + ")"
		for _, u := range v.unknown {
			bad("%s of trip %s undetermined", u, who)
		}
		var parts []string
		for _, k := range sortedKeys(v.plain) {
			parts = append(parts, k+"="+v.plain[k])
		}
		parts = append(parts, "service="+fmt.Sprint(h.getF(s, t, "Trip", "Service")))
		parts = append(parts, v.flds["TripsAddFlds"])
		cols, _ := h.addFieldOf(s, "StopTimesAddFlds", "scol", v.id)
		first := int64(0)
		for i, st := range v.sts {
			a, ok1 := h.secs(st["arrival_time"])
			d, ok2 := h.secs(st["departure_time"])
			if !ok1 || !ok2 {
				bad("times of trip %s undetermined: %v %v", who, st["arrival_time"], st["departure_time"])
				continue
			}
			if i == 0 {
				first = d
			}
			tm := "untimed"
			switch empty := int64(-3661); {
			case a == empty && d == empty:
			case a == empty || d == empty:
				tm = "half timed"
			case i == 0: // the arrival at the first stop is not seen by passengers
				if tm = "first"; a < 0 || a > d {
					bad("trip %s arrives at its first stop at %d, departing at %d", who, a, d)
				}
			default:
				tm = fmt.Sprintf("%+d/%+d", a-first, d-first)
			}
			for _, f := range sortedKeys(st) {
				switch f {
				case "arrival_time", "departure_time":
				case "sequence":
					// the number itself does not matter, its sign tells whether the times are exact
					q, ok := st[f].intVal()
					if !ok {
						bad("sequence of trip %s undetermined", who)
					}
					tm += fmt.Sprintf(" timepoint=%t", q >= 0)
					if cols != nil && !cols.IsNil() {
						if q < 0 {
							q = -q
						}
						if x := s.mem[h.e.EntryAddr(cols, h.e.Int(q-1))]; x != nil {
							tm += fmt.Sprintf(" scol=%v", x)
						}
					}
				default:
					tm += fmt.Sprintf(" %s=%v", f, st[f])
				}
			}
			parts = append(parts, tm)
		}
		what := strings.Join(parts, "; ")
		if len(v.freqs) == 0 {
			deps[fDeparture(first, true, what)]++
			plain[fDeparture(first, true, what)]++
			continue
		}
		for _, f := range v.freqs {
			a, ok1 := h.secs(h.getF(s, f, "Frequency", "Start_time"))
			b, ok2 := h.secs(h.getF(s, f, "Frequency", "End_time"))
			hw, ok3 := h.getF(s, f, "Frequency", "Headway_secs").intVal()
			ex := h.getF(s, f, "Frequency", "Exact_times")
			if !ok1 || !ok2 || !ok3 || ex.K != KConst {
				bad("frequency of trip %s undetermined: %v %v %v %v", who, h.getF(s, f, "Frequency", "Start_time"), h.getF(s, f, "Frequency", "End_time"), h.getF(s, f, "Frequency", "Headway_secs"), ex)
				continue
			}
			if hw <= 0 {
				bad("trip %s has a frequency with headway %d", who, hw)
				continue
			}
			x := int64(0)
			if ex == h.e.Bool(true) {
				x = 1
			}
			freqs[who] = append(freqs[who], [4]int64{a, b, hw, x})
			for at := a; at < b; at += hw {
				deps[fDeparture(at, x == 1, what)]++
			}
		}
	}
	return
}

// runFreq interprets the pass on one scenario.
func runFreq(P *Program, r *Result, key string, sc fscen, more func(h *Heap, t *Ent, i int)) {
	h := newHeap(P)
	h.e.injectiveHash = true
	h.e.maxGen, h.e.maxList = 400, 400
	h.e.unroll = 2000
	h.e.maxDepth = 60
	h.e.maxSteps = 1500000
	h.e.h.MaxKnownRange = 3
	if sc.order != 0 {
		h.e.h.MaxKnownRange = sc.order
	}
	h.e.h.Inline = func(f *ssa.Function) (bool, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" && len(f.Blocks) > 0 {
			switch f.Name() {
			case "Sort", "Stable", "insertionSort", "pdqsort", "stable":
				return true, true
			}
		}
		return false, false
	}
	h.constIDs = true
	base := h.tripBase()
	st2 := mkStop(h, "stop2", 0, nil)
	h.plain(st2)
	base.stops = append(base.stops, st2)
	h.plain(mkStop(h, "stop3", 0, nil))
	sv := h.service("S0", cal{from: 0, to: 6, days: 127})
	h.service("S1", cal{from: 7, to: 13, days: 127})
	ft := types.NewPointer(h.gtfsType("Frequency"))
	for i, t := range sc.trips {
		pat := fPatterns[t.class]
		b := *base
		b.stops = b.stops[:min(len(pat), 3)]
		tr := h.trip(&b, t.name, base.route, sv, t.dep)
		if t.name == "a0_2" || strings.HasSuffix(t.name, "_2") {
			h.ownName(tr)
		}
		if t.class == "headsign" {
			v := h.e.TokT("headsign2", nil)
			h.content[v] = h.e.Str("other")
			h.Set(tr, "Headsign", v)
		}
		for j, p := range pat {
			x := [2]*V{h.gtfsTime(t.dep + p[0]), h.gtfsTime(t.dep + p[1])}
			if p[1] == -1 {
				i8 := h.e.Const(h.e.Int(-1).C, types.Typ[types.Int8])
				e := h.e.Struct(h.gtfsType("Time"), i8, i8, i8)
				x = [2]*V{e, e}
			}
			setSt(h, tr, j, "arrival_time", x[0])
			setSt(h, tr, j, "departure_time", x[1])
			setSt(h, tr, j, "pudo", h.e.Const(h.e.Int(0).C, types.Typ[types.Uint8]))
			setSt(h, tr, j, "headsign", h.e.TokT(fmt.Sprintf("sthead%d", j), h.fieldType("Trip", "Headsign")))
			setSt(h, tr, j, "shape_dist_traveled", h.e.Const(constant.MakeFloat64(float64(500*j)), types.Typ[types.Float32]))
		}
		if len(t.freqs) > 0 {
			p := h.e.Obj("freqs@"+tr.name, types.NewSlice(ft))
			var fs []*V
			for k, f := range t.freqs {
				if f == "-" {
					continue
				}
				var a, b, hw int64
				fmt.Sscanf(f, "%d-%d/%d", &a, &b, &hw)
				fe := h.Entity("Frequency", fmt.Sprintf("f%d@%s", k, tr.name), "f")
				h.Set(fe, "Start_time", h.gtfsTime(a))
				h.Set(fe, "End_time", h.gtfsTime(b))
				h.Set(fe, "Headway_secs", h.e.Int(hw))
				h.Set(fe, "Exact_times", h.e.Bool(!strings.HasSuffix(f, "~")))
				fs = append(fs, fe.obj)
			}
			h.s.mem[p] = h.List("freqlist@"+tr.name, ft, fs...)
			h.Set(tr, "Frequencies", p)
		}
		if more != nil {
			more(h, tr, i)
		}
	}
	want, _, wantF, p0 := h.expand(h.s)
	if len(p0) > 0 {
		r.add(key+":setup", "", nil, "%s: scenario cannot be set up: %v", key, p0)
		return
	}
	attrs := h.tripAttrs(h.s)
	old := map[[4]int64]bool{}
	for _, fs := range wantF {
		for _, f := range fs {
			old[f] = true
		}
	}
	bad := 0
	n, ok := h.runScenario(r, key, "FrequencyMinimizer", map[string]*V{"MinHeadway": h.e.Int(sc.min), "MaxHeadway": h.e.Int(sc.max)}, func(s *State) {
		got, plain, freqs, probs := h.expand(s)
		probs = append(probs, diffDepartures(want, got, plain)...)
		for _, who := range sortedKeys(freqs) {
			for i, f := range freqs[who] {
				if !old[f] && (f[2] < sc.min || f[2] > sc.max) {
					probs = append(probs, fmt.Sprintf("trip %s has a frequency with headway %d, outside of %d to %d", who, f[2], sc.min, sc.max))
				}
				for _, g := range freqs[who][:i] {
					if f[0] < g[1] && g[0] < f[1] && !(old[f] && old[g]) {
						probs = append(probs, fmt.Sprintf("trip %s has overlapping frequencies %d-%d and %d-%d", who, g[0], g[1], f[0], f[1]))
					}
				}
			}
		}
		probs = append(probs, h.keyMismatch(s)...)
		probs = append(probs, h.lostAttrs(s, attrs)...)
		if len(probs) > 3 {
			probs = probs[:3]
		}
		for _, p := range probs {
			bad++
			r.add(key, "", h.e.trailText(s, 16), "FrequencyMinimizer, %s: %s", sc.name, p)
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Instances["scenarios"]++
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
}

// tripAttrs counts the attributions hanging on trips of the feed.
func (h *Heap) tripAttrs(s *State) map[*V]int {
	n := map[*V]int{}
	_, vs, _ := h.entries(s, "Trips")
	for _, t := range vs {
		l := h.getF(s, t, "Trip", "Attributions")
		if l.IsNil() {
			continue
		}
		els, _ := h.listElems(s, h.e.load(s, l, h.fieldType("Trip", "Attributions").Underlying().(*types.Pointer).Elem()))
		for _, a := range els {
			n[a]++
		}
	}
	return n
}

// lostAttrs: every attribution still hangs on exactly one trip.
func (h *Heap) lostAttrs(s *State, want map[*V]int) (probs []string) {
	got := h.tripAttrs(s)
	for a, n := range want {
		if got[a] != n {
			probs = append(probs, fmt.Sprintf("attribution %s hangs on %d trips instead of %d", nm(a), got[a], n))
		}
	}
	sort.Strings(probs)
	return
}

// diffDepartures compares departures before and after. A departure by headway may become a scheduled trip of its own.
func diffDepartures(want, got, plain map[string]int) (probs []string) {
	lost, extra := map[string]int{}, map[string]int{}
	for d, n := range want {
		if n > got[d] {
			lost[d] = n - got[d]
		}
	}
	for d, n := range got {
		if n > want[d] {
			extra[d] = n - want[d]
		}
	}
	for _, d := range sortedKeys(lost) {
		if x, ok := strings.CutPrefix(d, "by headway "); ok {
			k := min(lost[d], extra["scheduled "+x], plain["scheduled "+x])
			lost[d] -= k
			extra["scheduled "+x] -= k
		}
		if lost[d] > 0 {
			probs = append(probs, fmt.Sprintf("%d departures are lost: %s", lost[d], d))
		}
	}
	for _, d := range sortedKeys(extra) {
		if extra[d] > 0 {
			probs = append(probs, fmt.Sprintf("%d departures are new: %s", extra[d], d))
		}
	}
	return
}

func freqJobs(P *Program, tier string) (jobs []Job) {
	for _, sc := range fScens(tier) {
		sc := sc
		key := "C92:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { runFreq(P, r, key, sc, nil) }})
	}
	// trips that alternate with trips differing in one attribute
	d := int64(8 * fH)
	add := func(name string, set func(h *Heap, t *Ent)) {
		key := "C92:different " + name
		sc := fscen{name: "trips alternating with ones different in " + name, min: 1, max: 86400}
		for i := int64(0); i < 3; i++ {
			sc.trips = append(sc.trips, ftrip{fmt.Sprintf("a%d", i), d + 600*i, "", nil}, ftrip{fmt.Sprintf("b%d", i), d + 600*i + 300, "", nil})
		}
		jobs = append(jobs, Job{key, func(r *Result) {
			runFreq(P, r, key, sc, func(h *Heap, t *Ent, i int) {
				if i%2 == 1 {
					set(h, t)
				}
			})
		}})
	}
	for n, dep := range [][]int64{{d, d + 600, d + 1200, d + 300, d + 900, d + 1500, d + 1560}, {d, d + 600, d + 650, d + 700}, {d, d + 10, d + 25, d + 31, d + 60}} {
		key := fmt.Sprintf("C92:non-standard values and attributions, %d", n)
		sc := fscen{name: key[4:], min: 50, max: 700}
		for i, at := range dep {
			sc.trips = append(sc.trips, ftrip{fmt.Sprintf("a%d", i), at, "", nil})
		}
		jobs = append(jobs, Job{key, func(r *Result) {
			runFreq(P, r, key, sc, func(h *Heap, t *Ent, i int) {
				m := h.FeedMap("StopTimesAddFlds").T.Underlying().(*types.Map).Elem().Underlying().(*types.Map).Elem()
				h.AddFieldTo("StopTimesAddFlds", "scol", t.id, h.Map("scol@"+t.name, m, h.e.Int(0), h.e.Str("first"), h.e.Int(2), h.e.Str("last")))
				h.AddFieldTo("TripsAddFlds", "tcol", t.id, h.e.Str("value"))
				for _, f := range h.fields("Trip") {
					if f.Name() == "Attributions" && i != 1 {
						h.otherValue(t, f)
					}
				}
			})
		}})
	}
	one := newHeap(P)
	for _, f := range one.fields("Trip") {
		f := f
		switch f.Name() {
		case "Id", "StopTimes", "Frequencies", "Translations": // translations are not read
			continue
		}
		add("Trip."+f.Name(), func(h *Heap, t *Ent) { h.otherValue(t, f) })
	}
	for _, i := range []int{0, 1, 2} {
		i := i
		st := one.gtfsType("StopTime").Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			at := fmt.Sprintf("StopTime.%s at stop %d", f.Name(), i)
			switch f.Name() {
			case "arrival_time", "departure_time":
			case "sequence":
				add(at, func(h *Heap, t *Ent) { setSt(h, t, i, f.Name(), h.e.Const(h.e.Int(int64(-i-1)).C, f.Type())) })
			case "pudo":
				for _, x := range []int64{1, 4, 16, 64} {
					x := x
					add(fmt.Sprintf("%s %d", at, x), func(h *Heap, t *Ent) { setSt(h, t, i, f.Name(), h.e.Const(h.e.Int(x).C, f.Type())) })
				}
			case "shape_dist_traveled":
				add(at, func(h *Heap, t *Ent) {
					setSt(h, t, i, f.Name(), h.e.Const(constant.MakeFloat64(float64(500*i+1)), f.Type()))
				})
			case "stop":
				add(at, func(h *Heap, t *Ent) { setSt(h, t, i, f.Name(), h.ents[h.entIndex("stop3")].obj) })
			default:
				add(at, func(h *Heap, t *Ent) { setSt(h, t, i, f.Name(), h.e.TokT("other", f.Type())) })
			}
		}
		add(fmt.Sprintf("non-standard value at stop %d", i), func(h *Heap, t *Ent) {
			m := h.FeedMap("StopTimesAddFlds").T.Underlying().(*types.Map).Elem().Underlying().(*types.Map).Elem()
			h.AddFieldTo("StopTimesAddFlds", "scol", t.id, h.Map("scol@"+t.name, m, h.e.Int(int64(i)), h.e.Str("other")))
		})
		add(fmt.Sprintf("sequence from stop %d on and non-standard value", i), func(h *Heap, t *Ent) {
			m := h.FeedMap("StopTimesAddFlds").T.Underlying().(*types.Map).Elem().Underlying().(*types.Map).Elem()
			for j := i; j < 3; j++ {
				setSt(h, t, j, "sequence", h.e.Const(h.e.Int(int64(j+6)).C, types.Typ[types.Int32]))
			}
			h.AddFieldTo("StopTimesAddFlds", "scol", t.id, h.Map("scol@"+t.name, m, h.e.Int(int64(i+5)), h.e.Str("other")))
		})
	}
	add("non-standard value", func(h *Heap, t *Ent) { h.AddFieldTo("TripsAddFlds", "tcol", t.id, h.e.Str("other")) })
	return
}

// otherValue gives an attribute of a trip a value different from that of other trips.
func (h *Heap) otherValue(t *Ent, f *types.Var) {
	switch f.Name() {
	case "Route":
		h.Set(t, "Route", h.ents[h.entIndex("r2")].obj)
		return
	case "Service":
		h.Set(t, "Service", h.ents[h.entIndex("S1")].obj)
		return
	}
	if p, ok := f.Type().Underlying().(*types.Pointer); ok {
		el := p.Elem()
		if isGtfsEntity(el) {
			n := f.Name() + "2"
			h.Set(t, f.Name(), h.Entity(typeKey(el)[strings.LastIndex(typeKey(el), ".")+1:], n+"@"+t.name, n).obj)
			return
		}
		if sl, ok := el.Underlying().(*types.Slice); ok {
			// attributions, translations
			ep := sl.Elem().Underlying().(*types.Pointer).Elem()
			kind := typeKey(ep)[strings.LastIndex(typeKey(ep), ".")+1:]
			x := h.Entity(kind, kind+"@"+t.name, kind)
			o := h.e.Obj(kind+"s@"+t.name, el)
			h.s.mem[o] = h.List(kind+"s@"+t.name, sl.Elem(), x.obj)
			h.Set(t, f.Name(), o)
			return
		}
		v := h.e.TokT("other "+f.Name(), f.Type())
		h.content[v] = h.e.Str("other " + f.Name())
		h.Set(t, f.Name(), v)
		return
	}
	h.Set(t, f.Name(), h.e.TokT("other "+f.Name(), f.Type()))
}

func (h *Heap) entIndex(name string) int {
	for i, en := range h.ents {
		if en.name == name {
			return i
		}
	}
	panic("no entity " + name)
}

func init() {
	register("C92", 60, "Abstract interpretation of the pass that compresses trips into frequencies on families of trips with known departures, running times and frequencies. At every reachable end all trips are expanded into their departures, which are compared with those before.", func(P *Program, r *Result, tier string) { runJobs(r, freqJobs(P, tier)) })
}
