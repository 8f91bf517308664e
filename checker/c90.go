package main

import (
	"fmt"
	"sort"
	"strings"
)

// C90: passes that rewrite calendars keep the days on which trips run. Calendars are individual (first and last day, weekdays,
// exceptions), everything else is symbolic. The days of a trip are those of the trips with its departure time at the end, as
// the passes may replace a trip by several.

// calFamily enumerates calendars: ranges of all lengths up to some weeks from every weekday, weekday patterns, and exceptions
// that add or remove days at the ends, inside and outside of the range.
func calFamily(tier string) (out []cal, names []string) {
	add := func(c cal) {
		n := "dates only"
		if !c.noRange {
			n = fmt.Sprintf("days %d-%d weekdays %07b", c.from, c.to, c.days)
		}
		var ex []string
		for d, a := range c.exc {
			ex = append(ex, fmt.Sprintf("%+d:%t", d, a))
		}
		sort.Strings(ex)
		names = append(names, n+" ["+strings.Join(ex, " ")+"]")
		out = append(out, c)
	}
	active := func(c cal) (ds []int64) {
		for d := c.from; d <= c.to; d++ {
			if c.days&(1<<uint(((d%7)+7)%7)) != 0 {
				ds = append(ds, d)
			}
		}
		return
	}
	starts, lens := []int64{0, 3, 6}, []int64{1, 2, 6, 7, 8, 13, 15}
	patterns := []int64{127, 62, 65, 42, 8, 0}
	if tier == "thorough" {
		starts, lens = []int64{0, 1, 2, 3, 4, 5, 6}, []int64{1, 2, 3, 6, 7, 8, 9, 13, 14, 15, 16, 21, 22}
		patterns = []int64{127, 62, 65, 42, 8, 1, 64, 0}
	}
	i := 0
	for _, st := range starts {
		for _, ln := range lens {
			for _, pat := range patterns {
				b := cal{from: st, to: st + ln - 1, days: pat}
				ac := active(b)
				var off []int64
				for d := b.from; d <= b.to; d++ {
					if pat&(1<<uint(d%7)) == 0 {
						off = append(off, d)
					}
				}
				var excs []map[int64]bool
				excs = append(excs, nil,
					map[int64]bool{b.from - 2: true},                               // a day before
					map[int64]bool{b.to + 1: true},                                 // the day after
					map[int64]bool{b.to + 9: true, b.from - 8: true},               // days far away on both sides
					map[int64]bool{b.from - 1: false, b.to + 3: false, b.to: true}) // without effect
				if len(ac) > 0 {
					all := map[int64]bool{}
					for _, d := range ac {
						all[d] = false
					}
					excs = append(excs, map[int64]bool{ac[0]: false}, map[int64]bool{ac[len(ac)-1]: false}, map[int64]bool{ac[len(ac)/2]: false}, all,
						map[int64]bool{ac[len(ac)/2]: false, b.to + 2: true}, map[int64]bool{ac[0]: false, ac[len(ac)-1]: false, b.from - 3: true})
				}
				if len(off) > 0 {
					excs = append(excs, map[int64]bool{off[len(off)/2]: true}, map[int64]bool{off[0]: true, off[len(off)-1]: true})
					if len(ac) > 0 {
						excs = append(excs, map[int64]bool{off[len(off)/2]: true, ac[len(ac)/2]: false})
					}
				}
				for j, ex := range excs {
					i++
					if tier != "thorough" && (i+j)%3 != 0 && ln != 8 {
						continue
					}
					c := b
					c.exc = ex
					add(c)
				}
			}
		}
	}
	for _, ex := range []map[int64]bool{{0: true}, {6: true}, {2: true, 3: true}, {0: true, 7: true, 14: true}, {0: true, 6: true}, {5: true, 6: true, 7: true, 8: true},
		{1: true, 2: false, 3: true}, {4: false}, {1: true, 30: true}, {0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true},
		{-304: true, -303: true, -302: true}, {3: true, 2: true, 40: true}} {
		add(cal{noRange: true, exc: ex})
	}
	// the end of February of a leap year, the turn of a year, the end of October
	for _, st := range []int64{-308, -2, 300} {
		for j, ex := range []map[int64]bool{nil, {st + 4: false}, {st + 3: true, st + 12: true}, {st - 1: true, st + 5: false, st + 9: false}} {
			for _, pat := range []int64{127, 62} {
				if tier == "thorough" || pat == 127 || j > 0 {
					add(cal{from: st, to: st + 9, days: pat, exc: ex})
				}
			}
		}
	}
	return
}

func calJobs(P *Program, tier string) (jobs []Job) {
	cals, names := calFamily(tier)
	add := func(typ, name string, cfg func(h *Heap) map[string]*V, cs []cal, order int) {
		key := "C90:" + typ + ":" + name
		jobs = append(jobs, Job{key, func(r *Result) { runCal(P, r, key, typ, name, cfg, cs, order) }})
	}
	none := func(h *Heap) map[string]*V { return map[string]*V{} }
	over := func(h *Heap) map[string]*V {
		var ds []*V
		for _, d := range []string{"Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"} {
			ds = append(ds, h.e.Str(d))
		}
		return map[string]*V{"DayNames": h.List("daynames", strT(), ds...), "YearWeekName": h.e.Str("WW")}
	}
	// dates of one weekday on which as many trips run, but not the same ones
	all, d := cal{from: 0, to: 15, days: 127}, func(ds ...int64) cal {
		c := cal{noRange: true, exc: map[int64]bool{}}
		for _, x := range ds {
			c.exc[x] = true
		}
		return c
	}
	for i, cs := range [][]cal{{d(1), d(8), all}, {all, d(1, 2), d(8, 9), all}, {all, d(1, 8), d(8, 15), d(1, 15)}, {d(1, 8, 15), d(1), d(8), d(15)}, {d(-7, 0), d(7, 14), all},
		{{from: 0, to: 7, days: 2}, {from: 8, to: 15, days: 3}, {from: 0, to: 15, days: 62, exc: map[int64]bool{1: false, 7: true}}}} {
		add("ServiceNonOverlapper", fmt.Sprintf("day types %d", i), over, cs, 1)
	}
	for i := range cals {
		if tier == "thorough" || i%3 == 0 || i >= len(cals)-40 {
			add("ServiceMinimizer", names[i], none, cals[i:i+1], 1)
		}
		add("ServiceCalDatesRem", names[i], none, cals[i:i+1], 1)
		// several calendars at once
		if j := (i*7 + 3) % len(cals); i%4 == 0 {
			add("ServiceCalDatesRem", names[i]+" and "+names[j], none, []cal{cals[i], cals[j]}, 3)
			add("ServiceNonOverlapper", names[i]+" and "+names[j], over, []cal{cals[i], cals[j]}, 1)
		}
		if i%16 == 0 {
			j, k := (i*7+3)%len(cals), (i*5+11)%len(cals)
			add("ServiceMinimizer", names[i]+" and "+names[j], none, []cal{cals[i], cals[j], cals[k]}, 3)
		}
	}
	return
}

func runCal(P *Program, r *Result, key, typ, name string, cfg func(h *Heap) map[string]*V, cs []cal, order int) {
	h := newHeap(P)
	h.e.injectiveHash = true
	h.e.maxGen = 400
	h.e.maxList = 400
	h.e.unroll = 2000
	h.e.h.MaxKnownRange = order
	h.constIDs = true
	lo, hi := int64(1000), int64(-1000)
	for _, c := range cs {
		if !c.noRange {
			lo, hi = min(lo, c.from), max(hi, c.to)
		}
		for d := range c.exc {
			lo, hi = min(lo, d), max(hi, d)
		}
	}
	lo, hi = lo-10, hi+10
	base := h.tripBase()
	start, want := map[int64]*Ent{}, map[int64]string{}
	var svs []*Ent
	for i, c := range cs {
		sv := h.service(fmt.Sprintf("S%d", i), c)
		svs = append(svs, sv)
		for k := 0; k < 2; k++ {
			if k == 1 && i == 1 {
				continue // used by one trip only
			}
			st := int64(3600 * (2*i + k + 1))
			start[st] = h.trip(base, fmt.Sprintf("t%d.%d", i, k), base.route, sv, st)
			want[st], _ = h.activeDays(h.s, sv.obj, lo, hi)
		}
	}
	bad := 0
	n, ok := h.runScenario(r, key, typ, cfg(h), func(s *State) {
		got, probs := h.daysByStart(s, lo, hi, nil)
		for at, t := range start {
			for _, d := range strings.Split(want[at], ",") {
				if d != "" && got[at][d] == 0 && len(probs) < 3 {
					probs = append(probs, fmt.Sprintf("trip %s does not run on day %s any more", t.name, d))
				}
				if got[at][d] == 1 {
					delete(got[at], d)
				}
			}
			for d, n := range got[at] {
				if len(probs) < 3 {
					probs = append(probs, fmt.Sprintf("trip %s (with its copies) runs %d times on day %s", t.name, n, d))
				}
			}
		}
		sort.Strings(probs)
		for _, p := range probs {
			bad++
			r.add(key, "", h.e.trailText(s, 16), "%s, calendar %s: %s", typ, name, p)
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Instances[typ]++
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d bad, %d steps", key, n, bad, h.e.steps))
}

// startOf is the departure time of a trip at its first stop, in seconds.
func (h *Heap) startOf(s *State, t *V) (int64, bool) {
	sts := h.getF(s, t, "Trip", "StopTimes")
	if sts.K != KSlice {
		return 0, false
	}
	tm := h.e.load(s, h.e.FieldAddr(h.e.ElemAddr(sts.Args[0], h.e.Int(0)), "departure_time"), h.gtfsType("Time"))
	if tm == nil || len(tm.Args) != 3 {
		return 0, false
	}
	var x [3]int64
	for i, a := range tm.Args {
		n, ok := a.intVal()
		if !ok {
			return 0, false
		}
		x[i] = n
	}
	return x[0]*3600 + x[1]*60 + x[2], true
}

func init() {
	register("C90", 900, "Abstract interpretation of the passes that rewrite calendars (minimisation, explicit dates, splitting by day types and years) on trips with calendars of known days: families of ranges, weekday patterns and exceptions. At every reachable end the days of every trip, taken together with its copies, are compared with the days before.", func(P *Program, r *Result, tier string) { runJobs(r, calJobs(P, tier)) })
}
