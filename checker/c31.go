package main

import (
	"fmt"
	"go/types"
	"math"
	"math/rand"
)

// C31: dropping of trips that are too fast. Times and places are known numbers.

// A run is a trip: places in metres, and arrivals and departures in seconds (none: untimed).
type runCase struct {
	typ    int64
	places []xy
	arr    []int64
	dep    []int64
	freq   bool // runs in intervals
}

const none = -3661

// limits of the means of transport in km/h
var speedLimits = map[int64]float64{0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150, 109: 500, 401: 150, 704: 150, 900: 100, 1000: 80, 1300: 50, 1400: 50, 800: 50, 9: 500}

// tooFast tells whether a trip is too fast, and whether that is clear.
func (c runCase) tooFast() (fast, clear bool) {
	clear = true
	limit, ok := speedLimits[c.typ]
	judge := func(d float64, from, to int64, least float64) {
		inter := float64(to - from)
		if to == from {
			inter = 60
		}
		if inter < 0 {
			clear = false
			return
		}
		v := d / 1000 / (inter / 3600)
		if d > least-60 && ok && v > limit*0.98 {
			if math.Abs(d-least) <= 60 || math.Abs(v-limit) < limit*0.02 {
				clear = false
			}
			fast = fast || d >= least && v > limit
		}
	}
	dist := func(i, j int) (d float64) {
		for ; i < j; i++ {
			a, b := place(c.places[i][0], c.places[i][1])
			x, y := place(c.places[i+1][0], c.places[i+1][1])
			d += metres(a, b, x, y)
		}
		return
	}
	last := -1
	for i := range c.places {
		if c.arr[i] == none {
			continue
		}
		if last >= 0 {
			judge(dist(last, i), c.dep[last], c.arr[i], 7000)
		}
		if last < 0 || c.arr[i] != c.dep[last] {
			last = i
		}
		for j := i + 1; j < len(c.places); j++ {
			if c.arr[j] != none {
				judge(dist(i, j), c.dep[i], c.arr[j], 10000)
			}
		}
	}
	return
}

func fastScens(tier string) (out []numScen) {
	add := func(name string, order int, cs ...runCase) {
		for _, c := range cs {
			if _, clear := c.tooFast(); !clear {
				return
			}
		}
		out = append(out, numScen{name: name, typ: "TooFastTripRemover", order: order, build: func(h *Heap) func(s *State) []string {
			b := h.tripBase()
			sv := h.service("S0", cal{from: 0, to: 6, days: 127})
			var trips []*Ent
			attrs := func(s *State, t *V) map[string]*V {
				m := map[string]*V{}
				for _, f := range h.fields("Trip") {
					m[f.Name()] = h.getF(s, t, "Trip", f.Name())
				}
				return m
			}
			var before []map[string]*V
			var sts [][][]*V
			for i, c := range cs {
				rt := h.Entity("Route", fmt.Sprintf("route%d", i), fmt.Sprintf("route%d", i))
				h.plain(rt)
				h.Set(rt, "Type", h.e.Int(c.typ))
				bb := *b
				bb.stops = nil
				for j, p := range c.places {
					st := mkStop(h, fmt.Sprintf("t%d.%d", i, j), 0, nil)
					h.setPlace(st, p[0], p[1])
					bb.stops = append(bb.stops, st)
				}
				t := h.trip(&bb, fmt.Sprintf("t%d", i), rt, sv, 8*3600)
				for j := range c.places {
					setSt(h, t, j, "arrival_time", h.gtfsTime(c.arr[j]))
					setSt(h, t, j, "departure_time", h.gtfsTime(c.dep[j]))
				}
				if c.freq {
					fe := h.Entity("Frequency", "freq", "freq")
					h.plain(fe)
					ft := types.NewPointer(h.gtfsType("Frequency"))
					p := h.e.Obj("freqs", types.NewSlice(ft))
					h.s.mem[p] = h.List("freqlist", ft, fe.obj)
					h.Set(t, "Frequencies", p)
				}
				trips = append(trips, t)
				before = append(before, attrs(h.s, t.obj))
				var x [][]*V
				for _, f := range []string{"stop", "arrival_time", "departure_time", "sequence"} {
					v, _ := h.stNow(h.s, t, f)
					x = append(x, v)
				}
				sts = append(sts, x)
			}
			_, old, _ := h.stopAttrs(h.s)
			return func(s *State) (probs []string) {
				_, vs, ok := h.entries(s, "Trips")
				if !ok {
					return []string{"the trips of the feed are undetermined"}
				}
				left := map[*V]bool{}
				for _, v := range vs {
					left[v] = true
				}
				n := 0
				for i, t := range trips {
					c := cs[i]
					fast, _ := c.tooFast()
					what := fmt.Sprintf("a trip of type %d over %v (in metres), arrivals %v, departures %v (in seconds)", c.typ, c.places, c.arr, c.dep)
					if left[t.obj] {
						n++
					}
					switch {
					case fast && left[t.obj]:
						probs = append(probs, what+" is too fast, but it is kept")
						continue
					case !fast && !left[t.obj]:
						probs = append(probs, what+" is not too fast, but it is dropped")
						continue
					case fast:
						continue
					}
					now := attrs(s, t.obj)
					for _, f := range sortedKeys(now) {
						if now[f] != before[i][f] {
							probs = append(probs, fmt.Sprintf("%s: %s changes to %s", what, f, nm(now[f])))
						}
					}
					for k, f := range []string{"stop", "arrival_time", "departure_time", "sequence"} {
						v, ok := h.stNow(s, t, f)
						if !ok || len(v) != len(sts[i][k]) {
							probs = append(probs, what+": the stop times change")
							break
						}
						for j := range v {
							if v[j] != sts[i][k][j] {
								probs = append(probs, fmt.Sprintf("%s: %s of stop time %d changes", what, f, j))
							}
						}
					}
				}
				if len(vs) != n {
					probs = append(probs, "the feed has trips that were not there before")
				}
				return append(probs, h.stopsChanged(s, old, nil)...)
			}
		}})
	}
	const d = 8 * 3600
	// leg: a trip that goes the given distances in the given seconds, waiting in between.
	leg := func(typ int64, wait int64, legs ...[2]float64) runCase {
		c := runCase{typ: typ, places: []xy{{0, 0}}, arr: []int64{d}, dep: []int64{d + wait}}
		at, now := xy{}, int64(d)+wait
		for i, l := range legs {
			at[1-i%2] += l[0]
			now += int64(l[1])
			c.places = append(c.places, at)
			c.arr = append(c.arr, now)
			now += wait
			c.dep = append(c.dep, now)
		}
		return c
	}
	untime := func(c runCase, is ...int) runCase {
		c.arr, c.dep = append([]int64(nil), c.arr...), append([]int64(nil), c.dep...)
		for _, i := range is {
			c.arr[i], c.dep[i] = none, none
		}
		return c
	}
	secs := func(m, kmh float64) float64 { return math.Round(m / 1000 / kmh * 3600) }
	for _, typ := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 109, 401, 704, 900, 1000, 1300, 1400, 800} {
		v := speedLimits[typ]
		fast, slow := v*1.06, v*0.94
		add(fmt.Sprintf("type %d, below the limit", typ), 3, leg(typ, 0, [2]float64{12000, secs(12000, slow)}, [2]float64{15000, secs(15000, slow)}), leg(typ, 0, [2]float64{9000, secs(9000, slow)}))
		add(fmt.Sprintf("type %d, above the limit", typ), 3, leg(typ, 0, [2]float64{9000, secs(9000, fast)}), leg(typ, 0, [2]float64{6000, secs(6000, fast)}), leg(typ, 30, [2]float64{6000, secs(6000, slow)}, [2]float64{12000, secs(12000, fast)}, [2]float64{100, 600}))
	}
	add("unknown type", 3, leg(9, 0, [2]float64{90000, 600}), leg(9, 0, [2]float64{70000, 600}))
	const bus, tram, rail = 3, 0, 2
	q := func(m, kmh float64) [2]float64 { return [2]float64{m, secs(m, kmh)} }
	cases := []runCase{
		{typ: bus}, {typ: bus, places: []xy{{0, 0}}, arr: []int64{d}, dep: []int64{d}},
		leg(bus, 0, q(6000, 200), q(6000, 200)), leg(bus, 0, q(6000, 100), q(6000, 200), q(6000, 200)), leg(bus, 0, q(6000, 200), q(6000, 100)), leg(bus, 60, q(6000, 170), q(6000, 170)), leg(bus, 0, q(3000, 250), q(3000, 250), q(3000, 250)), leg(bus, 0, q(3000, 250), q(3000, 250), q(3000, 250), q(3000, 250)),
		leg(bus, 600, q(12000, 200)), leg(bus, 600, q(6000, 200), q(6000, 200)), leg(bus, 0, [2]float64{4000, 0}, [2]float64{4000, 0}), leg(bus, 0, [2]float64{4000, 0}, [2]float64{4000, 120}), leg(bus, 0, [2]float64{4000, 0}, [2]float64{4000, 600}), leg(bus, 0, [2]float64{2000, 0}, [2]float64{2000, 60}, [2]float64{2000, 0}),
		leg(bus, 0, [2]float64{4000, 0}, [2]float64{2000, 0}, [2]float64{9000, 600}), leg(bus, 0, [2]float64{5000, 0}, [2]float64{4000, 0}, [2]float64{9000, 600}), leg(rail, 0, [2]float64{8000, 0}), leg(rail, 0, [2]float64{9000, 0}), leg(rail, 0, [2]float64{7500, 0}, [2]float64{1500, 600}),
		untime(leg(bus, 0, q(6000, 200), q(6000, 200)), 1), untime(leg(bus, 0, q(4500, 200), q(4500, 200)), 1), untime(leg(bus, 0, q(4500, 120), q(4500, 120)), 1), untime(leg(bus, 0, q(3000, 200), q(3000, 200), q(3000, 200)), 1, 2), untime(leg(bus, 0, q(1000, 20), q(4500, 200), q(4500, 200)), 2),
		untime(leg(bus, 0, q(9000, 200), q(4500, 20)), 0), untime(leg(bus, 0, q(9000, 20), q(9000, 200)), 2), untime(leg(bus, 0, q(9000, 200), q(9000, 200)), 0, 1), untime(leg(bus, 0, q(9000, 100), q(4000, 100), q(6000, 100), q(6000, 400)), 2), untime(leg(bus, 0, [2]float64{4000, 0}, [2]float64{4000, 0}), 1),
		leg(tram, 20, q(9000, 90), q(8000, 80), q(7600, 120)), leg(tram, 20, q(500, 20), q(700, 30), q(9900, 120), q(300, 20)), leg(tram, 0, q(9000, 80), q(2000, 300)), leg(tram, 0, q(2000, 300), q(9000, 80)), leg(tram, 0, q(9000, 95), q(2000, 300), q(500, 20)),
	}
	early := leg(bus, 0, q(6000, 170), q(6000, 170)) // waits at its first stop only
	early.arr[0] -= 600
	frequent, often := cases[2], leg(bus, 0, q(8000, 200))
	frequent.freq, often.freq = true, true
	calm := cases[4]
	calm.freq = true
	cases = append(cases, leg(bus, 0, [2]float64{1900, 20}, [2]float64{7500, 190}), early, frequent, often, calm)
	for i, c := range cases {
		add(fmt.Sprintf("trip %d", i), 3, c)
	}
	add("several trips in any order", 2, cases[2], cases[4], cases[9])
	add("several trips", 3, cases[0], cases[2], cases[29], cases[3], cases[30], cases[8])
	n := 30
	if tier == "thorough" {
		n = 300
	}
	rng := rand.New(rand.NewSource(31))
	for i := 0; i < n; i++ {
		var ls [][2]float64
		typ := []int64{0, 1, 2, 3, 4, 5, 6, 7, 11, 12}[rng.Intn(10)]
		for j := 0; j < 2+rng.Intn(3); j++ {
			m := float64(500 * (1 + rng.Intn(22)))
			l := q(m, speedLimits[typ]*(0.7+0.5*rng.Float64()))
			if rng.Intn(6) == 0 && typ != 2 {
				l[1] = 0
			}
			ls = append(ls, l)
		}
		c := leg(typ, int64(20*rng.Intn(3)), ls...)
		if rng.Intn(2) == 0 {
			c = untime(c, rng.Intn(len(c.arr)))
		}
		add(fmt.Sprintf("random trip %d", i), 3, c)
	}
	return
}

func c31Jobs(P *Program, tier string) (jobs []Job) {
	for _, sc := range fastScens(tier) {
		sc := sc
		key := "C31:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { runNum(P, r, key, sc) }})
	}
	return
}

func init() {
	register("C31", 60, "Path-sensitive abstract interpretation of TooFastTripRemover.Run on trips at known places and times: trips left in the feed and all their attributes at every end.", func(P *Program, r *Result, tier string) {
		runJobs(r, c31Jobs(P, tier))
	})
}
