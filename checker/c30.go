package main

import (
	"fmt"
	"go/types"
	"math"
	"math/rand"
)

// C30: snapping of stops to shapes, on trips at known places.

type snapCase struct {
	pts   []xy
	smeas []float64 // measurements of the points
	stops []xy
	meas  []float64 // of the stop times
}

// placesOf: where a stop time may belong on the shape.
func (c snapCase) placesOf(i int) (out []xy) {
	m := c.meas[i]
	if m != unm {
		for j := 0; j+1 < len(c.pts); j++ {
			a, b := c.smeas[j], c.smeas[j+1]
			if a == unm || b == unm || m < a || m > b {
				continue
			}
			if a == b {
				return append(out, c.pts[j], c.pts[j+1])
			}
			t := (m - a) / (b - a)
			out = append(out, xy{c.pts[j][0] + t*(c.pts[j+1][0]-c.pts[j][0]), c.pts[j][1] + t*(c.pts[j+1][1]-c.pts[j][1])})
		}
		if len(out) > 0 {
			return out
		}
	}
	cs, _ := stopCands(c.pts, make([]float64, len(c.pts)), c.stops[i], math.Inf(1))
	best := math.Inf(1)
	for _, q := range cs {
		best = math.Min(best, q.dist)
	}
	for _, q := range cs {
		if q.dist < best+0.5 {
			a, b := c.pts[q.seg], c.pts[q.seg+1]
			out = append(out, xy{a[0] + q.prog*(b[0]-a[0]), a[1] + q.prog*(b[1]-a[1])})
		}
	}
	if len(c.pts) == 1 {
		out = append(out, c.pts[0])
	}
	return
}

func snapScens(tier string) (out []numScen) {
	add := func(name string, order int, cs ...snapCase) {
		for _, c := range cs {
			for i, p := range c.stops {
				pl := c.placesOf(i)
				for _, q := range pl {
					// both sides of the limit, or different places, would be right
					d := math.Hypot(p[0]-q[0], p[1]-q[1])
					if math.Abs(d-100) < 3 || (d > 100) != (math.Hypot(p[0]-pl[0][0], p[1]-pl[0][1]) > 100) {
						return
					}
				}
			}
		}
		out = append(out, numScen{name: name, typ: "ShapeSnapper", order: order, cfg: func(h *Heap) map[string]*V {
			return map[string]*V{"MaxDist": h.e.floatConst(100, types.Typ[types.Float64])}
		}, build: func(h *Heap) func(s *State) []string {
			b := h.tripBase()
			sv := h.service("S0", cal{from: 0, to: 6, days: 127})
			var trips []*Ent
			var orig [][]*V
			same := map[xy]*V{}
			for i, c := range cs {
				sh := h.measured(fmt.Sprintf("sh%d", i), c.pts, c.smeas)
				t := h.tripAt(b, sv, fmt.Sprintf("t%d", i), c.stops, c.meas, sh)
				trips = append(trips, t)
				own, _ := h.stNow(h.s, t, "stop")
				for j, p := range c.stops {
					if same[p] == nil {
						same[p] = own[j]
					}
					setSt(h, t, j, "stop", same[p])
				}
				st, _ := h.stNow(h.s, t, "stop")
				orig = append(orig, st)
				for j, o := range st {
					if o.K == KObj {
						h.AddField("StopsAddFlds", fmt.Sprintf("col%d.%d", i, j), h.getF(h.s, o, "Stop", "Id"), h.e.Str(fmt.Sprintf("val%d.%d", i, j)))
					}
				}
			}
			alone := h.tripAt(b, sv, "alone", []xy{{0, 0}, {9000, 0}}, []float64{unm, unm}, nil)
			origAlone, _ := h.stNow(h.s, alone, "stop")
			for _, en := range h.ents {
				if en.kind == "Stop" && h.s.mem[h.e.FieldAddr(en.obj, "Lat")] == nil {
					h.setPlace(en, 7000, 0)
				}
			}
			_, old, _ := h.stopAttrs(h.s)
			return func(s *State) (probs []string) {
				_, at, ok := h.stopAttrs(s)
				if !ok {
					return []string{"the stops of the feed are undetermined"}
				}
				probs = h.stopsChanged(s, old, nil)
				used := map[string]bool{}
				for i, c := range cs {
					now, ok := h.stNow(s, trips[i], "stop")
					if !ok || len(now) != len(c.stops) {
						probs = append(probs, "the stop times are undetermined or not the same number")
						continue
					}
					for j, o := range now {
						pl := c.placesOf(j)
						what := fmt.Sprintf("stop time %d at %v, measured %g, of a trip on shape %v (%v)", j, c.stops[j], c.meas[j], c.pts, c.smeas)
						moves := len(pl) > 0 && math.Hypot(c.stops[j][0]-pl[0][0], c.stops[j][1]-pl[0][1]) > 100
						if o == orig[i][j] {
							if moves {
								probs = append(probs, what+" is not snapped")
							}
							continue
						}
						n := at[stopKey(o)]
						switch {
						case !moves:
							probs = append(probs, what+" gets another stop")
							continue
						case n == nil:
							probs = append(probs, what+" gets a stop that is not in the feed")
							continue
						case old[stopKey(o)] != nil:
							probs = append(probs, what+" gets a stop that was there before")
							continue
						}
						used[stopKey(o)] = true
						lat, ok1 := constFloat(n["Lat"])
						lon, ok2 := constFloat(n["Lon"])
						fits := false
						for _, q := range pl {
							x, y := place(q[0], q[1])
							fits = fits || ok1 && ok2 && metres(lat, lon, x, y) < 2.5
						}
						if !fits {
							probs = append(probs, fmt.Sprintf("%s is snapped to %g,%g, which is not its place on the shape", what, lat, lon))
						}
						for _, f := range h.fields("Stop") {
							switch f.Name() {
							case "Id", "Lat", "Lon":
							default:
								if w := old[stopKey(orig[i][j])][f.Name()]; n[f.Name()] != w {
									probs = append(probs, fmt.Sprintf("%s gets a stop with %s %s instead of %s", what, f.Name(), nm(n[f.Name()]), nm(w)))
								}
							}
						}
						m := h.FeedMap("StopsAddFlds")
						inner := s.mem[h.e.EntryAddr(m, h.e.Str(fmt.Sprintf("col%d.%d", i, j)))]
						if inner == nil || s.mem[h.e.EntryAddr(inner, n["Id"])] != h.e.Str(fmt.Sprintf("val%d.%d", i, j)) {
							probs = append(probs, what+" gets a stop without the non-standard fields")
						}
					}
				}
				if now, ok := h.stNow(s, alone, "stop"); !ok || now[0] != origAlone[0] || now[1] != origAlone[1] {
					probs = append(probs, "the stops of a trip without shape change")
				}
				if len(at) != len(old)+len(used) {
					probs = append(probs, fmt.Sprintf("the feed has %d stops, but %d trips were snapped to new ones", len(at)-len(old), len(used)))
				}
				return
			}
		}})
	}
	u := float64(unm)
	line := []xy{{0, 0}, {0, 1000}, {0, 2000}, {0, 4000}}
	ell := []xy{{0, 0}, {0, 1000}, {1500, 1000}, {1500, 3000}}
	lm := []float64{0, 1000, 2000, 4000}
	em := []float64{0, 1, 2.5, 4.5}
	no := []float64{u, u, u, u}
	cases := []snapCase{
		{line, no, []xy{{20, 500}, {-90, 1500}, {0, 3990}}, []float64{u, u, u}},
		{line, no, []xy{{20, 500}, {-190, 1500}, {0, 3990}}, []float64{u, u, u}},
		{line, no, []xy{{220, 500}, {110, 1500}, {0, 4200}}, []float64{u, u, u}},
		{line, no, []xy{{0, -300}, {0, 500}, {-400, -300}}, []float64{u, u, u}},
		{line, lm, []xy{{0, 0}, {500, 1400}, {0, 4000}}, []float64{0, 1500, 4000}},
		{line, lm, []xy{{0, 1200}, {0, 1520}, {0, 4000}}, []float64{1500, 1500, 4000}},
		{line, lm, []xy{{0, 300}, {0, 1520}, {0, 3500}}, []float64{450, 1600, 4000}},
		{line, lm, []xy{{150, 300}, {150, 1520}, {150, 3500}}, []float64{u, u, u}},
		{line, lm, []xy{{150, 300}, {150, 4100}}, []float64{u, 5000}},
		{ell, em, []xy{{0, 0}, {700, 700}, {1500, 2500}}, []float64{0, 1.7, 4}},
		{ell, em, []xy{{150, 800}, {120, 900}, {1350, 1150}}, []float64{u, u, u}},
		{ell, em, []xy{{0, 900}, {10, 900}, {1500, 1500}}, []float64{0.5, 0.92, 4.4}},
		{[]xy{{0, 0}, {0, 0}, {0, 1000}, {0, 1000}}, []float64{0, 0, 9, 9}, []xy{{300, 0}, {-300, 500}, {0, 1300}}, []float64{0, 4.5, 9}},
		{[]xy{{0, 0}, {0, 1000}, {0, 2000}}, []float64{5, 5, 5}, []xy{{300, 0}}, []float64{u}},
		{[]xy{{0, 0}, {0, 1000}, {0, 1000}, {0, 2000}}, []float64{0, 5, 5, 9}, []xy{{300, 1000}, {0, 1090}}, []float64{5, 5}},
		{[]xy{{0, 0}}, []float64{0}, []xy{{300, 0}, {50, 0}}, []float64{u, u}},
		{[]xy{{0, 0}}, []float64{u}, []xy{{300, 0}}, []float64{3}},
		{[]xy{{0, 0}, {0, 1000}}, []float64{u, u}, []xy{{300, 500}, {0, 500}}, []float64{3, 4}},
		{[]xy{{0, 0}, {0, 1000}}, []float64{0, 8}, []xy{{0, 500}, {0, 800}}, []float64{2, 6}},
		{line, lm, []xy{{300, 1500}, {300, 1500}}, []float64{1100, 1900}},
		{line, lm, []xy{{300, 1500}, {300, 1500}, {300, 1500}}, []float64{u, 1500, 3000}},
		{line, lm, []xy{{10, 1500}, {10, 1500}, {10, 1500}}, []float64{1450, 3000, u}},
		{[]xy{{0, 0}, {0, 1000}, {0, 2000}}, []float64{u, 1, 2}, []xy{{150, 300}, {150, 1500}}, []float64{0.5, 1.5}},
	}
	n := 8
	if tier == "thorough" {
		n = 100
	}
	rng := rand.New(rand.NewSource(31))
	for i := 0; i < n; i++ {
		at := xy{}
		c := snapCase{}
		m := 0.0
		for j := 0; j < 2+rng.Intn(4); j++ {
			c.pts = append(c.pts, at)
			mm := m
			if rng.Intn(6) == 0 {
				mm = u
			}
			c.smeas = append(c.smeas, mm)
			k := rng.Intn(2)
			l := float64(200 * (1 + rng.Intn(5)))
			at[k] += l
			m += l / 100
		}
		for j := 0; j < 2; j++ {
			k := rng.Intn(len(c.pts) - 1)
			f := float64(rng.Intn(101)) / 100
			p := xy{c.pts[k][0] + f*(c.pts[k+1][0]-c.pts[k][0]), c.pts[k][1] + f*(c.pts[k+1][1]-c.pts[k][1])}
			c.stops = append(c.stops, xy{p[0] + float64(rng.Intn(400)-200), p[1] + float64(rng.Intn(400)-200)})
			x := u
			if rng.Intn(2) == 0 {
				x = math.Round(m*rng.Float64()*8) / 8
			}
			c.meas = append(c.meas, x)
		}
		cases = append(cases, c)
	}
	for i, c := range cases {
		add(fmt.Sprintf("trip %d", i), 1, c)
	}
	add("several trips", 3, cases[1], cases[2], cases[4])
	add("trips in any order", 2, cases[1], cases[8])
	add("same stop on two shapes", 2, snapCase{line, no, []xy{{400, 1500}}, []float64{u}}, snapCase{ell, em, []xy{{400, 1500}}, []float64{u}})
	add("same stop on two trips", 2, snapCase{line, lm, []xy{{400, 1500}}, []float64{900}}, snapCase{line, lm, []xy{{400, 1500}}, []float64{2500}})
	add("same stop near one shape", 2, snapCase{line, lm, []xy{{50, 1500}}, []float64{1500}}, snapCase{ell, em, []xy{{50, 1500}}, []float64{u}})
	return
}

func c30Jobs(P *Program, tier string) (jobs []Job) {
	for _, sc := range snapScens(tier) {
		sc := sc
		key := "C30:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { runNum(P, r, key, sc) }})
	}
	return
}

func init() {
	register("C30", 20, "Path-sensitive abstract interpretation of ShapeSnapper.Run on trips and shapes at known places, measured or not: stop of every stop time, places and attributes of new stops, and all other stops at every end.", func(P *Program, r *Result, tier string) {
		runJobs(r, c30Jobs(P, tier))
	})
}
