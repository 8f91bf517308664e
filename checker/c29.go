package main

import (
	"fmt"
	"go/types"
	"math"
	"math/rand"
)

// C29: measuring of shapes and stop times, C30: snapping of stops to shapes. Places and measurements are known numbers.

const unm = -1 // not measured

type xy [2]float64 // metres north and east

// measured adds a shape with points at places with measurements.
func (h *Heap) measured(name string, pts []xy, meas []float64) *Ent {
	sh := h.geoShape(name, len(pts))
	l := h.s.mem[h.e.FieldAddr(sh.obj, "Points")]
	for i, p := range pts {
		at := h.e.ElemAddr(l.Args[0], h.e.Int(int64(i)))
		lat, lon := place(p[0], p[1])
		h.s.mem[h.e.FieldAddr(at, "Lat")] = h.f32(lat)
		h.s.mem[h.e.FieldAddr(at, "Lon")] = h.f32(lon)
		h.s.mem[h.e.FieldAddr(at, "Dist_traveled")] = h.meas(meas[i])
	}
	return sh
}

func (h *Heap) meas(m float64) *V {
	if m == unm {
		return h.e.Term("nan", types.Typ[types.Float32])
	}
	return h.f32(m)
}

// distances along the shape.
func along(pts []xy) (d []float64) {
	sum := 0.0
	for i, p := range pts {
		if i > 0 {
			a, b := place(pts[i-1][0], pts[i-1][1])
			x, y := place(p[0], p[1])
			sum += metres(a, b, x, y)
		}
		d = append(d, sum)
	}
	return
}

// wantMeasures: the measurements after remeasuring, and whether a decreasing one was to be avoided before the first.
func wantMeasures(pts []xy, meas []float64, force bool) []float64 {
	d := along(pts)
	out := append([]float64(nil), meas...)
	last, n, rate, c := -1, 0, 0.0, 0
	for i, m := range meas {
		if m == unm {
			continue
		}
		m = float64(float32(m))
		n++
		if last >= 0 && d[i] > d[last] {
			r := (m - float64(float32(meas[last]))) / (d[i] - d[last])
			rate += r
			c++
			for j := last + 1; j < i; j++ {
				out[j] = float64(float32(meas[last])) + r*(d[j]-d[last])
			}
		}
		last = i
	}
	if c > 0 {
		rate /= float64(c)
	}
	switch {
	case n == 0:
		rate = 1
	case rate == 0 && force:
		rate = 1
	case rate == 0:
		for i := range out {
			out[i] = unm
		}
		return out
	}
	first := -1
	for i, m := range meas {
		if m != unm {
			first = i
			break
		}
	}
	for i := range out {
		if out[i] != unm {
			continue
		}
		switch {
		case first < 0 || i < first:
			r := rate
			if first >= 0 && d[first] > 0 && r*d[first] > meas[first] {
				r = meas[first] / d[first]
			}
			out[i] = r * d[i]
		default:
			j := i
			for meas[j] == unm {
				j--
			}
			out[i] = float64(float32(meas[j])) + rate*(d[i]-d[j])
		}
	}
	return out
}

func near(v *V, want float64) bool {
	f, ok := constFloat(v)
	return ok && math.Abs(f-want) <= 1e-3+2e-4*math.Abs(want)
}

// shapeNow gives the measurements and the places of a shape.
func (h *Heap) shapeNow(s *State, sh *Ent, field string) ([]*V, bool) {
	l := h.Get(s, sh, "Points")
	if l == nil || l.K != KSlice {
		return nil, false
	}
	n, ok := l.Args[2].intVal()
	off, ok2 := l.Args[1].intVal()
	if !ok || !ok2 {
		return nil, false
	}
	var out []*V
	for i := int64(0); i < n; i++ {
		st := h.gtfsType("ShapePoint").Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == field {
				out = append(out, h.e.load(s, h.e.FieldAddr(h.e.ElemAddr(l.Args[0], h.e.Int(off+i)), field), st.Field(j).Type()))
			}
		}
	}
	return out, true
}

// stNow gives one attribute of the stop times of a trip.
func (h *Heap) stNow(s *State, t *Ent, field string) ([]*V, bool) {
	l := h.Get(s, t, "StopTimes")
	if l == nil || l.K != KSlice {
		return nil, false
	}
	n, ok := l.Args[2].intVal()
	off, ok2 := l.Args[1].intVal()
	if !ok || !ok2 {
		return nil, false
	}
	var out []*V
	for i := int64(0); i < n; i++ {
		st := stT(h).Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == field {
				out = append(out, h.e.load(s, h.e.FieldAddr(h.e.ElemAddr(l.Args[0], h.e.Int(off+i)), field), st.Field(j).Type()))
			}
		}
	}
	return out, true
}

// coreTripAt adds a trip over the given places with measured stop times.
func (h *Heap) tripAt(b *tripBase, sv *Ent, name string, places []xy, meas []float64, shape *Ent) *Ent {
	bb := *b
	bb.stops = nil
	for i, p := range places {
		st := mkStop(h, fmt.Sprintf("%s.%d", name, i), 0, nil)
		h.setPlace(st, p[0], p[1])
		bb.stops = append(bb.stops, st)
	}
	t := h.trip(&bb, name, b.route, sv, 8*3600)
	for i := range places {
		setSt(h, t, i, "shape_dist_traveled", h.meas(meas[i]))
	}
	h.Set(t, "Shape", h.e.Nil(h.fieldType("Trip", "Shape")))
	if shape != nil {
		h.Set(t, "Shape", shape.obj)
	}
	return t
}

func fmtMeas(vs []*V) string {
	s := ""
	for _, v := range vs {
		if f, ok := constFloat(v); ok {
			s += fmt.Sprintf(" %g", f)
		} else if isNaN(v) {
			s += " -"
		} else {
			s += " " + v.String()
		}
	}
	return s
}

type measCase struct {
	pts  []xy
	meas []float64
}

func shapeScens(tier string) (out []numScen) {
	line := func(n int) (ps []xy) {
		at := xy{}
		for i := 0; i < n; i++ {
			ps = append(ps, at)
			switch i % 3 {
			case 0:
				at[1] += 300
			case 1:
				at[0] += 450
			default:
				at[0] += 100
				at[1] -= 200
			}
		}
		return
	}
	add := func(name string, force bool, ncpu int64, cs ...measCase) {
		out = append(out, numScen{name: fmt.Sprintf("%s, force %t, %d workers", name, force, ncpu), typ: "ShapeRemeasurer", cfg: func(h *Heap) map[string]*V {
			return map[string]*V{"Force": h.e.Bool(force)}
		}, build: func(h *Heap) func(s *State) []string {
			h.ncpu = ncpu
			b := h.tripBase()
			sv := h.service("S0", cal{from: 0, to: 6, days: 127})
			var shs, trips []*Ent
			var wantSt [][]float64
			for i, c := range cs {
				sh := h.measured(fmt.Sprintf("sh%d", i), c.pts, c.meas)
				shs = append(shs, sh)
				w := wantMeasures(c.pts, c.meas, force)
				end := w[len(w)-1]
				ms := []float64{unm, 1, end, end + 7, end + 7}
				if end == unm {
					ms = []float64{unm, 1, 2, 3, 3}
				}
				want := append([]float64(nil), ms...)
				if end != unm {
					want[1] = math.Min(1, end)
					want[3], want[4] = end, end
				}
				wantSt = append(wantSt, want)
				trips = append(trips, h.tripAt(b, sv, fmt.Sprintf("t%d", i), []xy{{0, 0}, {10, 0}, {20, 0}, {30, 0}, {40, 0}}, ms, sh))
			}
			alone := h.tripAt(b, sv, "alone", []xy{{0, 0}, {10, 0}}, []float64{1e6, 2e6}, nil)
			return func(s *State) (probs []string) {
				for i, c := range cs {
					want := wantMeasures(c.pts, c.meas, force)
					got, ok := h.shapeNow(s, shs[i], "Dist_traveled")
					if !ok || len(got) != len(want) {
						probs = append(probs, "the points of a shape are undetermined or not the same number")
						continue
					}
					lat, _ := h.shapeNow(s, shs[i], "Lat")
					lon, _ := h.shapeNow(s, shs[i], "Lon")
					prev := 0.0
					for j, v := range got {
						x, y := place(c.pts[j][0], c.pts[j][1])
						if lat[j] != h.f32(x) || lon[j] != h.f32(y) {
							probs = append(probs, fmt.Sprintf("point %d of shape %d is moved", j, i))
						}
						switch {
						case want[j] == unm:
							if !isNaN(v) {
								probs = append(probs, fmt.Sprintf("point %d of a shape with measurements %v, which give no rate, is measured %s", j, c.meas, fmtMeas(got)))
							}
						case c.meas[j] != unm && v != h.f32(c.meas[j]):
							probs = append(probs, fmt.Sprintf("measurement %d of %v changes to %s", j, c.meas, fmtMeas(got)))
						case !near(v, want[j]):
							probs = append(probs, fmt.Sprintf("a shape with measurements %v at distances %.1f is measured%s, point %d should be at %g", c.meas, along(c.pts), fmtMeas(got), j, want[j]))
						default:
							f, _ := constFloat(v)
							if f < prev {
								probs = append(probs, fmt.Sprintf("a shape with measurements %v is measured%s, which decreases at point %d", c.meas, fmtMeas(got), j))
							}
							prev = f
						}
					}
					st, ok := h.stNow(s, trips[i], "shape_dist_traveled")
					if !ok {
						probs = append(probs, "stop times undetermined")
						continue
					}
					for j, v := range st {
						if wantSt[i][j] == unm && !isNaN(v) || wantSt[i][j] != unm && !near(v, wantSt[i][j]) {
							probs = append(probs, fmt.Sprintf("stop time %d of a trip on a shape measured%s is measured%s, it should be at %g", j, fmtMeas(got), fmtMeas(st), wantSt[i][j]))
						}
						if wantSt[i][j] != unm && want[len(want)-1] != unm {
							x, _ := constFloat(v)
							y, _ := constFloat(got[len(got)-1])
							if x > y {
								probs = append(probs, fmt.Sprintf("stop time %d at %g lies behind the end of the shape at %g", j, x, y))
							}
						}
					}
				}
				if st, ok := h.stNow(s, alone, "shape_dist_traveled"); !ok || st[0] != h.f32(1e6) || st[1] != h.f32(2e6) {
					probs = append(probs, "the stop times of a trip without shape are measured")
				}
				return
			}
		}})
	}
	u := float64(unm)
	cases := []measCase{
		{line(4), []float64{u, u, u, u}}, {line(1), []float64{u}}, {line(1), []float64{5}}, {line(2), []float64{u, u}}, {line(2), []float64{0, u}}, {line(2), []float64{u, 7}}, {line(2), []float64{3, 7}},
		{line(4), []float64{0, 300, 750, 1000}}, {line(4), []float64{0, u, u, 10}}, {line(4), []float64{2, u, 9, u}}, {line(4), []float64{0, 1, 2, u}}, {line(5), []float64{0, 1, 2, u, u}}, {line(5), []float64{u, 300, 750, u, u}},
		{line(5), []float64{u, u, 800, 1000, u}}, {line(5), []float64{u, u, 0.5, 1, 1.5}}, {line(5), []float64{u, u, 0, 10, 20}}, {line(5), []float64{u, u, u, 0.25, 40}}, {line(4), []float64{u, u, 5, u}}, {line(4), []float64{u, 0, u, u}},
		{line(4), []float64{0, 0, u, 0}}, {line(4), []float64{3, u, 3, u}}, {line(6), []float64{0, u, 3, u, u, 4}}, {line(6), []float64{0, u, 3, u, 3, u}}, {line(6), []float64{1, 1, u, 2, u, u}}, {line(6), []float64{u, 1000, u, 2000, u, u}},
		{[]xy{{0, 0}, {0, 0}, {0, 400}, {0, 400}, {0, 400}}, []float64{u, 0, 1, u, u}}, {[]xy{{0, 0}, {0, 400}, {0, 400}, {0, 400}, {0, 800}}, []float64{0, 1, u, 1.5, u}}, {[]xy{{0, 0}, {0, 400}, {0, 0}, {0, 400}}, []float64{0, u, u, 3}},
		{[]xy{{0, 0}, {0, 0}, {0, 0}}, []float64{1, u, 2}}, {[]xy{{0, 0}, {0, 0}, {0, 0}}, []float64{u, u, 2}}, {[]xy{{0, 0}, {0, 0}, {100, 0}}, []float64{u, u, 2}},
	}
	n := 12
	if tier == "thorough" {
		n = 150
	}
	rng := rand.New(rand.NewSource(29))
	for i := 0; i < n; i++ {
		k := 3 + rng.Intn(4)
		c := measCase{}
		m := float64(rng.Intn(3))
		for j := 0; j < k; j++ {
			c.pts = append(c.pts, xy{float64(100 * rng.Intn(8)), float64(100 * rng.Intn(8))})
			m += float64(rng.Intn(9)) / 2
			if rng.Intn(5) < 2 {
				c.meas = append(c.meas, m)
			} else {
				c.meas = append(c.meas, u)
			}
		}
		cases = append(cases, c)
	}
	for i, c := range cases {
		add(fmt.Sprintf("shape %d", i), i%2 == 0, 1, c)
		add(fmt.Sprintf("shape %d", i), i%2 == 1, 1, c)
	}
	add("no shapes", false, 2)
	add("three shapes", false, 2, cases[3], cases[9], cases[19])
	add("four shapes", true, 3, cases[10], cases[0], cases[20], cases[13])
	add("three shapes", false, 4, cases[11], cases[12], cases[8])
	return
}

// A cand is a place on the shape near a stop.
type mcand struct {
	seg        int
	prog, dist float64
	meas       float64
}

func stopCands(pts []xy, meas []float64, p xy, rad float64) (cs []mcand, clear bool) {
	clear = true
	for i := 0; i+1 < len(pts); i++ {
		a, b := pts[i], pts[i+1]
		l2 := (b[0]-a[0])*(b[0]-a[0]) + (b[1]-a[1])*(b[1]-a[1])
		t := 0.0
		if l2 > 0 {
			t = math.Min(1, math.Max(0, ((p[0]-a[0])*(b[0]-a[0])+(p[1]-a[1])*(b[1]-a[1]))/l2))
		}
		d := math.Hypot(p[0]-a[0]-t*(b[0]-a[0]), p[1]-a[1]-t*(b[1]-a[1]))
		if math.Abs(d-rad) < 4 {
			clear = false
		}
		if d <= rad {
			cs = append(cs, mcand{i, t, d, meas[i] + (meas[i+1]-meas[i])*t})
		}
	}
	return
}

// bestPlaces: the smallest sum of distances of places in order along the shape.
func bestPlaces(cands [][]mcand) (float64, bool) {
	cost := map[int]float64{}
	for i, cs := range cands {
		next := map[int]float64{}
		for j, c := range cs {
			best := math.Inf(1)
			if i == 0 {
				best = 0
			}
			for k, q := range cands[max(i-1, 0)] {
				if v, ok := cost[k]; ok && i > 0 && (q.seg < c.seg || q.seg == c.seg && q.prog <= c.prog+1e-9) {
					best = math.Min(best, v)
				}
			}
			if !math.IsInf(best, 1) {
				next[j] = best + c.dist
			}
		}
		cost = next
	}
	best := math.Inf(1)
	for _, v := range cost {
		best = math.Min(best, v)
	}
	return best, !math.IsInf(best, 1)
}

type stopCase struct {
	pts   []xy
	scale float64
	stops []xy
	meas  []float64
	shape bool
}

func stopTimeScens(tier string) (out []numScen) {
	add := func(name string, ncpu int64, cs ...stopCase) {
		for _, c := range cs {
			for _, p := range c.stops {
				if _, clear := stopCands(c.pts, make([]float64, len(c.pts)), p, 250); !clear {
					return
				}
			}
		}
		out = append(out, numScen{name: fmt.Sprintf("%s, %d workers", name, ncpu), typ: "StopTimeRemeasurer", order: 1, build: func(h *Heap) func(s *State) []string {
			h.ncpu = ncpu
			b := h.tripBase()
			sv := h.service("S0", cal{from: 0, to: 6, days: 127})
			var trips []*Ent
			var ms [][]float64
			for i, c := range cs {
				var m []float64
				for _, d := range along(c.pts) {
					m = append(m, float64(float32(d*c.scale)))
				}
				ms = append(ms, m)
				var sh *Ent
				if c.shape {
					sh = h.measured(fmt.Sprintf("sh%d", i), c.pts, m)
				}
				trips = append(trips, h.tripAt(b, sv, fmt.Sprintf("t%d", i), c.stops, c.meas, sh))
			}
			return func(s *State) (probs []string) {
				for i, c := range cs {
					got, ok := h.stNow(s, trips[i], "shape_dist_traveled")
					if !ok || len(got) != len(c.stops) {
						probs = append(probs, "the stop times are undetermined or not the same number")
						continue
					}
					var cands [][]mcand
					todo := false
					for j, p := range c.stops {
						x, _ := stopCands(c.pts, ms[i], p, 250)
						cands = append(cands, x)
						todo = todo || c.meas[j] == unm
					}
					best, found := bestPlaces(cands)
					if !c.shape || !todo || !found {
						for j := range got {
							if got[j] != h.meas(c.meas[j]) {
								probs = append(probs, fmt.Sprintf("trip %d: stop times measured %v, which are not to be measured, become%s", i, c.meas, fmtMeas(got)))
								break
							}
						}
						continue
					}
					sum, prev, fits := 0.0, math.Inf(-1), true
					for j, v := range got {
						f, isC := constFloat(v)
						if !isC {
							probs = append(probs, fmt.Sprintf("trip %d: stop time %d is not measured (%s)", i, j, v))
							fits = false
							break
						}
						d := math.Inf(1)
						for _, q := range cands[j] {
							if math.Abs(q.meas-f) < c.scale {
								d = math.Min(d, q.dist)
							}
						}
						if math.IsInf(d, 1) {
							probs = append(probs, fmt.Sprintf("trip %d: stop time %d at %v is measured %g, where the shape %v (%v) is not near it", i, j, c.stops[j], f, c.pts, ms[i]))
							fits = false
							break
						}
						sum += d
						if f < prev {
							probs = append(probs, fmt.Sprintf("trip %d: stop times at %v on shape %v are measured%s, which decreases", i, c.stops, c.pts, fmtMeas(got)))
							fits = false
							break
						}
						prev = f
					}
					if fits && sum > best+2*float64(len(got)) {
						probs = append(probs, fmt.Sprintf("trip %d: stop times at %v on shape %v are measured%s, %.0f m off in total although %.0f m is possible", i, c.stops, c.pts, fmtMeas(got), sum, best))
					}
				}
				return
			}
		}})
	}
	u := float64(unm)
	un := func(n int) (m []float64) {
		for i := 0; i < n; i++ {
			m = append(m, u)
		}
		return
	}
	line := []xy{{0, 0}, {0, 1000}, {0, 2000}, {0, 4000}}
	ell := []xy{{0, 0}, {0, 1000}, {1500, 1000}, {1500, 3000}}
	back := []xy{{0, 0}, {0, 1000}, {0, 2000}, {0, 1000}, {0, 0}}
	loop := []xy{{0, 0}, {0, 1000}, {1000, 1000}, {1000, 0}, {0, 0}}
	down := []xy{{3000, 0}, {1000, 0}, {1000, -800}, {-500, -800}}
	dup := []xy{{0, 0}, {0, 0}, {0, 1000}, {0, 1000}, {900, 1000}, {900, 1000}}
	short := []xy{{0, 0}, {0, 400}}
	laps := []xy{{0, 0}, {0, 1000}, {900, 1000}, {900, -200}, {220, -200}, {220, 2000}}
	cases := []stopCase{
		{line, 1, []xy{{10, 5}, {-20, 1500}, {0, 3990}}, un(3), true},
		{line, 0.001, []xy{{10, 5}, {-20, 1500}, {0, 3990}}, un(3), true},
		{line, 1, []xy{{10, 5}, {-20, 1500}, {0, 3990}}, []float64{0, u, 4000}, true},
		{line, 1, []xy{{10, 5}, {-20, 1500}, {0, 3990}}, []float64{7, 8, 9}, true},
		{line, 1, []xy{{10, 5}, {-20, 1500}, {0, 3990}}, un(3), false},
		{line, 1, []xy{{10, 5}, {-320, 1500}, {0, 3990}}, []float64{0, 1, u}, true},
		{line, 1, []xy{{10, 5}, {240, 1500}, {-230, 3990}}, un(3), true},
		{line, 1, []xy{{0, -300}, {0, 500}}, un(2), true},
		{line, 1, []xy{{0, -200}, {0, 500}, {0, 4200}}, un(3), true},
		{line, 1, []xy{{0, 2500}, {0, 500}}, []float64{u, 3}, true},
		{line, 1, []xy{{0, 2500}, {0, 2490}}, []float64{u, 3}, true},
		{line, 1, []xy{{0, 500}, {50, 500}, {0, 500}}, un(3), true},
		{line, 1, []xy{{0, 1000}, {0, 2000}}, un(2), true},
		{line, 1, []xy{{0, 600}}, un(1), true},
		{ell, 1, []xy{{5, 100}, {100, 900}, {700, 1010}, {1490, 2900}}, un(4), true},
		{ell, 1, []xy{{5, 900}, {100, 990}, {1400, 1100}, {1490, 1300}}, un(4), true},
		{ell, 2, []xy{{200, 800}, {180, 830}}, un(2), true},
		{ell, 1, []xy{{30, 950}, {5, 850}}, un(2), true},
		{back, 1, []xy{{0, 300}, {0, 1900}, {0, 300}}, un(3), true},
		{back, 1, []xy{{3, 300}, {0, 1200}, {0, 1200}, {-3, 300}}, un(4), true},
		{back, 1, []xy{{0, 1200}, {0, 300}}, un(2), true},
		{loop, 1, []xy{{0, 0}, {500, 1010}, {0, 0}}, un(3), true},
		{loop, 1, []xy{{0, 0}, {990, 500}, {10, -10}}, un(3), true},
		{loop, 1, []xy{{600, 0}, {0, 500}}, un(2), true},
		{down, 1, []xy{{2900, 10}, {1100, -50}, {950, -600}, {-400, -790}}, un(4), true},
		{dup, 1, []xy{{0, 0}, {0, 990}, {10, 1000}, {890, 1000}}, un(4), true},
		{short, 1, []xy{{0, 350}, {0, 390}, {0, 480}}, un(3), true},
		{laps, 1, []xy{{220, 200}, {90, 700}, {220, 1800}}, un(3), true},
		{laps, 1, []xy{{0, 200}, {120, 700}, {20, 900}}, un(3), true},
		{laps, 1, []xy{{120, 200}, {90, 500}, {220, 700}}, un(3), true},
		{short, 1, []xy{{0, 350}, {0, 390}, {0, 480}, {0, 900}}, un(4), true},
	}
	n := 12
	if tier == "thorough" {
		n = 120
	}
	rng := rand.New(rand.NewSource(30))
	for i := 0; i < n; i++ {
		at := xy{}
		c := stopCase{pts: []xy{at}, scale: 1, shape: true}
		for j := 0; j < 2+rng.Intn(3); j++ {
			at[rng.Intn(2)] += float64(200*rng.Intn(6) - 400)
			c.pts = append(c.pts, at)
		}
		for j := 0; j < 2+rng.Intn(2); j++ {
			k := rng.Intn(len(c.pts) - 1)
			f := rng.Float64()
			p := xy{c.pts[k][0] + f*(c.pts[k+1][0]-c.pts[k][0]), c.pts[k][1] + f*(c.pts[k+1][1]-c.pts[k][1])}
			c.stops = append(c.stops, xy{math.Round(p[0]) + float64(rng.Intn(60)-30), math.Round(p[1]) + float64(rng.Intn(60)-30)})
		}
		c.meas = un(len(c.stops))
		cases = append(cases, c)
	}
	for i, c := range cases {
		add(fmt.Sprintf("trip %d", i), 1, c)
	}
	add("no trips", 2)
	add("several trips", 2, cases[0], cases[3], cases[5], cases[9])
	add("several trips", 4, cases[14], cases[7], cases[18], cases[2], cases[1])
	return
}

func c29Jobs(P *Program, tier string) (jobs []Job) {
	for _, sc := range append(shapeScens(tier), stopTimeScens(tier)...) {
		sc := sc
		key := "C29:" + sc.typ + ":" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { runNum(P, r, key, sc) }})
	}
	return
}

func init() {
	register("C29", 100, "Path-sensitive abstract interpretation of the measuring passes on shapes and trips at known places with known and missing measurements: measurements of every point and stop time at every end compared with those that follow from the distances.", func(P *Program, r *Result, tier string) {
		runJobs(r, c29Jobs(P, tier))
	})
}
