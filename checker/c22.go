package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22 and C91: shape simplification. Geometric functions (numbers in, numbers out) are uninterpreted; which points
// are kept, and which comparisons with the tolerance guard a dropped one, is read off every path.

// isGeom: a function of the repository from floats to floats.
func isGeom(P *Program, fn *ssa.Function) bool {
	if fn == nil || fn.Pkg != P.proc || fn.Signature.Recv() != nil && !isFloatT(fn.Signature.Recv().Type()) {
		return false
	}
	sig := fn.Signature
	if sig.Params().Len() < 3 && sig.Results().Len() < 2 || sig.Results().Len() == 0 {
		return false
	}
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < t.Len(); i++ {
			if !isFloatT(t.At(i).Type()) {
				return false
			}
		}
	}
	return true
}

// geomHook makes geometric functions uninterpreted.
func geomHook(h *Heap) func(c *CallCtx) bool {
	return func(c *CallCtx) bool {
		if !isGeom(h.P, c.fn) {
			return h.baseCall(c)
		}
		if t, ok := c.rt.(*types.Tuple); ok {
			var rs []*V
			for i := 0; i < t.Len(); i++ {
				rs = append(rs, h.e.Term(fmt.Sprintf("geom:%s:%d", c.fn.Name(), i), t.At(i).Type(), c.args...))
			}
			return c.ret(h.e.Tuple(rs...))
		}
		return c.ret(h.e.Term("geom:"+c.fn.Name(), c.rt, c.args...))
	}
}

// ptName is the point a coordinate belongs to: "sh0.2" for the third point of shape sh0.
func ptName(v *V) string {
	if v == nil || v.K != KTerm || len(v.Args) > 0 {
		return ""
	}
	n, _, _ := strings.Cut(strings.TrimPrefix(v.Op, "pt:"), "|")
	if n == v.Op {
		return ""
	}
	return n
}

// pointsIn collects the points whose coordinates occur in a term.
func pointsIn(v *V, into map[string]int, seen map[*V]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if n := ptName(v); n != "" {
		into[n]++
	}
	for _, a := range v.Args {
		pointsIn(a, into, seen)
	}
}

// geoShape adds a shape with n individual points.
func (h *Heap) geoShape(name string, n int) *Ent {
	sh := h.Entity("Shape", name, name)
	l := h.OpenList(name+".Points", "pt", h.gtfsType("ShapePoint"), n)
	st := h.gtfsType("ShapePoint").Underlying().(*types.Struct)
	for i := 0; i < n; i++ {
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			v := h.e.Term(fmt.Sprintf("pt:%s.%d|%s", name, i, f.Name()), f.Type())
			if f.Name() == "Sequence" {
				v = h.e.Const(h.e.Int(int64(10*i+7)).C, f.Type())
			}
			h.s.mem[h.e.FieldAddr(h.e.ElemAddr(l.Args[0], h.e.Int(int64(i))), f.Name())] = v
		}
	}
	h.Set(sh, "Points", l)
	return sh
}

// leq: the facts of the state say that a is at most b.
func leq(h *Heap, s *State, a, b *V) bool {
	next := map[*V][]*V{}
	for f, is := range s.facts {
		if f.K != KTerm || f.Op != "lt" {
			continue
		}
		if is {
			next[f.Args[0]] = append(next[f.Args[0]], f.Args[1])
		} else {
			next[f.Args[1]] = append(next[f.Args[1]], f.Args[0])
		}
	}
	seen := map[*V]bool{a: true}
	work := []*V{a}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if isNumConst(x) {
			if f, _ := constFloat(x); f <= 0 {
				return true // tolerances are not negative
			}
		}
		for _, y := range next[x] {
			if !seen[y] {
				seen[y] = true
				work = append(work, y)
			}
		}
	}
	return false
}

type simpScen struct {
	name   string
	points []int // points of each shape
}

func simpJobs(P *Program, prop, tier string) (jobs []Job) {
	var scs []simpScen
	max := 6
	if tier == "thorough" {
		max = 7
	}
	for n := 1; n <= max; n++ {
		scs = append(scs, simpScen{fmt.Sprintf("%d points", n), []int{n}})
	}
	scs = append(scs, simpScen{"2 and 3 points", []int{2, 3}}, simpScen{"3, 1 and 3 points", []int{3, 1, 3}})
	for _, sc := range scs {
		sc := sc
		key := prop + ":ShapeMinimizer:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) { simplify(P, r, prop, key, sc) }})
	}
	return
}

func simplify(P *Program, r *Result, prop, key string, sc simpScen) {
	h := newHeap(P)
	h.e.h.MaxKnownRange = 1
	h.constIDs = true
	var shapes []*Ent
	for i, n := range sc.points {
		shapes = append(shapes, h.geoShape(fmt.Sprintf("sh%d", i), n))
	}
	h.e.h.Call = geomHook(h)
	h.e.maxRec = 8
	eps := h.e.Term("epsilon", types.Typ[types.Float64])
	// tolerances are not negative
	h.e.h.Decide = func(s *State, atom *V) tri {
		if atom.K == KTerm && atom.Op == "lt" && isNumConst(atom.Args[1]) {
			f, _ := constFloat(atom.Args[1])
			if atom.Args[0] == eps && f <= 0 {
				return no
			}
		}
		return unk
	}
	bad, drops, keeps := 0, 0, 0
	ends, ok := h.runScenario(r, key, "ShapeMinimizer", map[string]*V{"Epsilon": eps}, func(s *State) {
		var probs []string
		for si, sh := range shapes {
			n := sc.points[si]
			els, known := h.listElems(s, h.Get(s, sh, "Points"))
			if !known {
				probs = append(probs, "the points of a shape are undetermined")
				continue
			}
			var at []int
			lastSeq := int64(-1)
			for j, el := range els {
				get := func(f string) *V {
					return h.e.load(s, h.e.FieldAddr(h.pointAddr(s, sh, j), f), h.fieldType("ShapePoint", f))
				}
				_ = el
				lat, lon, d := ptName(get("Lat")), ptName(get("Lon")), ptName(get("Dist_traveled"))
				if lat == "" || lat != lon || lat != d {
					probs = append(probs, fmt.Sprintf("point %d of the result has coordinates %s/%s and distance %s, which is no point of the shape", j, nm(get("Lat")), nm(get("Lon")), nm(get("Dist_traveled"))))
					continue
				}
				name, idx, _ := strings.Cut(lat, ".")
				if name != sh.name {
					probs = append(probs, fmt.Sprintf("a shape gets a point of another one (%s)", lat))
					continue
				}
				var k int
				fmt.Sscan(idx, &k)
				if len(at) > 0 && k <= at[len(at)-1] {
					probs = append(probs, fmt.Sprintf("point %d follows point %d", k, at[len(at)-1]))
				}
				at = append(at, k)
				if q, ok := get("Sequence").intVal(); !ok || q <= lastSeq {
					probs = append(probs, "the sequence numbers of the points left do not increase")
				} else {
					lastSeq = q
				}
			}
			if len(probs) > 0 {
				continue
			}
			if len(at) == 0 || at[0] != 0 || at[len(at)-1] != n-1 {
				probs = append(probs, fmt.Sprintf("points %v of %d are left: an end of the shape was dropped", at, n))
				continue
			}
			keeps += len(at)
			if prop != "C91" {
				continue
			}
			for j := 1; j < len(at); j++ {
				for p := at[j-1] + 1; p < at[j]; p++ {
					drops++
					if !h.within(s, eps, sh.name, p, at[j-1], at[j]) {
						probs = append(probs, fmt.Sprintf("point %d between the kept points %d and %d is dropped, but its distance to them was not found to be within the tolerance", p, at[j-1], at[j]))
					}
				}
			}
		}
		if prop == "C91" {
			var out []string
			for _, p := range probs {
				if strings.Contains(p, "tolerance") || strings.Contains(p, "undetermined") {
					out = append(out, p)
				}
			}
			probs = out
		}
		for _, p := range probs {
			bad++
			r.add(key, "", h.e.trailText(s, 16), "ShapeMinimizer, %s: %s", sc.name, p)
			h.e.stop = true
		}
	})
	r.Obligations++
	if ok && bad == 0 {
		r.Discharged++
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d kept and %d dropped points checked, %d steps", key, ends, keeps, drops, h.e.steps))
}

// pointAddr is the address of a point of a shape in a state.
func (h *Heap) pointAddr(s *State, sh *Ent, j int) *V {
	l := h.Get(s, sh, "Points")
	off, _ := l.Args[1].intVal()
	return h.e.ElemAddr(l.Args[0], h.e.Int(off+int64(j)))
}

// within: some distance of point p to the points a and b, and to no other one, is at most eps.
func (h *Heap) within(s *State, eps *V, shape string, p, a, b int) bool {
	want := map[string]bool{}
	for _, i := range []int{p, a, b} {
		want[fmt.Sprintf("%s.%d", shape, i)] = true
	}
	cand := map[*V]bool{}
	for f := range s.facts {
		if f.K == KTerm && f.Op == "lt" {
			cand[f.Args[0]] = true
			cand[f.Args[1]] = true
		}
	}
	for t := range cand {
		in := map[string]int{}
		pointsIn(t, in, map[*V]bool{})
		// the distance of p to one of them is at least that to the line between them
		all := len(in) > 1 && in[fmt.Sprintf("%s.%d", shape, p)] >= 2
		for n := range in {
			all = all && want[n] && in[n] >= 2
		}
		if all && isDistTerm(t) && leq(h, s, t, eps) {
			return true
		}
	}
	return false
}

// closeJobs: merging shapes.
func closeJobs(P *Program, tier string) (jobs []Job) {
	type closeScen struct {
		name   string
		points []int
		long   int // samples between the ends of a segment
	}
	scs := []closeScen{{"2 and 2 points", []int{2, 2}, 0}, {"2 and 3 points", []int{2, 3}, 0}, {"3 and 2 points", []int{3, 2}, 0},
		{"2 and 2 points, long segments", []int{2, 2}, 1}, {"2 and 3 points, long segments", []int{2, 3}, 1}, {"2 and 2 points, longer segments", []int{2, 2}, 2}}
	if tier == "thorough" {
		scs = append(scs, closeScen{"3 and 3 points", []int{3, 3}, 0}, closeScen{"2 and 2 points, still longer segments", []int{2, 2}, 3})
	}
	for _, sc := range scs {
		sc := sc
		key := "C24:ShapeDuplicateRemover:" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			h := newHeap(P)
			h.e.h.MaxKnownRange = 1
			h.constIDs = true
			var shapes []*Ent
			for i, n := range sc.points {
				shapes = append(shapes, h.geoShape(fmt.Sprintf("sh%d", i), n))
			}
			geom := geomHook(h)
			h.e.h.Call = func(c *CallCtx) bool {
				switch {
				case strings.HasSuffix(c.name, "processors.NewShapeIdx"):
					return c.ret(h.e.Obj("shapeidx", c.rt))
				case strings.HasSuffix(c.name, "ShapeIdx).GetNeighbors"):
					m := h.e.fresh(c.s, KObj, "neighbors", c.rt)
					h.e.setMapKeys(c.s, m, nil)
					for _, sh := range shapes {
						h.e.mapSet(c.s, m, sh.obj, h.e.Bool(true))
					}
					return c.ret(m)
				}
				return geom(c)
			}
			max := h.e.Term("maxdist", types.Typ[types.Float64])
			h.e.h.Decide = func(s *State, atom *V) tri {
				if atom.K != KTerm || atom.Op != "lt" {
					return unk
				}
				// distances and tolerances are finite
				for i, a := range atom.Args {
					if a.K == KTerm && a.Op == "call:math.Inf:0" && len(a.Args) == 1 {
						if n, ok := a.Args[0].intVal(); ok && (n >= 0) == (i == 1) && atom.Args[1-i] != a {
							return yes
						}
						return no
					}
				}
				// the length of a segment, compared with the places of samples on it
				if f, ok := constFloat(atom.Args[0]); ok && atom.Args[1] != max && isNumConst(atom.Args[0]) && f > 0 && isGeomTerm(atom.Args[1]) {
					if f <= 10*float64(sc.long)+5 {
						return yes
					}
					return no
				}
				if f, ok := constFloat(atom.Args[1]); ok && isNumConst(atom.Args[1]) && atom.Args[0] == max && f <= 0 {
					return no
				}
				return unk
			}
			bad, merged := 0, 0
			ends, ok := h.runScenario(r, key, "ShapeDuplicateRemover", map[string]*V{"MaxEqDist": max}, func(s *State) {
				var left, gone []int
				for i, sh := range shapes {
					if h.inFeed(s, sh) {
						left = append(left, i)
					} else {
						gone = append(gone, i)
					}
				}
				if len(gone) == 0 {
					return
				}
				merged++
				var probs []string
				for _, g := range gone {
					// close to one that is left, or both are close to a third one
					okAny := false
					var first string
					for _, l := range left {
						p := h.apart(s, max, shapes, sc.points, g, l, sc.long)
						if p == "" {
							okAny = true
						} else if first == "" {
							first = p
						}
						for m := range shapes {
							if m != g && m != l && h.apart(s, max, shapes, sc.points, g, m, sc.long) == "" && h.apart(s, max, shapes, sc.points, m, l, sc.long) == "" {
								okAny = true
							}
						}
					}
					if !okAny {
						probs = append(probs, "shapes are merged although "+first)
					}
				}
				for _, p := range probs {
					bad++
					r.add(key, "", h.e.trailText(s, 16), "ShapeDuplicateRemover, %s: %s", sc.name, p)
					h.e.stop = true
				}
			})
			r.Obligations++
			if ok && bad == 0 && merged == 0 {
				r.add(key+":nomerge", "", nil, "%s: no path merges the shapes", key)
				bad++
			}
			if ok && bad == 0 {
				r.Discharged++
			}
			r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d merging, %d steps", key, ends, merged, h.e.steps))
		}})
	}
	return
}

// isGeomTerm: the result of a geometric function.
func isGeomTerm(v *V) bool { return v.K == KTerm && strings.HasPrefix(v.Op, "geom:") }

// isDistTerm: a distance, and not one that was made smaller by arithmetic.
func isDistTerm(v *V) bool { return !strings.HasPrefix(v.Op, "arith:") || v.Op == "arith:+" }

// placeOf describes the arguments of a distance that lie between two points of shape x ("": there are none).
func placeOf(t *V, x string) string {
	var out []string
	for _, a := range t.Args {
		in := map[string]int{}
		pointsIn(a, in, map[*V]bool{})
		mine := len(in) > 1
		for n := range in {
			if !strings.HasPrefix(n, x+".") {
				mine = false
			}
		}
		if mine {
			out = append(out, a.String())
		}
	}
	return strings.Join(out, "|")
}

// apart names a part of two shapes that was not found to be close to the other one ("": they are close).
func (h *Heap) apart(s *State, max *V, shapes []*Ent, points []int, a, b, long int) string {
	close := map[string]bool{}
	samples := map[string]map[string]bool{} // the different places on a segment that were found to be close
	cand := map[*V]bool{}
	for f := range s.facts {
		if f.K == KTerm && f.Op == "lt" {
			cand[f.Args[0]] = true
			cand[f.Args[1]] = true
		}
	}
	for t := range cand {
		if t.K != KTerm || t == max || !isDistTerm(t) || !leq(h, s, t, max) {
			continue
		}
		in := map[string]int{}
		pointsIn(t, in, map[*V]bool{})
		var of [2][]string
		for _, n := range sortedKeys(in) {
			for i, x := range []int{a, b} {
				if strings.HasPrefix(n, shapes[x].name+".") {
					of[i] = append(of[i], n)
				}
			}
		}
		if len(of[0]) == 0 || len(of[1]) == 0 {
			continue
		}
		for i := range of {
			key := strings.Join(of[i], "+") + " to " + shapes[[]int{b, a}[i]].name
			close[key] = true
			if samples[key] == nil {
				samples[key] = map[string]bool{}
			}
			if pl := placeOf(t, shapes[[]int{a, b}[i]].name); pl != "" {
				samples[key][pl] = true
			}
		}
		close[strings.Join(of[0], "+")+" to "+strings.Join(of[1], "+")] = true
	}
	pt := func(x, i int) string { return fmt.Sprintf("%s.%d", shapes[x].name, i) }
	for i, x := range []int{a, b} {
		y := []int{b, a}[i]
		for p := 0; p < points[x]; p++ {
			if !close[pt(x, p)+" to "+shapes[y].name] {
				return fmt.Sprintf("point %d of one was not found to be close to the other", p)
			}
			if n := len(samples[pt(x, p)+"+"+pt(x, p+1)+" to "+shapes[y].name]); p+1 < points[x] && n < long {
				return fmt.Sprintf("not all places between point %d and %d of one was found to be close to the other", p, p+1)
			}
		}
	}
	if !close[pt(a, 0)+" to "+pt(b, 0)] {
		return "their first points were not found to be close"
	}
	if !close[pt(a, points[a]-1)+" to "+pt(b, points[b]-1)] {
		return "their last points were not found to be close"
	}
	return ""
}

func init() {
	register("C22", 5, "ShapeMinimizer.Run is interpreted on shapes of 1-7 individual points with uninterpreted geometry: at every end the points left are points of the shape, in order, with their own coordinates and distances, both ends included, and increasing sequence numbers.", func(P *Program, r *Result, tier string) {
		runJobs(r, simpJobs(P, "C22", tier))
	})
	register("C91", 5, "ShapeMinimizer.Run is interpreted on shapes of 1-7 individual points with uninterpreted geometry: for every dropped point, the comparisons made on the path imply that a distance computed from this point and the kept points around it is at most the tolerance.", func(P *Program, r *Result, tier string) {
		runJobs(r, simpJobs(P, "C91", tier))
	})
	register("C24", 5, "ShapeDuplicateRemover.Run is interpreted on shapes of 2-3 individual points with uninterpreted geometry: on every path that merges two shapes, the comparisons made imply that every point of each (and samples between points of long segments) is within the configured distance of the other, and that their ends are.", func(P *Program, r *Result, tier string) {
		runJobs(r, closeJobs(P, tier))
	})
}
