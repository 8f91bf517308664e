package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05 and C06: goroutines of the passes. The scenarios of the other properties are interpreted once more with a
// happens-before order over go statements, channels, wait groups and locks (par.go).

type parMode struct {
	prop string
	ncpu int64
}

// parallelised is a view of the program for which scenarios report on goroutines only.
func (p *Program) parallelised(prop string, ncpu int64) *Program {
	q := *p
	q.par = &parMode{prop, ncpu}
	return &q
}

// spawns: a go statement is in the static call graph below fn.
func spawns(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), repoMod) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if isSpawn(ins) {
					return true
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// isSpawn: a go statement or a call that starts a goroutine.
func isSpawn(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Go:
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return fnName(f) == "(*sync.WaitGroup).Go"
		}
	}
	return false
}

func goInstrs(fns []*ssa.Function) (out []ssa.Instruction) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), repoMod) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if isSpawn(ins) {
					out = append(out, ins)
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		walk(f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return
}

// watchWorkers makes a scenario report on goroutines; false: the pass starts none.
func (h *Heap) watchWorkers(r *Result, m *parMode, typ string, fn *ssa.Function) bool {
	if !spawns(fn) {
		return false
	}
	h.ncpu = m.ncpu
	e := h.e
	e.h.MaxKnownRange = 1
	seen := map[string]bool{}
	report := func(s *State, what, at, format string, a ...any) {
		k := "par:" + m.prop + ":" + typ + ":" + what + ":" + at
		if seen[k] {
			return
		}
		seen[k] = true
		r.add(k, at, e.trailText(s, 16), format, a...)
	}
	e.h.Panicked = func(*State) {}
	e.h.OnStuck = func(s *State, what string, pos token.Pos) {
		if m.prop == "C05" {
			report(s, "stuck", e.pos(pos), "%s waits forever at %s (%s)", typ, e.pos(pos), what)
		}
	}
	e.h.OnRace = func(s *State, a *V, x, y access) {
		// is one of them run by a goroutine that started the other one?
		anc := func(p, c int) bool {
			for ; c >= 0; c = s.par.tasks[c].parent {
				if c == p {
					return true
				}
			}
			return false
		}
		rel := anc(x.task, y.task) || anc(y.task, x.task)
		if m.prop == "C05" && !rel {
			return
		}
		do := func(w bool) string {
			if w {
				return "writes"
			}
			return "reads"
		}
		who := func(t int) string {
			if t == 0 {
				return "the pass itself"
			}
			return "a worker started at " + e.pos(s.par.tasks[t].site)
		}
		report(s, "race", e.pos(x.pos)+"+"+e.pos(y.pos), "%s: %s %s %s at %s while %s %s it at %s", typ, who(x.task), do(x.write), cellName(a), e.pos(x.pos), who(y.task), do(y.write), e.pos(y.pos))
	}
	return true
}

// cellName describes a memory cell.
func cellName(a *V) string {
	t := strings.TrimPrefix(a.String(), "&")
	if len(t) > 80 {
		t = t[:77] + "..."
	}
	return t
}

// checkEnd reports on goroutines at the end of a pass.
func (h *Heap) checkEnd(s *State, r *Result, m *parMode, typ string) {
	if m.prop != "C05" {
		return
	}
	for _, pos := range h.e.unfinished(s) {
		k := "par:C05:" + typ + ":unfinished:" + h.e.pos(pos)
		r.add(k, h.e.pos(pos), h.e.trailText(s, 16), "%s returns although workers started at %s may still be running (%d CPUs)", typ, h.e.pos(pos), m.ncpu)
	}
}

// moreParScens: passes with workers that no other property interprets.
func moreParScens(P *Program) (out []passScen) {
	shapes := func(h *Heap, w *watch, few bool) {
		c := h.core(w)
		t2 := h.coreTrip(c, "t2", c.route)
		sh := h.geoShape("shp", 2)
		if few {
			h.e.mapDel(h.s, h.FeedMap("Trips"), t2.id)
		} else {
			h.geoShape("shq", 2)
		}
		h.Set(c.trip, "Shape", sh.obj)
		h.Set(t2, "Shape", sh.obj)
		h.e.h.Call = func(c *CallCtx) bool {
			if c.name == "sort.Find" {
				lo := c.s.marks["find"]
				if lo == nil || lo.Op == "hi" {
					c.s.marks["find"] = h.e.Tok("lo")
					return c.ret(h.e.Tuple(h.e.Int(0), h.e.Bool(true)))
				}
				c.s.marks["find"] = h.e.Tok("hi")
				return c.ret(h.e.Tuple(c.args[0], h.e.Bool(false)))
			}
			return geomHook(h)(c)
		}
	}
	for _, few := range []bool{false, true} {
		few := few
		name := "trips on shapes"
		if few {
			name = "one trip on a shape"
		}
		for _, typ := range []string{"StopTimeRemeasurer", "ShapeRemeasurer"} {
			out = append(out, passScen{name: name, typ: typ, setup: func(h *Heap, w *watch) { shapes(h, w, few) }})
		}
	}
	for _, num := range []int{1, 3} {
		num := num
		out = append(out, passScen{name: fmt.Sprintf("%d services with exceptions", num), typ: "ServiceMinimizer", setup: func(h *Heap, w *watch) {
			for i := 0; i < num; i++ {
				h.service(fmt.Sprintf("srv%d", i), cal{noRange: true, exc: map[int64]bool{int64(3 + i): true}})
			}
		}})
	}
	for _, num := range []int{3, 4} {
		num := num
		out = append(out, passScen{name: fmt.Sprintf("%d trips with frequencies", num), typ: "FrequencyMinimizer", order: 3, setup: func(h *Heap, w *watch) {
			s0 := h.service("S0", cal{from: 0, to: 6, days: 127})
			for i := 0; i < num; i++ {
				t := h.trip(w.base, fmt.Sprintf("t%d", i), w.base.route, s0, int64(i)*7200)
				h.tripDetails(t, "t", 0)
				for _, f := range h.frequencies(t, 1) {
					h.Set(f, "Start_time", h.gtfsTime(int64(i)*7200))
					h.Set(f, "End_time", h.gtfsTime(int64(i)*7200+1200))
					h.Set(f, "Headway_secs", h.e.Int(600))
					h.Set(f, "Exact_times", h.e.Bool(true))
				}
				w.ents[t.name] = t
			}
		}, cfg: func(h *Heap) map[string]*V {
			return map[string]*V{"MinHeadway": h.e.Int(600), "MaxHeadway": h.e.Int(700)}
		}})
	}
	for i := range out {
		if out[i].cfg == nil {
			out[i].cfg = func(*Heap) map[string]*V { return nil }
		}
	}
	return
}

func parJobs(P *Program, prop, tier string) (jobs []Job) {
	cpus := []int64{2, 3}
	if tier == "thorough" {
		cpus = []int64{1, 2, 3, 4}
	}
	drop := func(h *Heap, s *State, w *watch) []string { return nil }
	for _, n := range cpus {
		Q := P.parallelised(prop, n)
		var js []Job
		for _, sc := range append(moreParScens(P), allScens(tier)...) {
			sc := sc
			fn := P.method(sc.typ, "Run")
			if fn == nil || !spawns(fn) {
				continue
			}
			key := prop + ":" + sc.typ + ":" + sc.name
			js = append(js, Job{key, func(r *Result) { runPass(Q, r, key, sc, drop) }})
		}
		for _, k := range append(dupKinds(Q), shapeKind(Q)) {
			for _, num := range []int{2, 3} {
				k, num := k, num
				for _, equal := range []bool{true, false} {
					equal := equal
					name := fmt.Sprintf("%s:%s:%d equal %t", prop, k.proc, num, equal)
					js = append(js, Job{name, func(r *Result) {
						h, es := k.buildN(Q, num)
						if !equal {
							for i, en := range es {
								concretise(h, en, k, fmt.Sprintf("pad%d", i))
							}
						}
						h.e.injectiveHash = true
						h.runScenario(r, name, k.proc, k.config(h), func(s *State) {})
					}})
				}
			}
		}
		for _, j := range simpJobs(Q, prop, "quick") {
			if tier == "thorough" || strings.Contains(j.Name, "3 points") || strings.Contains(j.Name, "4 points") {
				js = append(js, j)
			}
		}
		js = append(js, closeJobs(Q, "quick")...)
		js = append(js, idMinJobs(Q, prop, "quick")...)
		for _, j := range js {
			j := j
			jobs = append(jobs, Job{fmt.Sprintf("%s, %d CPUs", j.Name, n), func(r *Result) {
				x := newResult(prop)
				j.Run(x)
				bad := 0
				for _, f := range x.Findings {
					if strings.HasPrefix(f.Key, "par:") || strings.HasPrefix(f.Key, "internal") || strings.HasSuffix(f.Key, ":undecided") {
						bad++
						r.addF(f)
					}
				}
				if x.Workers == 0 && bad == 0 {
					return
				}
				r.Obligations++
				if bad == 0 {
					r.Discharged++
				}
				for k := range x.Functions {
					r.Functions[k] = true
				}
				r.Steps += x.Steps
				r.States += x.States
				for k, v := range x.Instances {
					if strings.HasPrefix(k, "workers started at ") {
						r.Instances[k] += v
					}
				}
				r.Detail = append(r.Detail, fmt.Sprintf("%s, %d CPUs: %d workers started, %d accesses to memory ordered, %d steps", j.Name, n, x.Workers, x.Accesses, x.Steps))
			}})
		}
	}
	return
}

func checkPar(prop string) func(P *Program, r *Result, tier string) {
	return func(P *Program, r *Result, tier string) {
		runJobs(r, parJobs(P, prop, tier))
		// go statements that no scenario reaches
		var runs []*ssa.Function
		for _, typ := range processorTypes(P) {
			runs = append(runs, P.method(typ, "Run"))
		}
		for _, g := range goInstrs(runs) {
			at := newEngine(P.prog).pos(g.Pos())
			if r.Instances["workers started at "+at] == 0 {
				r.Detail = append(r.Detail, "not interpreted: workers started at "+at)
			}
		}
	}
}

// processorTypes are the names of the types with a Run method.
func processorTypes(P *Program) (out []string) {
	for _, n := range P.proc.Pkg.Scope().Names() {
		if o, ok := P.proc.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(o.Type()) {
			m, _, _ := types.LookupFieldOrMethod(o.Type(), true, P.proc.Pkg, "Run")
			if f, ok := m.(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 1 {
				out = append(out, n)
			}
		}
	}
	return
}

func init() {
	register("C05", 60, "Every pass with workers is interpreted on abstract feeds for several numbers of CPUs with a happens-before order over go statements, channels, wait groups and locks: at every end the pass is after all effects of all workers, nothing it reads or writes is concurrently used by a worker, and no wait lasts forever.", checkPar("C05"))
	register("C06", 60, "Every pass with workers is interpreted on abstract feeds for several numbers of CPUs with a happens-before order over go statements, channels, wait groups and locks: no two accesses to the same memory, one of them a write, are unordered without a common lock.", checkPar("C06"))
}
