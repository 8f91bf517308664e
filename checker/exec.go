package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	e      *Engine
	s      *State
	instr  ssa.Instruction
	call   *ssa.CallCommon
	fn     *ssa.Function // resolved static callee (nil if unknown)
	name   string        // full name of callee or "invoke:<iface>.<method>" or "dyn"
	fv     *V            // dynamic function value
	args   []*V
	rt     types.Type
	isGo   bool
	res    []*V // alternatives
	kill   bool
	panics bool // additionally fork a panicking path
}

func (c *CallCtx) ret(v ...*V) bool { c.res = v; return true }

type Hooks struct {
	Inline        func(fn *ssa.Function) (inline, decided bool)
	Call          func(c *CallCtx) bool
	LoadDefault   func(s *State, addr *V, t types.Type) *V
	Decide        func(s *State, atom *V) tri
	MapGet        func(s *State, m, k *V, t types.Type) (v *V, ok tri, handled bool)
	RangeRest     func(s *State, m *V, kt, vt types.Type) (k, v *V, ok bool) // summary element of a container
	OnStore       func(s *State, addr, v *V, ins ssa.Instruction)
	OnMapUpdate   func(s *State, m, k, v *V, ins ssa.Instruction)
	OnDelete      func(s *State, m, k *V, ins ssa.Instruction)
	OnDeref       func(s *State, addr *V, ins ssa.Instruction) // pointer dereference
	OnInstr       func(s *State, ins ssa.Instruction)
	OnIndex       func(s *State, base, idx *V, ins ssa.Instruction)
	Done          func(s *State, res *V)                     // normal end of the entry function
	Panicked      func(s *State)                             // entry function ended by a panic
	OnRace        func(s *State, a *V, x, y access)          // two accesses that are not ordered
	OnStuck       func(s *State, what string, pos token.Pos) // the entry function waits forever
	Exited        func(s *State, code *V, ins ssa.Instruction)
	MaxKnownRange int
}

type Engine struct {
	prog          *ssa.Program
	in            *interner
	h             Hooks
	liveCache     map[*ssa.Function]*liveness
	laterUse      map[pcKey]map[ssa.Value]bool
	loopCache     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks
	ctxIDs        map[string]int
	star          *V
	seen          map[string]bool
	work          []*State
	steps         int
	maxRec        int // calls of a function from itself that are interpreted
	states        int
	maxSteps      int
	deadline      time.Time
	undecided     string
	visitedFn     map[*ssa.Function]bool
	goCount       int
	spawned       int
	joins         int
	accesses      int
	goSites       map[string]int
	maxDepth      int
	maxGen        int // live objects of one site kept apart
	unroll        int
	maxList       int // longest list kept element by element
	debug         bool
	nums          bool // floating point constants are folded, rounded to their type
	injectiveHash bool // distinct hash inputs have distinct hash values
	constHash     bool // all hash values are equal
	stop          bool
}

var (
	defaultMaxSteps = 3_000_000
	defaultDeadline = 150 * time.Second
)

func newEngine(prog *ssa.Program) *Engine {
	e := &Engine{prog: prog, in: newInterner(), liveCache: map[*ssa.Function]*liveness{}, laterUse: map[pcKey]map[ssa.Value]bool{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ctxIDs: map[string]int{}, seen: map[string]bool{},
		maxSteps: defaultMaxSteps, deadline: time.Now().Add(defaultDeadline), visitedFn: map[*ssa.Function]bool{}, maxDepth: 40, maxGen: 10, unroll: 48, maxList: 24}
	e.star = e.Tok("*")
	return e
}

func (e *Engine) giveUp(format string, a ...any) {
	if e.undecided == "" {
		e.undecided = fmt.Sprintf(format, a...)
	}
	e.stop = true
}

func (e *Engine) newState() *State {
	return &State{mem: map[*V]*V{}, facts: map[*V]bool{}, marks: map[string]*V{}}
}

func (e *Engine) ctx(parent int, ins ssa.Instruction) int {
	k := fmt.Sprintf("%d/%p", parent, ins)
	if i, ok := e.ctxIDs[k]; ok {
		return i
	}
	i := len(e.ctxIDs) + 1
	e.ctxIDs[k] = i
	return i
}

// Run explores fn from the given state.
func (e *Engine) Run(s *State, fn *ssa.Function, args []*V, bindings []*V) {
	e.pushFrame(s, fn, args, bindings, nil, 0)
	e.work = append(e.work, s)
	for len(e.work) > 0 && !e.stop {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(st)
	}
}

func (e *Engine) pushFrame(s *State, fn *ssa.Function, args, bindings []*V, call ssa.Instruction, parentCtx int) *Frame {
	e.visitedFn[fn] = true
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*V{}, call: call}
	if call != nil {
		f.ctx = e.ctx(parentCtx, call)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bindings) {
			f.env[p] = bindings[i]
		}
	}
	if len(s.frames) > 0 {
		f.gid = s.top().gid
	}
	s.frames = append(s.frames, f)
	return f
}

func (e *Engine) val(s *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.Zero(x.Type())
		}
		c := x.Value
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			c = constant.ToFloat(c)
			if e.nums {
				f, _ := constant.Float64Val(c)
				return e.floatConst(f, x.Type())
			}
		}
		return e.Const(c, x.Type())
	case *ssa.Global:
		return e.Obj("global:"+x.String(), x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Function:
		return e.in.mk(V{K: KFunc, Fn: x})
	case *ssa.Builtin:
		return e.Term("builtin:"+x.Name(), nil)
	}
	f := s.top()
	if r, ok := f.env[v]; ok {
		return r
	}
	return e.Term("undef:"+v.Name(), v.Type())
}

func (v *V) atomsHas(x *V) bool {
	if v == x {
		return true
	}
	if !v.born {
		return false
	}
	for _, a := range v.Args {
		if a != nil && a.atomsHas(x) {
			return true
		}
	}
	return false
}

func (e *Engine) usedIn(s *State, x *V) bool {
	for _, f := range s.frames {
		for _, v := range f.env {
			if v != nil && v.born && v.atomsHas(x) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a.born && a.atomsHas(x) {
					return true
				}
			}
			if d.fn != nil && d.fn.atomsHas(x) {
				return true
			}
		}
	}
	for a, v := range s.mem {
		if a.born && a.atomsHas(x) || v != nil && v.born && v.atomsHas(x) {
			return true
		}
	}
	for _, v := range s.marks {
		if v.born && v.atomsHas(x) {
			return true
		}
	}
	used := false
	s.par.roots(func(v *V) { used = used || v != nil && v.born && v.atomsHas(x) })
	return used
}

// fresh makes a site-born symbol or object, distinct from all live ones of the same site.
func (e *Engine) fresh(s *State, kind Kind, site string, t types.Type) *V {
	for n := 0; n < e.maxGen; n++ {
		name := fmt.Sprintf("@%s#%d", site, n)
		before := len(e.in.tab)
		v := e.in.mk(V{K: kind, Op: name, T: t})
		if len(e.in.tab) > before {
			return v
		}
		if !e.usedIn(s, v) {
			for f := range s.facts {
				if f.born && f.atomsHas(v) {
					delete(s.facts, f)
				}
			}
			return v
		}
	}
	v := e.in.mk(V{K: kind, Op: "@" + site + "*", T: t})
	for f := range s.facts {
		if f.born && f.atomsHas(v) {
			delete(s.facts, f)
		}
	}
	return v
}

func (e *Engine) site(f *Frame, ins ssa.Instruction) string {
	n := ""
	if v, ok := ins.(ssa.Value); ok {
		n = v.Name()
	} else {
		n = fmt.Sprintf("i%d.%d", f.block.Index, f.pc)
	}
	return fmt.Sprintf("%s.%d:%s", f.fn.Name(), f.ctx, n)
}

// loops of a function: header -> set of blocks
func (e *Engine) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loopCache[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := l[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					l[h] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loopCache[fn] = l
	return l
}

// jump moves the top frame to block b. Returns false if the state was merged into an explored one.
func (e *Engine) jump(s *State, b *ssa.BasicBlock) bool {
	f := s.top()
	from := f.block
	body, isHeader := e.loops(f.fn)[b]
	back := isHeader && body[from]
	// evaluate phis
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*V
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(s, phi.Edges[pi]))
	}
	f.prev, f.block, f.pc = from, b, 0
	f.pending = nil
	for i, p := range phis {
		f.set(p, vals[i])
	}
	for i := range phis { // skip phis
		f.pc = i + 1
	}
	// leaving loops: forget their info
	if f.loops != nil {
		for h := range f.loops {
			if !e.loops(f.fn)[h][b] {
				delete(f.loops, h)
			}
		}
	}
	if isHeader {
		if !back {
			li := &loopInfo{mem: make(map[*V]*V, len(s.mem)), phis: map[*ssa.Phi]*V{}}
			for k, v := range s.mem {
				li.mem[k] = v
			}
			for i, p := range phis {
				li.phis[p] = vals[i]
			}
			if f.loops == nil {
				f.loops = map[*ssa.BasicBlock]*loopInfo{}
			}
			f.loops[b] = li
		} else {
			li := f.loops[b]
			if li == nil {
				li = &loopInfo{mem: map[*V]*V{}, phis: map[*ssa.Phi]*V{}}
				if f.loops == nil {
					f.loops = map[*ssa.BasicBlock]*loopInfo{}
				}
				f.loops[b] = li
			}
			li.count++
			nl := make(map[*ssa.Phi]*V, len(phis))
			for i, p := range phis {
				nl[p] = vals[i]
			}
			wid := s
			exact := li.count <= e.unroll
			if exact {
				wid = s.clone()
			}
			e.widen(wid, b, phis, vals)
			li.last = nl
			wid.top().loops[b].last = nl
			if exact {
				s.top().pending = &pend{st: wid, block: b}
				return e.dedupe(s, "x")
			}
			return e.dedupe(s, "")
		}
	}
	if len(b.Preds) > 1 {
		return e.dedupe(s, "")
	}
	return true
}

func (e *Engine) dedupe(s *State, tag string) bool {
	e.gc(s)
	k := tag + e.stateKey(s)
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	e.states++
	return true
}

func (e *Engine) keepInLoop(v *V) bool {
	if v == nil {
		return true
	}
	if v.size > 14 {
		return false
	}
	switch v.K {
	case KConst:
		return v.C == nil || v.C.Kind() == constant.Bool
	case KTerm:
		switch {
		case strings.HasPrefix(v.Op, "arith:"), v.Op == "wide":
			return v.Op == "wide"
		}
	case KAddr, KSlice, KStruct, KIface, KTuple, KFunc:
		for _, a := range v.Args {
			if a != nil && a.K == KConst && a.C != nil {
				continue // constant index / offset
			}
			if !e.keepInLoop(a) {
				return false
			}
		}
		return true
	}
	for _, a := range v.Args {
		if a != nil && a.K == KConst {
			continue
		}
		if !e.keepInLoop(a) {
			return false
		}
	}
	return true
}

func (e *Engine) widen(s *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*V) {
	f := s.top()
	li := f.loops[h]
	for i, p := range phis {
		v := vals[i]
		grow := false
		if li != nil {
			if q := li.last[p]; q != nil && q != v && v.size > q.size && v.mentions(func(x *V) bool { return x == q }) {
				grow = true
			}
			if li.last == nil {
				li.last = map[*ssa.Phi]*V{}
			}
		}
		if !grow && e.keepInLoop(v) || (li != nil && li.phis[p] == v) {
			continue
		}
		if v.K == KSlice && !grow { // slice that grew: keep base when same object, forget bounds
			f.set(p, e.fresh(s, KTerm, e.site(f, p)+"w", p.Type()))
			continue
		}
		f.set(p, e.fresh(s, KTerm, e.site(f, p)+"w", p.Type()))
	}
	for a, v := range s.mem {
		if e.keepInLoop(v) {
			continue
		}
		if li != nil && li.mem[a] == v {
			continue
		}
		s.mem[a] = e.fresh(s, KTerm, fmt.Sprintf("wide%d", a.id), v.T)
	}
}

func (e *Engine) exec(s *State) {
	for !e.stop {
		if len(s.frames) == 0 {
			return
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			e.giveUp("fell off block in %s", f.fn)
			return
		}
		e.steps++
		if e.steps > e.maxSteps {
			e.giveUp("state budget exhausted in %s (%d states)", f.fn, e.states)
			return
		}
		if e.steps&1023 == 0 && time.Now().After(e.deadline) {
			e.giveUp("time budget exhausted in %s (%d states)", f.fn, e.states)
			return
		}
		if e.steps&255 == 0 && lowMemory.Load() {
			e.giveUp("memory budget exhausted in %s (%d states)", f.fn, e.states)
			return
		}
		ins := f.block.Instrs[f.pc]
		if e.h.OnInstr != nil {
			e.h.OnInstr(s, ins)
		}
		switch x := ins.(type) {
		case *ssa.If:
			if !e.execIf(s, x) {
				return
			}
		case *ssa.Jump:
			if !e.jump(s, f.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			var r *V
			switch len(x.Results) {
			case 0:
				r = e.Nil(nil)
			case 1:
				r = e.val(s, x.Results[0])
			default:
				rs := make([]*V, len(x.Results))
				for i, y := range x.Results {
					rs[i] = e.val(s, y)
				}
				r = e.Tuple(rs...)
			}
			if !e.doReturn(s, r) {
				return
			}
		case *ssa.Panic:
			s.note(x.Pos(), "panic")
			if !e.doPanic(s, e.val(s, x.X)) {
				return
			}
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if !e.runDefer(s, d, ins) {
					return
				}
				continue
			}
			f.pc++
		case *ssa.Defer:
			fv, args := e.callTarget(s, &x.Call)
			f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{&x.Call, fv, args, x.Pos()})
			f.pc++
		case *ssa.Send:
			done, cont := e.send(s, x)
			if !cont {
				return
			}
			if done {
				f.pc++
				if cv := e.val(s, x.Chan); e.chanOf(s, cv) != nil {
					e.resume(s, cv)
				}
			}
		case *ssa.Go:
			e.goCount++
			fv, args := e.callTarget(s, &x.Call)
			if !e.doCall(s, ins, &x.Call, fv, args, true) {
				return
			}
		case *ssa.Call:
			fv, args := e.callTarget(s, &x.Call)
			if !e.doCall(s, ins, &x.Call, fv, args, false) {
				return
			}
		default:
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
				if c := e.chanOf(s, e.val(s, u.X)); c != nil {
					if !e.recv(s, u, c) {
						return
					}
					continue
				}
			}
			alts := e.step(s, ins)
			if alts == nil {
				return
			}
			if v, ok := ins.(ssa.Value); ok {
				for i := 1; i < len(alts); i++ {
					n := s.clone()
					if alts[i].then != nil {
						alts[i].then(n)
					}
					n.top().set(v, alts[i].v)
					n.top().pc++
					e.work = append(e.work, n)
				}
				if alts[0].then != nil {
					alts[0].then(s)
				}
				s.top().set(v, alts[0].v)
			}
			s.top().pc++
		}
	}
}

type alt struct {
	v    *V
	then func(*State)
}

func one(v *V) []alt { return []alt{{v, nil}} }

func (e *Engine) execIf(s *State, x *ssa.If) bool {
	f := s.top()
	c := e.val(s, x.Cond)
	t := e.truth(s, c)
	if t == unk {
		if p := f.pending; p != nil && p.block == f.block {
			// loop header not decided: continue with the widened state
			w := p.st
			if !e.dedupe(w, "") {
				return false
			}
			e.work = append(e.work, w)
			return false
		}
		if forkProf != nil {
			forkProf(e.pos(condPos(x)) + " " + trimS(c))
		}
		n := s.clone()
		n.note(condPos(x), "%s is false", trimS(c))
		e.assume(n, c, false)
		if e.jump(n, n.top().block.Succs[1]) {
			e.work = append(e.work, n)
		}
		s.note(condPos(x), "%s is true", trimS(c))
		e.assume(s, c, true)
		return e.jump(s, f.block.Succs[0])
	}
	if t == yes {
		return e.jump(s, f.block.Succs[0])
	}
	return e.jump(s, f.block.Succs[1])
}

func trimS(v *V) string {
	s := v.String()
	if len(s) > 140 {
		s = s[:140] + "..."
	}
	return s
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, i := range x.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

// truth evaluates a boolean value with facts and hooks.
func (e *Engine) truth(s *State, c *V) tri {
	if c.isBool() {
		return b3(c.boolVal())
	}
	if c.K == KTerm {
		switch c.Op {
		case "not":
			switch e.truth(s, c.Args[0]) {
			case yes:
				return no
			case no:
				return yes
			}
			return unk
		case "eq":
			if r := e.eqFacts(s, c.Args[0], c.Args[1]); r != unk {
				return r
			}
		case "lt":
			if r := e.ltFacts(s, c.Args[0], c.Args[1]); r != unk {
				return r
			}
		}
	}
	if v, ok := s.facts[c]; ok {
		return b3(v)
	}
	if e.h.Decide != nil {
		return e.h.Decide(s, c)
	}
	return unk
}

func (e *Engine) eqFacts(s *State, a, b *V) tri {
	if r := e.eqVals(a, b); r != unk {
		return r
	}
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
		r := yes
		for i := range a.Args {
			switch e.truth(s, e.eq(a.Args[i], b.Args[i])) {
			case no:
				return no
			case unk:
				r = unk
			}
		}
		if r == yes {
			return yes
		}
	}
	if v, ok := s.facts[e.eq(a, b)]; ok {
		return b3(v)
	}
	// x == c1 known => x != c2
	for f, tv := range s.facts {
		if !tv || f.K != KTerm || f.Op != "eq" {
			continue
		}
		var other *V
		x, y := f.Args[0], f.Args[1]
		switch {
		case x == a && y != b:
			other = y
			if e.eqVals(other, b) == no {
				return no
			}
		case y == a && x != b:
			other = x
			if e.eqVals(other, b) == no {
				return no
			}
		case x == b && y != a:
			other = y
			if e.eqVals(other, a) == no {
				return no
			}
		case y == b && x != a:
			other = x
			if e.eqVals(other, a) == no {
				return no
			}
		}
	}
	if v, ok := s.facts[e.Term("lt", nil, a, b)]; ok && v {
		return no
	}
	if v, ok := s.facts[e.Term("lt", nil, b, a)]; ok && v {
		return no
	}
	return unk
}

func (e *Engine) ltFacts(s *State, a, b *V) tri {
	if v, ok := s.facts[e.Term("lt", nil, a, b)]; ok {
		return b3(v)
	}
	if v, ok := s.facts[e.Term("lt", nil, b, a)]; ok && v {
		return no
	}
	if v, ok := s.facts[e.eq(a, b)]; ok && v {
		return no
	}
	return unk
}

func (e *Engine) assume(s *State, c *V, b bool) {
	for c.K == KTerm && c.Op == "not" {
		c = c.Args[0]
		b = !b
	}
	s.facts[c] = b
}

// ---- boolean term construction ----

func (e *Engine) not(v *V) *V {
	if v.isBool() {
		return e.Bool(!v.boolVal())
	}
	if v.K == KTerm && v.Op == "not" {
		return v.Args[0]
	}
	return e.Term("not", types.Typ[types.Bool], v)
}

func (e *Engine) eq(a, b *V) *V {
	switch e.eqVals(a, b) {
	case yes:
		return e.Bool(true)
	case no:
		return e.Bool(false)
	}
	// eq(x, true) -> x
	if a.isBool() {
		a, b = b, a
	}
	if b.isBool() {
		if b.boolVal() {
			return a
		}
		return e.not(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.Term("eq", types.Typ[types.Bool], a, b)
}

func (e *Engine) lt(a, b *V) *V {
	if a == b {
		return e.Bool(false)
	}
	if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil {
		if a.C.Kind() == b.C.Kind() || isNumConst(a) && isNumConst(b) {
			return e.Bool(constant.Compare(a.C, token.LSS, b.C))
		}
	}
	isLen := func(v *V) bool { return v.K == KTerm && (v.Op == "len" || v.Op == "cap") }
	if isLen(b) {
		if i, ok := a.intVal(); ok {
			if i < 0 {
				return e.Bool(true)
			}
			if i == 0 {
				return e.not(e.eq(b, e.Int(0)))
			}
		}
	}
	if i, ok := b.intVal(); ok && i <= 0 && a.K == KTerm && a.T != nil {
		if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			return e.Bool(false)
		}
	}
	if isLen(a) {
		if i, ok := b.intVal(); ok {
			if i <= 0 {
				return e.Bool(false)
			}
			if i == 1 {
				return e.eq(a, e.Int(0))
			}
		}
	}
	return e.Term("lt", types.Typ[types.Bool], a, b)
}

// ---- plain instructions ----

func (e *Engine) step(s *State, ins ssa.Instruction) []alt {
	f := s.top()
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return []alt{{}}
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := e.fresh(s, KObj, e.site(f, x), t)
		e.clearObj(s, o)
		return one(o)
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.BinOp:
		return one(e.binop(s, x.Op, e.val(s, x.X), e.val(s, x.Y), x.X.Type()))
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		return one(e.convert(s, ins.(ssa.Value)))
	case *ssa.MakeInterface:
		return one(e.in.mk(V{K: KIface, T: x.X.Type(), Args: []*V{e.val(s, x.X)}}))
	case *ssa.MakeClosure:
		bs := make([]*V, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = e.val(s, b)
		}
		return one(e.in.mk(V{K: KFunc, Fn: x.Fn.(*ssa.Function), Args: bs}))
	case *ssa.MakeMap:
		o := e.fresh(s, KObj, e.site(f, x), x.Type())
		e.clearObj(s, o)
		e.setMapKeys(s, o, nil)
		return one(o)
	case *ssa.MakeChan:
		o := e.fresh(s, KObj, e.site(f, x), x.Type())
		e.clearObj(s, o)
		e.makeChan(s, o, e.val(s, x.Size))
		return one(o)
	case *ssa.MakeSlice:
		o := e.fresh(s, KObj, e.site(f, x), x.Type())
		e.clearObj(s, o)
		return one(e.Slice(o, e.Int(0), e.val(s, x.Len)))
	case *ssa.Slice:
		return one(e.slice(s, x))
	case *ssa.FieldAddr:
		b := e.val(s, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return e.withDeref(s, b, x, func(b *V) *V { return e.FieldAddr(b, st.Field(x.Field).Name()) })
	case *ssa.Field:
		return one(e.fieldOf(e.val(s, x.X), x.Field, x.X.Type().Underlying().(*types.Struct)))
	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		if e.h.OnIndex != nil {
			e.h.OnIndex(s, b, i, x)
		}
		if b.IsNil() {
			s.note(x.Pos(), "index of nil slice: crash")
			e.doPanic(s, e.Str("index out of range"))
			e.requeue(s)
			return nil
		}
		if b.K == KSlice {
			if iv, ok := i.intVal(); ok {
				if lv, ok2 := b.Args[2].intVal(); ok2 && iv >= lv {
					s.note(x.Pos(), "index %d out of range (length %d): crash", iv, lv)
					e.doPanic(s, e.Str("index out of range"))
					e.requeue(s)
					return nil
				}
			}
			return one(e.ElemAddr(b.Args[0], e.arith(token.ADD, b.Args[1], i, types.Typ[types.Int])))
		}
		return one(e.ElemAddr(b, i))
	case *ssa.Index:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		if iv, ok := i.intVal(); ok && b.K == KStruct && int(iv) < len(b.Args) {
			return one(b.Args[iv])
		}
		if iv, ok := i.intVal(); ok && b.K == KConst && b.C != nil && b.C.Kind() == constant.String {
			if str := constant.StringVal(b.C); iv >= 0 && iv < int64(len(str)) {
				return one(e.Const(constant.MakeInt64(int64(str[iv])), x.Type()))
			}
		}
		return one(e.Term("index", x.Type(), b, i))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.touchMap(s, e.val(s, x.X), false, x.Pos())
		}
		return e.lookup(s, x)
	case *ssa.Range:
		m := e.val(s, x.X)
		e.touchMap(s, m, false, x.Pos())
		it := e.fresh(s, KObj, e.site(f, x), x.Type())
		e.clearObj(s, it)
		s.mem[e.FieldAddr(it, "#over")] = m
		s.mem[e.FieldAddr(it, "#seen")] = e.Tuple()
		if ks, ok := e.mapKeys(s, m); ok {
			s.mem[e.FieldAddr(it, "#init")] = e.Tuple(ks...)
		}
		return one(it)
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.K == KTuple && x.Index < len(t.Args) {
			return one(t.Args[x.Index])
		}
		return one(e.Term(fmt.Sprintf("ext%d", x.Index), x.Type(), t))
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Store:
		a := e.val(s, x.Addr)
		if a.IsNil() {
			s.note(x.Pos(), "store through nil pointer: crash")
			e.doPanic(s, e.Str("nil dereference"))
			e.requeue(s)
			return nil
		}
		v := e.val(s, x.Val)
		if e.h.OnStore != nil {
			e.h.OnStore(s, a, v, x)
		}
		e.touchT(s, a, x.Val.Type(), true, x.Pos())
		e.store(s, a, v, x.Val.Type())
		return []alt{{}}
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		k = e.resolveKey(s, m, k)
		if e.h.OnMapUpdate != nil {
			e.h.OnMapUpdate(s, m, k, v, x)
		}
		e.touchMap(s, m, true, x.Pos())
		e.mapSet(s, m, k, v)
		e.dropMapFacts(s, m, k)
		return []alt{{}}
	case *ssa.Select:
		return one(e.fresh(s, KTerm, e.site(f, x), x.Type()))
	}
	e.giveUp("unsupported instruction %T in %s", ins, f.fn)
	return nil
}

func (e *Engine) requeue(s *State) {
	if len(s.frames) > 0 {
		e.work = append(e.work, s)
	}
}

// resolveKey maps k to an equal existing key if the path facts say so.
func (e *Engine) resolveKey(s *State, m, k *V) *V {
	ks, ok := e.mapKeys(s, m)
	if !ok {
		return k
	}
	for _, x := range ks {
		if x == k {
			return k
		}
	}
	for _, x := range ks {
		if e.eqFacts(s, x, k) == yes {
			return x
		}
	}
	return k
}

func (e *Engine) dropMapFacts(s *State, m, k *V) {
	for f := range s.facts {
		if f.K == KTerm && f.Op == "mapok" && f.Args[0] == m && e.eqVals(f.Args[1], k) != no {
			delete(s.facts, f)
		}
	}
}

func (e *Engine) clearObj(s *State, o *V) {
	for a := range s.mem {
		if a.root() == o {
			delete(s.mem, a)
		}
	}
	s.par.forget(o)
}

// withDeref handles nil / unknown pointers.
func (e *Engine) withDeref(s *State, b *V, ins ssa.Instruction, mk func(*V) *V) []alt {
	if b.IsNil() || b.K == KTerm && len(s.facts) > 0 && (s.facts[e.eq(b, e.Nil(b.T))] || s.facts[e.eq(b, e.Nil(nil))]) {
		s.note(ins.Pos(), "nil pointer dereference: crash")
		e.doPanic(s, e.Str("nil dereference"))
		e.requeue(s)
		return nil
	}
	if e.h.OnDeref != nil {
		e.h.OnDeref(s, b, ins)
	}
	return one(mk(b))
}

func (e *Engine) unop(s *State, x *ssa.UnOp) []alt {
	v := e.val(s, x.X)
	switch x.Op {
	case token.MUL:
		return e.withDeref(s, v, x, func(v *V) *V {
			e.touchT(s, v, x.Type(), false, x.Pos())
			return e.load(s, v, x.Type())
		})
	case token.NOT:
		return one(e.not(v))
	case token.ARROW:
		t := e.fresh(s, KTerm, e.site(s.top(), x), x.Type())
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			return one(e.Tuple(e.Term("recv", tt.At(0).Type(), t), e.Term("recvok", tt.At(1).Type(), t)))
		}
		return one(t)
	case token.SUB, token.XOR:
		if v.K == KConst && v.C != nil {
			prec := uint(0)
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				prec = uintBits(b)
			}
			return one(e.Const(constant.UnaryOp(x.Op, v.C, prec), x.Type()))
		}
		return one(e.Term("arith:"+x.Op.String()+"1", x.Type(), v))
	}
	return one(e.Term("unop:"+x.Op.String(), x.Type(), v))
}

func uintBits(b *types.Basic) uint {
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	}
	return 64
}

func (e *Engine) binop(s *State, op token.Token, a, b *V, t types.Type) *V {
	if isNaN(a) || isNaN(b) {
		switch op {
		case token.EQL, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return e.Bool(false)
		case token.NEQ:
			return e.Bool(true)
		}
		return e.Term("nan", t)
	}
	switch op {
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return e.not(e.eq(a, b))
	case token.LSS:
		return e.lt(a, b)
	case token.GTR:
		return e.lt(b, a)
	case token.LEQ:
		return e.not(e.lt(b, a))
	case token.GEQ:
		return e.not(e.lt(a, b))
	}
	return e.arith(op, a, b, t)
}

func (e *Engine) arith(op token.Token, a, b *V, t types.Type) *V {
	if r := e.numArith(op, a, b, t); r != nil {
		return r
	}
	if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil {
		isInt := false
		if bt, ok := t.Underlying().(*types.Basic); ok {
			isInt = bt.Info()&types.IsInteger != 0
		}
		switch op {
		case token.SHL, token.SHR:
			if n, ok := b.intVal(); ok && n >= 0 && n < 128 {
				return e.wrap(constant.Shift(constant.ToInt(a.C), op, uint(n)), t)
			}
		case token.QUO:
			if isInt {
				if z, ok := b.intVal(); ok && z != 0 {
					return e.wrap(constant.BinaryOp(constant.ToInt(a.C), token.QUO_ASSIGN, constant.ToInt(b.C)), t)
				}
				return e.Term("arith:div0", t, a, b)
			}
			if constant.Sign(b.C) == 0 && constant.Sign(a.C) == 0 {
				return e.Term("nan", t)
			}
			if constant.Sign(b.C) != 0 {
				return e.Const(constant.ToFloat(constant.BinaryOp(constant.ToFloat(a.C), token.QUO, constant.ToFloat(b.C))), t)
			}
		case token.REM:
			if z, ok := b.intVal(); ok && z != 0 {
				return e.wrap(constant.BinaryOp(constant.ToInt(a.C), op, constant.ToInt(b.C)), t)
			}
		default:
			if a.C.Kind() == constant.String && b.C.Kind() == constant.String && op == token.ADD {
				return e.Str(constant.StringVal(a.C) + constant.StringVal(b.C))
			}
			if isNumConst(a) && isNumConst(b) {
				if isInt {
					return e.wrap(constant.BinaryOp(constant.ToInt(a.C), op, constant.ToInt(b.C)), t)
				}
				return e.Const(constant.ToFloat(constant.BinaryOp(constant.ToFloat(a.C), op, constant.ToFloat(b.C))), t)
			}
			if a.isBool() && b.isBool() && (op == token.AND || op == token.OR) {
				if op == token.AND {
					return e.Bool(a.boolVal() && b.boolVal())
				}
				return e.Bool(a.boolVal() || b.boolVal())
			}
		}
	}
	if op == token.SUB && a == b {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return e.Const(constant.MakeInt64(0), t)
		}
		return e.Const(constant.ToFloat(constant.MakeInt64(0)), t)
	}
	if z, ok := b.intVal(); ok && z == 0 && (op == token.ADD || op == token.SUB) {
		if a.K != KConst {
			return a
		}
	}
	if z, ok := a.intVal(); ok && z == 0 && op == token.ADD {
		return b
	}
	// (x + c1) + c2 -> x + (c1+c2)
	if (op == token.ADD || op == token.SUB) && isIntC(b) && a.K == KTerm && (a.Op == "arith:+") && isIntC(a.Args[1]) {
		c := e.arith(op, a.Args[1], b, t)
		if op == token.SUB {
			return e.arith(token.ADD, a.Args[0], c, t)
		}
		return e.arith(token.ADD, a.Args[0], c, t)
	}
	if op == token.SUB && isIntC(b) {
		n, _ := b.intVal()
		return e.arith(token.ADD, a, e.Const(constant.MakeInt64(-n), t), t)
	}
	if op == token.ADD && isIntC(a) && !isIntC(b) {
		a, b = b, a
	}
	if (op == token.MUL || op == token.AND || op == token.OR || op == token.XOR || op == token.ADD && isNumType(t)) && a.id > b.id && !isIntC(b) {
		a, b = b, a
	}
	return e.Term("arith:"+op.String(), t, a, b)
}

func isNaN(v *V) bool { return v.K == KTerm && v.Op == "nan" }

func isNumType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isIntC(v *V) bool {
	_, ok := v.intVal()
	return ok && v.C.Kind() == constant.Int
}

func (e *Engine) wrap(c constant.Value, t types.Type) *V {
	if b, ok := t.Underlying().(*types.Basic); ok {
		var bits uint
		signed := b.Info()&types.IsUnsigned == 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			bits = 8
		case types.Int16, types.Uint16:
			bits = 16
		case types.Int32, types.Uint32:
			bits = 32
		default:
			bits = 64
		}
		m := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
		mask := constant.BinaryOp(m, token.SUB, constant.MakeInt64(1))
		c = constant.BinaryOp(c, token.AND, mask)
		if signed {
			half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
			if constant.Compare(c, token.GEQ, half) {
				c = constant.BinaryOp(c, token.SUB, m)
			}
		}
	}
	return e.Const(c, t)
}

func (e *Engine) convert(s *State, x ssa.Value) *V {
	var v *V
	switch y := x.(type) {
	case *ssa.ChangeType:
		v = e.val(s, y.X)
	case *ssa.ChangeInterface:
		v = e.val(s, y.X)
	case *ssa.MultiConvert:
		v = e.val(s, y.X)
	case *ssa.SliceToArrayPointer:
		v = e.val(s, y.X)
	case *ssa.Convert:
		v = e.val(s, y.X)
		if v.K == KTerm && v.Op == "bytes" && len(v.Args) == 1 {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return v.Args[0]
			}
		}
		to, ok1 := x.Type().Underlying().(*types.Basic)
		from, ok2 := y.X.Type().Underlying().(*types.Basic)
		if v.K == KConst && v.C != nil && ok1 && ok2 {
			switch {
			case to.Info()&types.IsInteger != 0 && from.Info()&types.IsInteger != 0:
				return e.wrap(v.C, x.Type())
			case to.Info()&types.IsInteger != 0 && from.Info()&types.IsFloat != 0:
				fl, _ := constant.Float64Val(v.C)
				if fl > -1e15 && fl < 1e15 {
					return e.wrap(constant.MakeInt64(int64(fl)), x.Type())
				}
			case to.Info()&types.IsFloat != 0 && from.Info()&types.IsNumeric != 0:
				if e.nums {
					f, _ := constFloat(v)
					return e.floatConst(f, x.Type())
				}
				return e.Const(constant.ToFloat(v.C), x.Type())
			case to.Info()&types.IsString != 0 && from.Info()&types.IsInteger != 0:
				if i, ok := v.intVal(); ok {
					return e.Str(string(rune(i)))
				}
			}
		}
		if ok1 && ok2 && to.Info()&types.IsInteger != 0 && from.Info()&types.IsFloat != 0 {
			return e.Term("arith:trunc", x.Type(), v)
		}
		if ok1 && ok2 && to.Info()&types.IsString != 0 && from.Info()&types.IsInteger != 0 {
			return e.Term("runestr", x.Type(), v)
		}
	}
	return v
}

func (e *Engine) slice(s *State, x *ssa.Slice) *V {
	b := e.val(s, x.X)
	lo, hi := e.Int(0), (*V)(nil)
	if x.Low != nil {
		lo = e.val(s, x.Low)
	}
	if x.High != nil {
		hi = e.val(s, x.High)
	}
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok { // string
		if c, okc := b, b.K == KConst && b.C != nil; okc {
			str := constant.StringVal(c.C)
			l, ok1 := lo.intVal()
			h, ok2 := int64(len(str)), true
			if hi != nil {
				h, ok2 = hi.intVal()
			}
			if ok1 && ok2 && l >= 0 && h <= int64(len(str)) && l <= h {
				return e.Str(str[l:h])
			}
		}
		if hi == nil {
			hi = e.Nil(nil)
		}
		return e.Term("substr", x.Type(), b, lo, hi)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		if hi == nil {
			hi = e.Int(p.Elem().Underlying().(*types.Array).Len())
		}
		return e.Slice(b, lo, e.arith(token.SUB, hi, lo, types.Typ[types.Int]))
	}
	if b.IsNil() {
		return b
	}
	if b.K == KSlice {
		if hi == nil {
			hi = b.Args[2]
		}
		return e.Slice(b.Args[0], e.arith(token.ADD, b.Args[1], lo, types.Typ[types.Int]), e.arith(token.SUB, hi, lo, types.Typ[types.Int]))
	}
	if hi == nil {
		hi = e.lenOf(s, b)
	}
	if z, ok := lo.intVal(); ok && z == 0 && hi == e.lenOf(s, b) {
		return b
	}
	return e.Slice(b, lo, e.arith(token.SUB, hi, lo, types.Typ[types.Int]))
}

func (e *Engine) lenOf(s *State, v *V) *V {
	switch {
	case v.IsNil():
		return e.Int(0)
	case v.K == KSlice:
		return v.Args[2]
	case v.K == KConst && v.C != nil && v.C.Kind() == constant.String:
		return e.Int(int64(len(constant.StringVal(v.C))))
	case v.K == KObj:
		if ks, ok := e.mapKeys(s, v); ok {
			if e.hasRest(s, v) {
				return e.Term("len", types.Typ[types.Int], v)
			}
			return e.Int(int64(len(ks)))
		}
	case v.K == KStruct:
		return e.Int(int64(len(v.Args)))
	}
	return e.Term("len", types.Typ[types.Int], v)
}

func (e *Engine) hasRest(s *State, m *V) bool {
	v, ok := s.mem[e.FieldAddr(m, "#rest")]
	return ok && v.isBool() && v.boolVal()
}

func (e *Engine) lookup(s *State, x *ssa.Lookup) []alt {
	m, k := e.val(s, x.X), e.val(s, x.Index)
	mk := func(v *V, ok bool) *V {
		if x.CommaOk {
			return e.Tuple(v, e.Bool(ok))
		}
		return v
	}
	if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
		if iv, ok := k.intVal(); ok && m.K == KConst && m.C != nil {
			str := constant.StringVal(m.C)
			if iv < int64(len(str)) && iv >= 0 {
				return one(e.Const(constant.MakeInt64(int64(str[iv])), x.Type()))
			}
		}
		return one(e.Term("index", x.Type(), m, k))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if m.IsNil() {
		return one(mk(e.Zero(mt.Elem()), false))
	}
	if v, ok := s.mem[e.EntryAddr(m, k)]; ok {
		return one(mk(v, true))
	}
	if ks, ok := e.mapKeys(s, m); ok {
		var alts []alt
		absent := true
		for _, q := range ks {
			switch e.eqFacts(s, q, k) {
			case yes:
				return one(mk(s.mem[e.EntryAddr(m, q)], true))
			case unk:
				q := q
				alts = append(alts, alt{mk(s.mem[e.EntryAddr(m, q)], true), func(n *State) {
					e.assume(n, e.eq(q, k), true)
					n.note(x.Pos(), "map key %s equals %s", trimS(k), trimS(q))
				}})
			}
		}
		if absent {
			if e.hasRest(s, m) {
				alts = append(alts, e.openLookup(s, x, m, k, mt)...)
			} else {
				alts = append(alts, alt{mk(e.Zero(mt.Elem()), false), func(n *State) {
					for _, q := range ks {
						if t := e.eq(q, k); t.K == KTerm {
							e.assume(n, t, false)
						}
					}
				}})
			}
		}
		return alts
	}
	return e.openLookup(s, x, m, k, mt)
}

// openLookup: lookup in a map whose content is symbolic.
func (e *Engine) openLookup(s *State, x *ssa.Lookup, m, k *V, mt *types.Map) []alt {
	v := e.Term("mapget", mt.Elem(), m, k)
	okT := e.Term("mapok", types.Typ[types.Bool], m, k)
	if e.h.MapGet != nil {
		if hv, ok, handled := e.h.MapGet(s, m, k, mt.Elem()); handled {
			v = hv
			switch ok {
			case yes:
				okT = e.Bool(true)
			case no:
				okT = e.Bool(false)
			}
		}
	}
	if x.CommaOk {
		return one(e.Tuple(v, okT))
	}
	return one(v)
}

func (e *Engine) next(s *State, x *ssa.Next) []alt {
	it := e.val(s, x.Iter)
	m := s.mem[e.FieldAddr(it, "#over")]
	f := s.top()
	if m == nil {
		m = e.Term("undef", nil)
	}
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	fin := e.Tuple(e.Bool(false), e.Zero2(kt), e.Zero2(vt))
	if x.IsString {
		if m.K == KConst && m.C != nil && constant.StringVal(m.C) == "" {
			return one(fin)
		}
		if m.K == KConst && m.C != nil && len(constant.StringVal(m.C)) <= 40 {
			str, pos := constant.StringVal(m.C), int64(0)
			cell := e.FieldAddr(it, "#pos")
			if v := s.mem[cell]; v != nil {
				pos, _ = v.intVal()
			}
			if pos >= int64(len(str)) {
				return one(fin)
			}
			for i, c := range str[pos:] {
				if i == 0 {
					s.mem[cell] = e.Int(pos + int64(utf8.RuneLen(c)))
					return one(e.Tuple(e.Bool(true), e.Const(constant.MakeInt64(pos), kt), e.Const(constant.MakeInt64(int64(c)), vt)))
				}
			}
		}
		if p := f.pending; p != nil && p.block == f.block {
			e.usePending(p)
			return nil
		}
		k := e.fresh(s, KTerm, e.site(f, x)+"k", kt)
		v := e.fresh(s, KTerm, e.site(f, x)+"v", vt)
		return []alt{{fin, nil}, {e.Tuple(e.Bool(true), k, v), nil}}
	}
	if m.IsNil() {
		return one(fin)
	}
	ks, known := e.mapKeys(s, m)
	seenCell := e.FieldAddr(it, "#seen")
	seen := s.mem[seenCell]
	rest := !known || e.hasRest(s, m)
	if rest {
		if p := f.pending; p != nil && p.block == f.block {
			e.usePending(p)
			return nil
		}
	}
	var alts []alt
	left := 0
	var todo []*V
	for _, k := range ks {
		done := false
		for _, q := range seen.Args {
			if q == k {
				done = true
			}
		}
		if !done {
			todo = append(todo, k)
		}
	}
	all := todo
	if e.h.MaxKnownRange == 2 && len(todo) > 1 { // ascending and descending order only
		lo, hi := todo[0], todo[len(todo)-1]
		switch {
		case len(seen.Args) == 0:
			todo = []*V{lo, hi}
		case seen.Args[0].id < lo.id:
			todo = []*V{lo}
		default:
			todo = []*V{hi}
		}
		left = 2 - len(todo)
	}
	choose := false
	if e.h.MaxKnownRange == 3 && len(todo) > 1 { // one direction for the whole run
		lo, hi := todo[0], todo[len(todo)-1]
		switch d := s.marks["rangedir"]; {
		case d == nil:
			todo = []*V{lo, hi}
			choose = true
		case d.boolVal():
			todo = []*V{lo}
		default:
			todo = []*V{hi}
		}
		left = 2 - len(todo)
	}
	for i, k := range todo {
		left++
		k := k
		dir := e.Bool(i == 0)
		nseen := e.Tuple(insertSorted(seen.Args, k)...)
		alts = append(alts, alt{e.Tuple(e.Bool(true), k, s.mem[e.EntryAddr(m, k)]), func(n *State) {
			n.mem[seenCell] = nseen
			if choose {
				n.marks["rangedir"] = dir
			}
		}})
		if e.h.MaxKnownRange == 1 {
			break // iteration order not explored
		}
	}
	if rest {
		var k, v *V
		ok := false
		if e.h.RangeRest != nil {
			k, v, ok = e.h.RangeRest(s, m, kt, vt)
		}
		if !ok {
			k = e.fresh(s, KTerm, e.site(f, x)+"k", kt)
			var mv types.Type = vt
			v = e.Term("mapget", mv, m, k)
		}
		okT := e.Term("mapok", types.Typ[types.Bool], m, k)
		alts = append(alts, alt{e.Tuple(e.Bool(true), k, v), func(n *State) { n.facts[okT] = true }})
	}
	if left > 0 && !rest { // entries inserted since the range began may be skipped
		if init := s.mem[e.FieldAddr(it, "#init")]; init != nil {
			old := false
			for _, k := range all {
				for _, q := range init.Args {
					old = old || q == k
				}
			}
			if !old {
				left = 0
			}
		}
	}
	if left == 0 {
		alts = append(alts, alt{fin, nil})
	}
	return alts
}

func insertSorted(a []*V, k *V) []*V {
	n := append(append([]*V(nil), a...), k)
	for i := len(n) - 1; i > 0 && n[i].id < n[i-1].id; i-- {
		n[i], n[i-1] = n[i-1], n[i]
	}
	return n
}

func (e *Engine) Zero2(t types.Type) *V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.Nil(nil)
	}
	return e.Zero(t)
}

func (e *Engine) usePending(p *pend) {
	if e.dedupe(p.st, "") {
		e.work = append(e.work, p.st)
	}
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []alt {
	v := e.val(s, x.X)
	res := func(r *V, ok bool) *V {
		if x.CommaOk {
			return e.Tuple(r, e.Bool(ok))
		}
		return r
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if v.K == KIface {
		var match bool
		if toIface {
			match = types.Implements(v.T, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(v.T, x.AssertedType)
		}
		if match {
			if toIface {
				return one(res(v, true))
			}
			return one(res(v.Args[0], true))
		}
		if !x.CommaOk {
			e.doPanic(s, e.Str("type assertion"))
			e.requeue(s)
			return nil
		}
		return one(res(e.Zero(x.AssertedType), false))
	}
	if v.IsNil() {
		if !x.CommaOk {
			e.doPanic(s, e.Str("type assertion"))
			e.requeue(s)
			return nil
		}
		return one(res(e.Zero(x.AssertedType), false))
	}
	r := e.Term("assert:"+typeKey(x.AssertedType), x.AssertedType, v)
	if x.CommaOk {
		return one(e.Tuple(r, e.Term("isType:"+typeKey(x.AssertedType), types.Typ[types.Bool], v)))
	}
	return one(r)
}

const (
	addTok = token.ADD
	subTok = token.SUB
)

// lowMemory is set while the states of all runs hold more than maxHeap bytes: every run then gives up, which is reported.
var lowMemory atomic.Bool

const maxHeap = 18 << 30

func watchMemory() {
	debug.SetMemoryLimit(maxHeap * 3 / 4)
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		lowMemory.Store(m.HeapAlloc > maxHeap)
		time.Sleep(100 * time.Millisecond)
	}
}
