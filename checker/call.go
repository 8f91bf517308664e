package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callTarget(s *State, c *ssa.CallCommon) (*V, []*V) {
	args := make([]*V, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := e.val(s, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
		return recv, args
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return e.val(s, c.Value), args
}

func fnName(fn *ssa.Function) string {
	if fn.Object() != nil {
		return fn.Object().(*types.Func).FullName()
	}
	return fn.String()
}

// doCall executes a call; false means the state was queued or dropped.
func (e *Engine) doCall(s *State, ins ssa.Instruction, c *ssa.CallCommon, fv *V, args []*V, isGo bool) bool {
	f := s.top()
	cc := &CallCtx{e: e, s: s, instr: ins, call: c, fv: fv, args: args, isGo: isGo}
	cc.rt = callResult(c)
	var bindings []*V
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, ins, b.Name(), c, args)
	}
	if c.IsInvoke() {
		cc.name = "invoke:" + c.Method.FullName()
		if fv.K == KIface {
			if m := e.prog.LookupMethod(fv.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				cc.fn = m
				cc.name = fnName(m)
				args = append([]*V{fv.Args[0]}, args[1:]...)
				cc.args = args
			}
		}
	} else if fn := c.StaticCallee(); fn != nil {
		cc.fn = fn
		cc.name = fnName(fn)
		if fv.K == KFunc {
			bindings = fv.Args
		}
	} else if fv.K == KFunc {
		cc.fn = fv.Fn
		cc.name = fnName(fv.Fn)
		bindings = fv.Args
	} else {
		cc.name = "dyn"
	}
	if cc.fn != nil && cc.fn.Object() == nil && len(cc.fn.Blocks) > 0 && strings.HasPrefix(cc.fn.Synthetic, "bound") {
		// bound method closure: interpreted through its synthetic body
	}
	if len(args) > 0 && args[0].IsNil() && !isGo && (strings.HasPrefix(cc.name, "(*net/url.URL).") || strings.HasPrefix(cc.name, "(*net/mail.Address).")) {
		s.note(ins.Pos(), "nil pointer dereference in %s: crash", cc.name)
		return e.doPanic(s, e.Str("nil dereference"))
	}
	handled := false
	if e.h.Call != nil {
		handled = e.h.Call(cc)
	}
	if !handled && !isGo {
		if h, done, cont := e.syncCall(s, cc.name, args, ins); h {
			if done {
				cc.res = []*V{e.Nil(nil)}
				return e.setResult(s, ins, cc)
			}
			return cont
		}
	}
	if !handled {
		handled = e.stdCall(cc) || e.modelPrim(cc)
	}
	if !handled && !isGo {
		if fn, margs := e.modelCall(s, cc.name, args); fn != nil && len(s.frames) <= e.maxDepth {
			f.pc++
			e.pushFrame(s, fn, margs, nil, ins, f.ctx)
			return true
		}
	}
	if cc.kill {
		return false
	}
	if handled {
		return e.setResult(s, ins, cc)
	}
	if cc.fn != nil && len(cc.fn.Blocks) > 0 && e.shouldInline(s, cc.fn) {
		f.pc++ // continue after the call on return
		nf := e.pushFrame(s, cc.fn, args, bindings, ins, f.ctx)
		if isGo {
			nf.isGo = true
			nf.gid = e.spawn(s, ins.Pos())
		}
		return true
	}
	if isGo {
		f.pc++
		return true
	}
	// opaque
	r := e.opaqueResult(s, cc)
	cc.res = []*V{r}
	return e.setResult(s, ins, cc)
}

func callResult(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (e *Engine) opaqueResult(s *State, cc *CallCtx) *V {
	if cc.rt == nil {
		return e.Nil(nil)
	}
	var mk func(i int, t types.Type) *V
	if cc.fn != nil && pureFn(cc.fn, cc.name) {
		as := make([]*V, len(cc.args))
		for i, a := range cc.args {
			as[i] = e.canonArg(s, a)
		}
		mk = func(i int, t types.Type) *V {
			return e.Term(fmt.Sprintf("call:%s:%d", cc.name, i), t, as...)
		}
	} else {
		f := s.top()
		sym := e.fresh(s, KTerm, e.site(f, cc.instr)+"r", cc.rt)
		mk = func(i int, t types.Type) *V {
			if i == 0 {
				return sym
			}
			return e.Term(fmt.Sprintf("ext%d", i), t, sym)
		}
	}
	if tt, ok := cc.rt.(*types.Tuple); ok {
		rs := make([]*V, tt.Len())
		for i := range rs {
			rs[i] = mk(i, tt.At(i).Type())
		}
		return e.Tuple(rs...)
	}
	return mk(0, cc.rt)
}

// canonArg replaces slices of known content by their content, so that pure calls on equal content give equal terms.
func (e *Engine) canonArg(s *State, a *V) *V {
	if a.K == KTok {
		return e.contentOf(s, a)
	}
	if a.K == KSlice {
		if n, ok := a.Args[2].intVal(); ok && n <= 16 {
			if o, ok := a.Args[1].intVal(); ok {
				var el []*V
				for i := int64(0); i < n; i++ {
					v, ok := s.mem[e.ElemAddr(a.Args[0], e.Int(o+i))]
					if !ok {
						v = e.Term("elem", nil, a.Args[0], e.Int(o+i))
					}
					el = append(el, e.canonArg(s, v))
				}
				if el != nil {
					return e.Tuple(el...)
				}
			}
		}
	}
	return a
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "net/url": true, "net/mail": true,
	"path": true, "path/filepath": true, "time": true, "bytes": true, "errors": true, "sort": false, "math/bits": true, "regexp": true, "cmp": true, "slices": false}

func pureFn(fn *ssa.Function, name string) bool {
	p := fn.Package()
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			path := fn.Object().Pkg().Path()
			return purePkgs[path] || path == parserMod+"/gtfs"
		}
		return false
	}
	path := p.Pkg.Path()
	if path == "time" && (fn.Name() == "Now" || fn.Name() == "Since") {
		return false
	}
	if path == "fmt" {
		return strings.HasPrefix(fn.Name(), "Sprint")
	}
	if purePkgs[path] {
		return true
	}
	return path == parserMod+"/gtfs" || strings.HasSuffix(path, "go-units")
}

func (e *Engine) setResult(s *State, ins ssa.Instruction, cc *CallCtx) bool {
	if cc.panics {
		n := s.clone()
		n.note(ins.Pos(), "%s panics", cc.name)
		n.marks["panicked"] = e.Bool(true)
		if e.doPanic(n, e.Term("panic:"+cc.name, nil)) {
			e.work = append(e.work, n)
		}
	}
	v, isVal := ins.(*ssa.Call)
	if len(cc.res) == 0 {
		if isVal {
			s.top().set(v, e.Nil(nil))
		}
		s.top().pc++
		return true
	}
	for i := 1; i < len(cc.res); i++ {
		n := s.clone()
		if isVal {
			n.top().set(v, cc.res[i])
		}
		n.top().pc++
		e.work = append(e.work, n)
	}
	if isVal {
		s.top().set(v, cc.res[0])
	}
	s.top().pc++
	return true
}

func (e *Engine) shouldInline(s *State, fn *ssa.Function) bool {
	if len(s.frames) > e.maxDepth {
		return false
	}
	rec := 0
	for _, f := range s.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > e.maxRec {
		return false
	}
	if e.h.Inline != nil {
		if in, dec := e.h.Inline(fn); dec {
			return in
		}
	}
	return e.defaultInline(fn)
}

func (e *Engine) defaultInline(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil { // wrappers, generics
		return inlinePkg(fn.Object().Pkg().Path(), fn)
	}
	if p == nil && fn.Parent() != nil {
		return true
	}
	if p == nil {
		return fn.Synthetic != ""
	}
	return inlinePkg(p.Pkg.Path(), fn)
}

func inlinePkg(path string, fn *ssa.Function) bool {
	if strings.HasPrefix(path, repoMod) {
		return true
	}
	switch path {
	case "slices", "maps", "cmp", "golang.org/x/exp/slices", "golang.org/x/exp/maps":
		return !strings.Contains(fn.Name(), "Sort") && len(fn.Blocks) > 0
	}
	if path == parserMod+"/gtfs" && fn.Name() == "EmptyService" {
		return true
	}
	if path == parserMod+"/gtfs" {
		recv := fn.Signature.Recv()
		if recv != nil {
			n := typeKey(recv.Type())
			if strings.HasSuffix(n, ".Date") || strings.HasSuffix(n, ".Time") || strings.HasSuffix(n, ".Timezone") || strings.HasSuffix(n, ".LanguageISO6391") {
				return false
			}
			if fn.Name() == "SortFrequencies" {
				return false
			}
			return true
		}
		return false
	}
	if path == parserMod {
		return strings.HasPrefix(fn.Name(), "Delete") || fn.Name() == "CleanTransfers"
	}
	return false
}

// doReturn pops the top frame.
func (e *Engine) doReturn(s *State, r *V) bool {
	f := s.top()
	if len(s.frames) == 1 && e.resume(s, nil) {
		return true // goroutines go on while the entry function is about to return
	}
	if f.isGo && s.par != nil {
		e.taskEnd(s, f.gid)
		defer func() {
			if len(s.frames) > 0 {
				e.drained(s)
			}
		}()
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		if e.h.Done != nil {
			e.h.Done(s, r)
		}
		return false
	}
	if f.isDef {
		if s.top().unwinding {
			return e.continueUnwind(s)
		}
		return true
	}
	if v, ok := f.call.(*ssa.Call); ok && !f.isGo {
		s.top().set(v, r)
	}
	// merge equal outcomes of calls with branching bodies
	if len(f.fn.Blocks) > 3 {
		return e.dedupeAt(s)
	}
	return true
}

// dedupeAt merges states in the middle of a block (after a call).
func (e *Engine) dedupeAt(s *State) bool {
	// prune needs the live set at the current pc: treat the top frame like a caller frame
	s.frames = append(s.frames, &Frame{fn: retMarkerFn(s), block: s.top().fn.Blocks[0], env: map[ssa.Value]*V{}})
	e.gcNoTop(s)
	s.frames = s.frames[:len(s.frames)-1]
	k := "r" + e.stateKey(s)
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	e.states++
	return true
}

func retMarkerFn(s *State) *ssa.Function { return s.top().fn }

func (e *Engine) gcNoTop(s *State) { e.gc(s) }

func (e *Engine) doPanic(s *State, v *V) bool {
	s.panicV = v
	if len(s.frames) == 0 {
		return false
	}
	s.top().unwinding = true
	return e.continueUnwind(s)
}

func (e *Engine) continueUnwind(s *State) bool {
	for {
		f := s.top()
		if s.panicV == nil { // recovered in a deferred call of f
			f.unwinding = false
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				f.unwinding = true
				return e.runDefer(s, d, nil)
			}
			if f.fn.Recover != nil {
				f.prev, f.block, f.pc = f.block, f.fn.Recover, 0
				return true
			}
			var r *V = e.Nil(nil)
			if rt := f.fn.Signature.Results(); rt.Len() == 1 {
				r = e.Zero(rt.At(0).Type())
			} else if rt.Len() > 1 {
				r = e.Zero(rt)
			}
			return e.doReturn(s, r)
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.runDefer(s, d, nil)
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 || f.isGo {
			s.frames = nil
			if e.h.Panicked != nil {
				e.h.Panicked(s)
			}
			return false
		}
		s.top().unwinding = true
	}
}

func (e *Engine) runDefer(s *State, d deferred, ins ssa.Instruction) bool {
	f := s.top()
	cc := &CallCtx{e: e, s: s, call: d.call, fv: d.fn, args: d.args, instr: ins}
	var bindings []*V
	if d.fn.K == KFunc {
		cc.fn = d.fn.Fn
		cc.name = fnName(d.fn.Fn)
		bindings = d.fn.Args
	} else if d.call.IsInvoke() {
		cc.name = "invoke:" + d.call.Method.FullName()
	}
	h := false
	if e.h.Call != nil {
		h = e.h.Call(cc)
	}
	if b, ok := d.call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return e.closeChan(s, d.args[0], d.pos)
	}
	if !h {
		if hd, done, cont := e.syncCall(s, cc.name, d.args, ins); hd {
			if !done {
				return cont
			}
			h = true
		}
	}
	if !h && cc.fn != nil && len(cc.fn.Blocks) > 0 && e.shouldInline(s, cc.fn) {
		nf := e.pushFrame(s, cc.fn, d.args, bindings, f.block.Instrs[f.pc], f.ctx)
		nf.isDef = true
		return true
	}
	if cc.kill {
		return false
	}
	if f.unwinding {
		return e.continueUnwind(s)
	}
	return true
}

func (e *Engine) builtin(s *State, ins ssa.Instruction, name string, c *ssa.CallCommon, args []*V) bool {
	f := s.top()
	set := func(v *V) bool {
		if x, ok := ins.(*ssa.Call); ok {
			s.top().set(x, v)
		}
		s.top().pc++
		return true
	}
	switch name {
	case "len":
		if v := args[0]; v.K == KTerm && e.h.Decide != nil {
			_ = v
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.touchMap(s, args[0], false, ins.Pos())
		}
		return set(e.lenOf(s, args[0]))
	case "cap":
		if ch := e.chanOf(s, args[0]); ch != nil && ch.cap < 1<<30 {
			return set(e.Int(int64(ch.cap)))
		}
		return set(e.Term("cap", types.Typ[types.Int], args[0]))
	case "append":
		for _, a := range args {
			e.touchElems(s, a, false, ins.Pos())
		}
		return set(e.appendVals(s, ins, args, c))
	case "copy":
		e.touchElems(s, args[1], false, ins.Pos())
		e.touchElems(s, args[0], true, ins.Pos())
		e.copyInto(s, args[0], args[1])
		return set(e.lenOf(s, args[1]))
	case "delete":
		if e.h.OnDelete != nil {
			e.h.OnDelete(s, args[0], args[1], ins)
		}
		if !args[0].IsNil() {
			e.touchMap(s, args[0], true, ins.Pos())
			k := e.resolveKey(s, args[0], args[1])
			e.mapDel(s, args[0], k)
			e.dropMapFacts(s, args[0], k)
			if _, known := e.mapKeys(s, args[0]); !known {
				s.facts[e.Term("mapok", types.Typ[types.Bool], args[0], k)] = false
			}
		}
		return set(e.Nil(nil))
	case "recover":
		if s.panicV == nil {
			return set(e.Nil(nil))
		}
		v := e.in.mk(V{K: KIface, T: types.Typ[types.String], Args: []*V{e.Str("<panic value>")}})
		s.panicV = nil
		return set(v)
	case "panic":
		s.note(ins.Pos(), "panic")
		return e.doPanic(s, args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			l := e.lt(a, r)
			if l.isBool() {
				if l.boolVal() == (name == "min") {
					r = a
				}
			} else {
				r = e.Term("arith:"+name, c.Signature().Results().At(0).Type(), r, a)
			}
		}
		return set(r)
	case "ssa:wrapnilchk":
		return set(args[0])
	case "close":
		f.pc++
		if !e.closeChan(s, args[0], ins.Pos()) {
			return false
		}
		e.resume(s, args[0])
		return true
	case "print", "println", "clear":
		return set(e.Nil(nil))
	}
	_ = f
	e.giveUp("builtin %s", name)
	return false
}

func (e *Engine) elems(s *State, v *V) ([]*V, bool) {
	if v.IsNil() {
		return nil, true
	}
	if v.K == KConst && v.C != nil && v.C.Kind() == constant.String {
		var r []*V
		for _, b := range []byte(constant.StringVal(v.C)) {
			r = append(r, e.Int(int64(b)))
		}
		return r, true
	}
	if v.K != KSlice {
		return nil, false
	}
	n, ok := v.Args[2].intVal()
	o, ok2 := v.Args[1].intVal()
	if !ok || !ok2 || n > 256 || n < 0 {
		return nil, false
	}
	st, _ := v.Args[0], 0
	var et types.Type
	if st.T != nil {
		switch u := st.T.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
	}
	r := make([]*V, n)
	for i := range r {
		a := e.ElemAddr(v.Args[0], e.Int(o+int64(i)))
		if et == nil {
			x, ok := s.mem[a]
			if !ok {
				return nil, false
			}
			r[i] = x
		} else {
			r[i] = e.load(s, a, et)
		}
	}
	return r, true
}

func (e *Engine) newSlice(s *State, site string, t types.Type, el []*V) *V {
	o := e.fresh(s, KObj, site, t)
	e.clearObj(s, o)
	et := t.Underlying().(*types.Slice).Elem()
	for i, x := range el {
		e.store(s, e.ElemAddr(o, e.Int(int64(i))), x, et)
	}
	return e.Slice(o, e.Int(0), e.Int(int64(len(el))))
}

func (e *Engine) appendVals(s *State, ins ssa.Instruction, args []*V, c *ssa.CallCommon) *V {
	f := s.top()
	t := c.Signature().Results().At(0).Type()
	if len(args) < 2 {
		return args[0]
	}
	a, ok1 := e.elems(s, args[0])
	b, ok2 := e.elems(s, args[1])
	if ok1 && ok2 && len(a)+len(b) <= e.maxList {
		if len(b) == 0 {
			return args[0]
		}
		return e.newSlice(s, e.site(f, ins), t, append(append([]*V(nil), a...), b...))
	}
	// summary
	var parts []*V
	add := func(v *V, el []*V, ok bool) {
		if ok {
			parts = append(parts, el...)
		} else if v.K == KTerm && v.Op == "list" {
			parts = append(parts, v.Args...)
		} else {
			parts = append(parts, e.Term("spread", nil, v))
		}
	}
	add(args[0], a, ok1)
	add(args[1], b, ok2)
	// a set of element descriptions
	var set []*V
	for _, p := range parts {
		if p.K == KConst || p.size > 8 {
			p = e.Term("some", nil)
		}
		dup := false
		for _, q := range set {
			dup = dup || q == p
		}
		if !dup {
			set = insertSorted(set, p)
		}
	}
	if len(set) > 8 {
		set = []*V{e.Term("some", nil)}
	}
	return e.Term("list", t, set...)
}

func (e *Engine) copyInto(s *State, dst, src *V) {
	el, ok := e.elems(s, src)
	if dst.K != KSlice {
		return
	}
	o, ok2 := dst.Args[1].intVal()
	n, ok3 := dst.Args[2].intVal()
	if ok && ok2 && ok3 {
		for i, x := range el {
			if int64(i) >= n {
				break
			}
			s.mem[e.ElemAddr(dst.Args[0], e.Int(o+int64(i)))] = x
			e.explodeCell(s, e.ElemAddr(dst.Args[0], e.Int(o+int64(i))), x)
		}
		return
	}
	base := dst.Args[0]
	for a := range s.mem {
		if a.K == KAddr && a.Op == "[]" && a.Args[0] == base {
			delete(s.mem, a)
		}
	}
	s.mem[e.ElemAddr(base, e.star)] = e.Term("elemof", nil, src)
}

func (e *Engine) explodeCell(s *State, a, x *V) {
	if x.K == KStruct && x.T != nil {
		delete(s.mem, a)
		e.store(s, a, x, x.T)
	}
}

// stdCall models the few standard library calls whose effect matters.
func (e *Engine) stdCall(c *CallCtx) bool {
	s := c.s
	if e.numCall(c) || e.dateCall(c) || e.foldCall(c) {
		return true
	}
	switch c.name {
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		return c.ret(e.Term("numcpu", types.Typ[types.Int]))
	case "os.Exit":
		if e.h.Exited != nil {
			e.h.Exited(s, c.args[0], c.instr)
		}
		c.kill = true
		return true
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		if e.h.Exited != nil {
			e.h.Exited(s, e.Int(1), c.instr)
		}
		c.kill = true
		return true
	case "hash/fnv.New32a", "hash/fnv.New32", "hash/fnv.New64a", "hash/fnv.New64":
		o := e.fresh(s, KObj, e.site(s.top(), c.instr), nil)
		e.clearObj(s, o)
		s.mem[e.FieldAddr(o, "#acc")] = e.Str("")
		return c.ret(e.Term("hasher", c.rt, o))
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16",
		"(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16":
		sl := c.args[len(c.args)-2]
		v := c.args[len(c.args)-1]
		root := sl
		if sl.K == KSlice {
			root = sl.Args[0]
		}
		e.clearObjCells(s, root)
		s.mem[e.FieldAddr(root, "#bytes")] = e.Term("le", nil, v)
		return c.ret(e.Nil(nil))
	case "(*net/url.URL).String":
		// content of a URL object
		return c.ret(e.Term("call:url.String:0", types.Typ[types.String], e.contentOf(s, c.args[0])))
	}
	if strings.HasPrefix(c.name, "invoke:(") || strings.HasPrefix(c.name, "invoke:") {
		recv := c.args[0]
		if recv.K == KTerm && recv.Op == "hasher" {
			acc := e.FieldAddr(recv.Args[0], "#acc")
			switch {
			case strings.HasSuffix(c.name, ".Write"):
				v := c.args[1]
				if v.K == KSlice {
					if b, ok := s.mem[e.FieldAddr(v.Args[0], "#bytes")]; ok {
						v = b
					} else {
						v = e.canonArg(s, v)
					}
				}
				s.mem[acc] = e.Term("acc", nil, s.mem[acc], v)
				return c.ret(e.Tuple(e.Int(0), e.Nil(nil)))
			case strings.HasSuffix(c.name, ".Sum32"), strings.HasSuffix(c.name, ".Sum64"):
				if e.constHash {
					return c.ret(e.Const(constant.MakeInt64(7), c.rt))
				}
				return c.ret(e.Term("hashsum", c.rt, s.mem[acc]))
			case strings.HasSuffix(c.name, ".Reset"):
				s.mem[acc] = e.Str("")
				return c.ret(e.Nil(nil))
			}
		}
	}
	return false
}

func (e *Engine) clearObjCells(s *State, o *V) {
	for a := range s.mem {
		if a.K == KAddr && a.Args[0] == o {
			delete(s.mem, a)
		}
	}
}

// contentOf gives the content behind a pointer to an opaque object.
func (e *Engine) contentOf(s *State, p *V) *V {
	if v, ok := s.mem[e.FieldAddr(p, "#content")]; ok {
		return v
	}
	if e.h.LoadDefault != nil {
		if v := e.h.LoadDefault(s, e.FieldAddr(p, "#content"), nil); v != nil {
			return v
		}
	}
	return p
}
