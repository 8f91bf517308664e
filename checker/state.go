package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   *V
	args []*V
	pos  token.Pos
}

type pend struct { // widened alternative to use when the loop header is not decided
	st    *State
	block *ssa.BasicBlock
}

type Frame struct {
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	env       map[ssa.Value]*V
	shared    bool            // env shared with another state (copy before write)
	call      ssa.Instruction // instruction in the caller that created this frame (nil for the entry)
	ctx       int             // call-string id
	defers    []deferred
	isGo      bool
	isDef     bool // running as a deferred call
	loops     map[*ssa.BasicBlock]*loopInfo
	pending   *pend
	unwinding bool
	gid       int // goroutine id (0 = main)
}

type loopInfo struct {
	count int
	mem   map[*V]*V // snapshot at loop entry
	phis  map[*ssa.Phi]*V
	last  map[*ssa.Phi]*V
}

type Trail struct {
	prev *Trail
	pos  token.Pos
	text string
}

type State struct {
	frames []*Frame
	mem    map[*V]*V
	facts  map[*V]bool
	marks  map[string]*V
	trail  *Trail
	panicV *V
	par    *parState
	data   any // check-specific immutable data (must be comparable-by-pointer / canonicalised by the check)
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{trail: s.trail, panicV: s.panicV, data: s.data}
	n.frames = cloneFrames(s.frames)
	n.par = s.par.clone()
	n.mem = make(map[*V]*V, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*V]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.marks = make(map[string]*V, len(s.marks)+1)
	for k, v := range s.marks {
		n.marks[k] = v
	}
	return n
}

func cloneFrames(fs []*Frame) []*Frame {
	r := make([]*Frame, len(fs))
	for i, f := range fs {
		g := *f
		f.shared, g.shared = true, true
		if len(f.loops) > 0 {
			g.loops = make(map[*ssa.BasicBlock]*loopInfo, len(f.loops))
			for k, v := range f.loops {
				c := *v
				g.loops[k] = &c
			}
		} else {
			g.loops = nil
		}
		g.defers = append([]deferred(nil), f.defers...)
		r[i] = &g
	}
	return r
}

func (f *Frame) set(k ssa.Value, v *V) {
	if f.shared {
		e := make(map[ssa.Value]*V, len(f.env)+4)
		for a, b := range f.env {
			e[a] = b
		}
		f.env = e
		f.shared = false
	}
	f.env[k] = v
}

func (s *State) note(pos token.Pos, format string, a ...any) {
	s.trail = &Trail{s.trail, pos, fmt.Sprintf(format, a...)}
}

func (e *Engine) trailText(s *State, max int) []string {
	var out []string
	for t := s.trail; t != nil && len(out) < max; t = t.prev {
		out = append(out, e.pos(t.pos)+": "+t.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return f + ":" + strconv.Itoa(q.Line)
}

// ---- liveness ----

type liveness struct {
	in, out []map[ssa.Value]bool
}

func (e *Engine) live(fn *ssa.Function) *liveness {
	if l, ok := e.liveCache[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{make([]map[ssa.Value]bool, n), make([]map[ssa.Value]bool, n)}
	for i := range fn.Blocks {
		l.in[i] = map[ssa.Value]bool{}
		l.out[i] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[i]
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					if !out[v] {
						out[v] = true
						ch = true
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if v := phi.Edges[pi]; trackable(v) && !out[v] {
								out[v] = true
								ch = true
							}
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l.in[i][v] {
					l.in[i][v] = true
					ch = true
				}
			}
		}
	}
	e.liveCache[fn] = l
	return l
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// prune removes dead registers of all frames; top frame is at the start of its block (phis done).
func (e *Engine) prune(s *State) {
	for i, f := range s.frames {
		l := e.live(f.fn)
		var keep func(v ssa.Value) bool
		if i == len(s.frames)-1 {
			in := l.in[f.block.Index]
			keep = func(v ssa.Value) bool {
				if in[v] {
					return true
				}
				p, ok := v.(*ssa.Phi)
				return ok && p.Block() == f.block
			}
		} else {
			out := l.out[f.block.Index]
			key := pcKey{f.block, f.pc}
			later, ok := e.laterUse[key]
			if !ok {
				later = map[ssa.Value]bool{}
				for _, ins := range f.block.Instrs[f.pc:] {
					for _, op := range ins.Operands(nil) {
						if *op != nil {
							later[*op] = true
						}
					}
				}
				e.laterUse[key] = later
			}
			keep = func(v ssa.Value) bool { return out[v] || later[v] }
		}
		dead := false
		for v := range f.env {
			if !keep(v) {
				dead = true
				break
			}
		}
		if dead {
			n := make(map[ssa.Value]*V, len(f.env))
			for v, x := range f.env {
				if keep(v) {
					n[v] = x
				}
			}
			f.env, f.shared = n, false
		}
	}
}

type pcKey struct {
	b  *ssa.BasicBlock
	pc int
}

// gc drops memory cells and facts that only concern unreachable site-born objects and symbols.
func (e *Engine) gc(s *State) map[*V]bool {
	e.prune(s)
	reach := map[*V]bool{}
	var work []*V
	var add func(v *V)
	add = func(v *V) {
		if v == nil || reach[v] {
			return
		}
		reach[v] = true
		if !v.born && v.K != KFunc {
			// still may lead to cells rooted at entity objects: those are always roots
			for _, a := range v.Args {
				add(a)
			}
			return
		}
		work = append(work, v)
		for _, a := range v.Args {
			add(a)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			add(v)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, v := range s.marks {
		add(v)
	}
	add(s.panicV)
	s.par.roots(add)
	// cells by root
	byRoot := map[*V][]*V{}
	for a := range s.mem {
		r := a.root()
		if !r.born {
			add(s.mem[a])
			add(a)
		} else {
			byRoot[r] = append(byRoot[r], a)
		}
	}
	for ch := true; ch; {
		ch = false
		for r, cells := range byRoot {
			if reach[r] || r.K != KObj && e.bornReach(r, reach) {
				for _, a := range cells {
					add(a)
					add(s.mem[a])
				}
				delete(byRoot, r)
				ch = true
			}
		}
	}
	for _, cells := range byRoot {
		for _, a := range cells {
			delete(s.mem, a)
		}
	}
	for f := range s.facts {
		if f.born && !e.bornReach(f, reach) {
			delete(s.facts, f)
		}
	}
	return reach
}

// bornReach: all site-born atoms of v are reachable.
func (e *Engine) bornReach(v *V, reach map[*V]bool) bool {
	if !v.born || reach[v] {
		return true
	}
	if len(v.Args) == 0 {
		return false
	}
	for _, a := range v.Args {
		if !e.bornReach(a, reach) {
			return false
		}
	}
	return true
}

func frameKey(sb *strings.Builder, fs []*Frame) {
	for _, f := range fs {
		fmt.Fprintf(sb, "|%p:%d:%d:%t:%d:%d", f.fn, f.block.Index, f.pc, f.unwinding, f.ctx, f.gid)
		ks := make([]string, 0, len(f.env))
		for v, x := range f.env {
			ks = append(ks, v.Name()+"="+strconv.Itoa(x.id))
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteByte(';')
			sb.WriteString(k)
		}
		for _, d := range f.defers {
			fmt.Fprintf(sb, ";d%d", d.pos)
			for _, a := range d.args {
				fmt.Fprintf(sb, ",%d", a.id)
			}
		}
	}
}

func (e *Engine) stateKey(s *State) string {
	var sb strings.Builder
	frameKey(&sb, s.frames)
	sb.WriteString(s.par.text())
	ids := make([]string, 0, len(s.mem))
	for a, v := range s.mem {
		ids = append(ids, strconv.Itoa(a.id)+":"+strconv.Itoa(v.id))
	}
	sort.Strings(ids)
	sb.WriteString("|M")
	for _, x := range ids {
		sb.WriteByte(' ')
		sb.WriteString(x)
	}
	ids = ids[:0]
	for a, v := range s.facts {
		ids = append(ids, strconv.Itoa(a.id)+":"+strconv.FormatBool(v))
	}
	sort.Strings(ids)
	sb.WriteString("|F")
	for _, x := range ids {
		sb.WriteByte(' ')
		sb.WriteString(x)
	}
	sb.WriteString("|K")
	for _, k := range sortedKeys(s.marks) {
		fmt.Fprintf(&sb, " %s=%d", k, s.marks[k].id)
	}
	if s.panicV != nil {
		sb.WriteString("|P")
	}
	return sb.String()
}

// ---- memory ----

func (e *Engine) atomic(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	if strings.HasPrefix(p, repoMod) {
		return false
	}
	if p == parserMod+"/gtfs" {
		return o.Name() == "Date" || o.Name() == "Time" || o.Name() == "Timezone" || o.Name() == "LanguageISO6391"
	}
	if p == parserMod && o.Name() == "Polygon" {
		return true
	}
	if strings.HasPrefix(p, parserMod) || strings.HasPrefix(p, writerMod) {
		return false
	}
	return true
}

func (e *Engine) load(s *State, addr *V, t types.Type) *V {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.atomic(t) {
			if fs := e.partsOf(s, addr, u); fs != nil {
				return e.Struct(t, fs...)
			}
			break
		}
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = e.load(s, e.FieldAddr(addr, u.Field(i).Name()), u.Field(i).Type())
		}
		return e.Struct(t, fs...)
	case *types.Array:
		if u.Len() <= 16 {
			fs := make([]*V, u.Len())
			for i := range fs {
				fs[i] = e.load(s, e.ElemAddr(addr, e.Int(int64(i))), u.Elem())
			}
			return e.Struct(t, fs...)
		}
	}
	if addr.K == KAddr && addr.Op[0] == '.' {
		// field of a value kept as a whole
		if w, ok := s.mem[addr.Args[0]]; ok && w.K == KStruct {
			if v := structField(w, addr.Op[1:]); v != nil {
				return v
			}
		}
	}
	if addr.K == KAddr && addr.Op == "[]" {
		// summary cell of the array
		if v, ok := s.mem[e.ElemAddr(addr.Args[0], e.star)]; ok {
			return v
		}
		if _, ok := addr.Args[1].intVal(); !ok {
			// symbolic index into a known array: unknown element
			r := addr.root()
			if r.K == KObj && r.born {
				return e.Term("elem", t, addr)
			}
		}
	}
	return e.defaultLoad(s, addr, t)
}

func (e *Engine) defaultLoad(s *State, addr *V, t types.Type) *V {
	r := addr.root()
	if r.K == KObj && r.born && !strings.HasSuffix(r.Op, "*") {
		return e.Zero(t)
	}
	if e.h.LoadDefault != nil {
		if v := e.h.LoadDefault(s, addr, t); v != nil {
			return v
		}
	}
	return e.Term("ld", t, addr)
}

// partsOf assembles a value usually kept as a whole that was stored field by field.
func (e *Engine) partsOf(s *State, addr *V, u *types.Struct) []*V {
	var fs []*V
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := s.mem[e.FieldAddr(addr, u.Field(i).Name())]; ok {
			if fs == nil {
				fs = make([]*V, u.NumFields())
			}
			fs[i] = v
		}
	}
	for i := range fs {
		if fs[i] == nil {
			fs[i] = e.load(s, e.FieldAddr(addr, u.Field(i).Name()), u.Field(i).Type())
		}
	}
	return fs
}

func structField(w *V, name string) *V {
	if w.T == nil {
		return nil
	}
	if u, ok := w.T.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields() && i < len(w.Args); i++ {
			if u.Field(i).Name() == name {
				return w.Args[i]
			}
		}
	}
	return nil
}

func (e *Engine) store(s *State, addr, v *V, t types.Type) {
	if addr.K == KAddr && addr.Op[0] == '.' {
		// field of a value kept as a whole
		if w, ok := s.mem[addr.Args[0]]; ok && w.K == KStruct && structField(w, addr.Op[1:]) != nil {
			u := w.T.Underlying().(*types.Struct)
			delete(s.mem, addr.Args[0])
			for i := range w.Args {
				s.mem[e.FieldAddr(addr.Args[0], u.Field(i).Name())] = w.Args[i]
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.atomic(t) {
			for i := 0; i < u.NumFields() && i < 8; i++ {
				delete(s.mem, e.FieldAddr(addr, u.Field(i).Name()))
			}
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			e.store(s, e.FieldAddr(addr, u.Field(i).Name()), e.fieldOf(v, i, u), u.Field(i).Type())
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				var ev *V
				if v.K == KStruct {
					ev = v.Args[i]
				} else {
					ev = e.Term("index", u.Elem(), v, e.Int(i))
				}
				e.store(s, e.ElemAddr(addr, e.Int(i)), ev, u.Elem())
			}
			return
		}
	}
	if addr.K == KAddr && addr.Op == "[]" {
		if _, ok := addr.Args[1].intVal(); !ok {
			// store at an unknown index: other cells become unknown
			base := addr.Args[0]
			for a := range s.mem {
				if a.K == KAddr && a.Op == "[]" && a.Args[0] == base && a != addr && e.eqVals(a.Args[1], addr.Args[1]) != no {
					delete(s.mem, a)
				}
			}
		}
	}
	s.mem[addr] = v
}

func (e *Engine) fieldOf(v *V, i int, u *types.Struct) *V {
	if v.K == KStruct {
		return v.Args[i]
	}
	if v.K == KTerm && v.Op == "ld" && len(v.Args) == 1 {
		return e.Term("ld", u.Field(i).Type(), e.FieldAddr(v.Args[0], u.Field(i).Name()))
	}
	return e.Term("field:"+u.Field(i).Name(), u.Field(i).Type(), v)
}

// ---- map objects ----

func (e *Engine) mapKeys(s *State, m *V) ([]*V, bool) {
	k, ok := s.mem[e.FieldAddr(m, "#keys")]
	if !ok {
		return nil, false
	}
	return k.Args, true
}

func (e *Engine) setMapKeys(s *State, m *V, ks []*V) {
	s.mem[e.FieldAddr(m, "#keys")] = e.Tuple(ks...)
}

// MapSet sets m[k]=v in a modelled map (used by scenario builders too).
func (e *Engine) mapSet(s *State, m, k, v *V) {
	ks, ok := e.mapKeys(s, m)
	if !ok {
		s.mem[e.EntryAddr(m, k)] = v
		return
	}
	for _, x := range ks {
		if x == k {
			s.mem[e.EntryAddr(m, k)] = v
			return
		}
	}
	nk := append(append([]*V(nil), ks...), k)
	sort.Slice(nk, func(i, j int) bool { return nk[i].id < nk[j].id })
	e.setMapKeys(s, m, nk)
	s.mem[e.EntryAddr(m, k)] = v
}

func (e *Engine) mapDel(s *State, m, k *V) {
	ks, ok := e.mapKeys(s, m)
	delete(s.mem, e.EntryAddr(m, k))
	if !ok {
		return
	}
	var nk []*V
	for _, x := range ks {
		if x != k {
			nk = append(nk, x)
		}
	}
	e.setMapKeys(s, m, nk)
}
