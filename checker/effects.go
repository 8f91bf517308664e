package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural effect analysis: which fields of which kinds of feed data a function may write, directly or through
// the functions it reaches. Flow-insensitive over SSA, with an origin for every reference: memory allocated by the
// code under analysis is fresh, and what is stored into fresh memory is tracked per field; everything loaded from the
// feed is named by the field it was loaded from. Only writes to memory that is not fresh count.

type origins map[string]bool

const freshO = "fresh"

// copyO: a copy of a value of the feed of a type that is held by value, so that the copy may take its place
const copyO = "copy"

func heldByValue(t types.Type) bool {
	n := feedType(t)
	return n == "StopTime" || n == "ShapePoint"
}

func (a origins) add(b origins) bool {
	n := len(a)
	for k := range b {
		a[k] = true
	}
	return len(a) != n
}

// old: memory of the feed may be among the origins.
func (a origins) old() bool {
	for k := range a {
		if k != freshO {
			return true
		}
	}
	return false
}

type effect struct {
	what string // "Kind.Field", "Kind.Field[]", "Feed.Stops set", "Feed.Stops delete"
	pos  token.Pos
	fn   *ssa.Function
	via  []*ssa.Function
}

type effects struct {
	P      *Program
	reach  map[*ssa.Function]*ssa.Function // function -> the one it was first reached from
	order  []*ssa.Function
	vals   map[ssa.Value]origins
	rets   map[*ssa.Function][]origins
	cells  map[string]origins // contents of fresh memory: "T.F", "elem T"
	calls  map[*ssa.Function][]*ssa.CallCommon
	closed map[*ssa.Function][]*ssa.MakeClosure
	dyn    map[string][]*ssa.CallCommon // dynamic calls by signature
	taken  map[*ssa.Function]bool       // functions used as values
	change bool
	found  map[string]effect
	sites  map[string]int
}

func (x *effects) inScope(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil { // wrappers and bound methods
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return inScopePkg(o.Pkg().Path())
		}
		return false
	}
	return inScopePkg(p.Pkg.Path())
}

func inScopePkg(p string) bool {
	return strings.HasPrefix(p, repoMod) || strings.HasPrefix(p, parserMod)
}

// feedType names the struct types of the feed: gtfs types and the feed itself.
func feedType(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case parserMod, parserMod + "/gtfs":
		return n.Obj().Name()
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldOf(base types.Type, i int) (string, string, *types.Var) {
	st := deref(base)
	f := st.Underlying().(*types.Struct).Field(i)
	n := feedType(st)
	return n, types.TypeString(st, nil) + "." + f.Name(), f
}

func passEffects(P *Program, root *ssa.Function) *effects {
	x := &effects{P: P, reach: map[*ssa.Function]*ssa.Function{}, vals: map[ssa.Value]origins{}, rets: map[*ssa.Function][]origins{}, cells: map[string]origins{},
		calls: map[*ssa.Function][]*ssa.CallCommon{}, closed: map[*ssa.Function][]*ssa.MakeClosure{}, dyn: map[string][]*ssa.CallCommon{}, taken: map[*ssa.Function]bool{}, found: map[string]effect{}, sites: map[string]int{}}
	x.collect(root)
	for _, p := range root.Params {
		if feedType(deref(p.Type())) == "Feed" {
			x.vals[p] = origins{"feed": true}
		} else {
			x.vals[p] = origins{freshO: true}
		}
	}
	for x.change = true; x.change; {
		x.change = false
		for _, fn := range x.order {
			x.flow(fn)
		}
	}
	for _, fn := range x.order {
		x.report(fn)
	}
	return x
}

// collect finds the functions reached from root.
func (x *effects) collect(root *ssa.Function) {
	var add func(fn, from *ssa.Function)
	add = func(fn, from *ssa.Function) {
		if !x.inScope(fn) {
			return
		}
		if _, ok := x.reach[fn]; ok {
			return
		}
		x.reach[fn] = from
		x.order = append(x.order, fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					if g := cc.StaticCallee(); g != nil {
						x.calls[g] = append(x.calls[g], cc)
					} else if cc.IsInvoke() {
						for _, g := range x.implementers(cc) {
							x.calls[g] = append(x.calls[g], cc)
							add(g, fn)
						}
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						k := types.TypeString(cc.Signature(), nil)
						x.dyn[k] = append(x.dyn[k], cc)
					}
				}
				switch v := ins.(type) {
				case *ssa.MakeClosure:
					g := v.Fn.(*ssa.Function)
					x.closed[g] = append(x.closed[g], v)
					x.taken[g] = true
				case *ssa.MakeInterface:
					// methods may be called from outside, e.g. by sort
					ms := x.P.prog.MethodSets.MethodSet(v.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if g := x.P.prog.MethodValue(ms.At(i)); g != nil && x.inScope(g) {
							add(g, fn)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := ins.(ssa.CallInstruction); !isCall || c.Common().Value != g {
							x.taken[g] = true
						}
						add(g, fn)
					}
				}
			}
		}
	}
	add(root, nil)
}

// implementers: in-scope methods an interface call may reach.
func (x *effects) implementers(cc *ssa.CallCommon) (out []*ssa.Function) {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return
	}
	for _, pkg := range []*types.Package{x.P.proc.Pkg, x.P.gtfs, x.P.feed.Obj().Pkg()} {
		sc := pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					if g := x.P.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); g != nil {
						out = append(out, g)
					}
				}
			}
		}
	}
	return
}

func (x *effects) of(v ssa.Value) origins {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return origins{freshO: true}
	case *ssa.Global:
		return origins{freshO: true}
	}
	return x.vals[v]
}

func (x *effects) set(v ssa.Value, o origins) {
	if len(o) == 0 {
		return
	}
	m := x.vals[v]
	if m == nil {
		m = origins{}
		x.vals[v] = m
	}
	if m.add(o) {
		x.change = true
	}
}

func (x *effects) cell(k string, o origins) {
	if len(o) == 0 {
		return
	}
	m := x.cells[k]
	if m == nil {
		m = origins{}
		x.cells[k] = m
	}
	if m.add(o) {
		x.change = true
	}
}

func elemKey(t types.Type) string { return "elem " + types.TypeString(t, nil) }

// stored notes that values of origin o and type t are put into a fresh cell named k.
func (x *effects) stored(k string, t types.Type, o origins) {
	x.cell(k, o)
	if st, ok := t.Underlying().(*types.Struct); ok { // the copy of a struct shares what its fields refer to
		for i := 0; i < st.NumFields(); i++ {
			n, fk, f := fieldOf(t, i)
			fo := origins{}
			if o.old() {
				if n == "" {
					n = types.TypeString(t, nil)
				}
				fo[n+"."+f.Name()] = true
			}
			x.stored(fk, f.Type(), fo)
		}
	}
}

// loadFrom: origins of a value of type t read at addr.
func (x *effects) loadFrom(addr ssa.Value, t types.Type) origins {
	o := origins{}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		b := x.of(a.X)
		n, k, f := fieldOf(a.X.Type(), a.Field)
		for r := range b {
			if r == freshO {
				o.add(x.cells[k])
				o[freshO] = true
			} else if n != "" {
				o[n+"."+f.Name()] = true
			} else {
				o[r] = true
			}
		}
	case *ssa.IndexAddr:
		o.add(x.elemsOf(x.of(a.X), t))
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
		for r := range x.of(addr) {
			if r != freshO {
				o[r] = true
			}
		}
		o[freshO] = true
		switch a := addr.(type) {
		case *ssa.Alloc:
			o.add(x.cells[allocKey(a)])
		case *ssa.Global:
			o.add(x.cells["global "+a.String()])
		default:
			o.add(x.cells["ptr "+types.TypeString(t, nil)])
		}
	default:
		for r := range x.of(addr) {
			if r != freshO {
				o[r] = true
			}
		}
		o[freshO] = true
		o.add(x.cells["ptr "+types.TypeString(t, nil)])
		o.add(x.cells[elemKey(t)])
	}
	return o
}

func allocKey(a *ssa.Alloc) string { return fmt.Sprintf("alloc %s %p", a.Name(), a) }

// elemsOf: origins of elements of containers of the given origins.
func (x *effects) elemsOf(c origins, t types.Type) origins {
	o := origins{}
	for r := range c {
		if r == freshO {
			o.add(x.cells[elemKey(t)])
			o[freshO] = true
		} else {
			o[strings.TrimSuffix(r, "[]")+"[]"] = true
		}
	}
	return o
}

// hasRefs: values of the type refer to memory.
func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Struct:
		return true
	}
	return true
}

func elemType(t types.Type) types.Type {
	switch u := deref(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (x *effects) flow(fn *ssa.Function) {
	// parameters and free variables
	if fn.Signature != nil {
		for _, cc := range x.calls[fn] {
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			for i, p := range fn.Params {
				if i < len(args) {
					x.set(p, x.of(args[i]))
				}
			}
		}
		if x.taken[fn] {
			n := 0
			for _, cc := range x.dyn[types.TypeString(fn.Signature, nil)] {
				n++
				for i, p := range fn.Params {
					if i < len(cc.Args) {
						x.set(p, x.of(cc.Args[i]))
					}
				}
			}
			for _, p := range fn.Params { // called from outside: arguments come from the containers handed over
				if hasRefs(p.Type()) {
					x.set(p, x.elemsOf(x.byType(p.Type()), p.Type()))
				}
			}
		}
		if len(x.calls[fn]) == 0 && fn.Signature.Recv() != nil && len(fn.Params) > 0 {
			// called through an interface from outside: receivers are the values converted to interfaces
			x.set(fn.Params[0], x.cells["iface "+types.TypeString(fn.Params[0].Type(), nil)])
		}
	}
	for _, mc := range x.closed[fn] {
		for i, b := range mc.Bindings {
			fv := fn.FreeVars[i]
			x.set(fv, x.of(b))
			if a, ok := b.(*ssa.Alloc); ok { // captured by reference
				t := deref(a.Type())
				x.cell("ptr "+types.TypeString(t, nil), x.cells[allocKey(a)])
				x.cell(allocKey(a), x.cells["ptr "+types.TypeString(t, nil)])
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			x.instr(fn, ins)
		}
	}
}

// byType: what may be in containers or interfaces with values of the type.
func (x *effects) byType(t types.Type) origins {
	o := origins{freshO: true}
	o.add(x.cells["iface "+types.TypeString(t, nil)])
	return o
}

func (x *effects) instr(fn *ssa.Function, ins ssa.Instruction) {
	switch v := ins.(type) {
	case *ssa.Alloc:
		x.set(v, origins{freshO: true})
		if heldByValue(deref(v.Type())) && x.cells[allocKey(v)].old() {
			x.set(v, origins{copyO: true})
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		x.set(v.(ssa.Value), origins{freshO: true})
	case *ssa.FieldAddr:
		// address within its base
		x.set(v, x.of(v.X))
	case *ssa.IndexAddr:
		b := x.of(v.X)
		o := origins{}
		for r := range b {
			if r == freshO {
				o[r] = true
				if t := deref(v.Type()); heldByValue(t) && x.cells[elemKey(t)].old() {
					o[copyO] = true
				}
			} else {
				o[strings.TrimSuffix(r, "[]")+"[]"] = true
			}
		}
		x.set(v, o)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if w := forwarded(v, v.X, nil); w != nil {
				x.set(v, x.of(w))
				return
			}
			x.set(v, x.loadFrom(v.X, v.Type()))
		case token.ARROW:
			t := v.Type()
			if tu, ok := t.(*types.Tuple); ok {
				t = tu.At(0).Type()
			}
			x.set(v, x.elemsOf(x.of(v.X), t))
		default:
			x.set(v, origins{freshO: true})
		}
	case *ssa.Field:
		n, k, f := fieldOf(v.X.Type(), v.Field)
		o := origins{}
		for r := range x.of(v.X) {
			if r == freshO {
				o.add(x.cells[k])
				o[freshO] = true
			} else if n != "" {
				o[n+"."+f.Name()] = true
			} else {
				o[r] = true
			}
		}
		x.set(v, o)
	case *ssa.Index:
		x.set(v, x.elemsOf(x.of(v.X), v.Type()))
	case *ssa.Lookup:
		if w := forwarded(v, v.X, v.Index); w != nil && !v.CommaOk {
			x.set(v, x.of(w))
			return
		}
		t := v.Type()
		if tu, ok := t.(*types.Tuple); ok {
			t = tu.At(0).Type()
		}
		x.set(v, x.elemsOf(x.of(v.X), t))
	case *ssa.Range:
		x.set(v, x.of(v.X))
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				o := origins{}
				o.add(x.elemsOf(x.of(r.X), m.Elem()))
				o.add(x.elemsOf(x.of(r.X), m.Key()))
				x.set(v, o)
				return
			}
		}
		x.set(v, origins{freshO: true})
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			x.set(v, x.result(c.Common(), v.Index, v.Type()))
			return
		}
		x.set(v, x.of(v.Tuple))
	case *ssa.Phi:
		for _, e := range v.Edges {
			x.set(v, x.of(e))
		}
	case *ssa.ChangeType:
		x.set(v, x.of(v.X))
	case *ssa.Convert:
		x.set(v, x.of(v.X))
	case *ssa.ChangeInterface:
		x.set(v, x.of(v.X))
	case *ssa.MakeInterface:
		x.set(v, x.of(v.X))
		x.cell("iface "+types.TypeString(v.X.Type(), nil), x.of(v.X))
	case *ssa.TypeAssert:
		o := origins{}
		o.add(x.of(v.X))
		x.set(v, o)
	case *ssa.Slice:
		x.set(v, x.of(v.X))
	case *ssa.SliceToArrayPointer:
		x.set(v, x.of(v.X))
	case *ssa.BinOp:
		x.set(v, origins{freshO: true})
	case *ssa.Select:
		x.set(v, origins{freshO: true})
	case *ssa.Store:
		t := v.Val.Type()
		if !hasRefs(t) {
			return
		}
		o := x.of(v.Val)
		switch a := v.Addr.(type) {
		case *ssa.FieldAddr:
			_, k, _ := fieldOf(a.X.Type(), a.Field)
			x.stored(k, t, o)
		case *ssa.IndexAddr:
			x.stored(elemKey(t), t, o)
		case *ssa.Alloc:
			x.stored(allocKey(a), t, o)
		case *ssa.Global:
			x.stored("global "+a.String(), t, o)
		default:
			x.stored("ptr "+types.TypeString(t, nil), t, o)
		}
	case *ssa.MapUpdate:
		x.stored(elemKey(v.Value.Type()), v.Value.Type(), x.of(v.Value))
		if hasRefs(v.Key.Type()) {
			x.stored(elemKey(v.Key.Type()), v.Key.Type(), x.of(v.Key))
		}
	case *ssa.Send:
		x.stored(elemKey(v.X.Type()), v.X.Type(), x.of(v.X))
	case *ssa.Return:
		r := x.rets[fn]
		if r == nil {
			r = make([]origins, len(v.Results))
			x.rets[fn] = r
		}
		for i, e := range v.Results {
			if r[i] == nil {
				r[i] = origins{}
			}
			if r[i].add(x.of(e)) {
				x.change = true
			}
		}
	case *ssa.Call:
		cc := v.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				o := origins{freshO: true}
				o.add(x.of(cc.Args[0]))
				x.set(v, o)
				// the elements that were there and the new ones are in the result
				et := elemType(v.Type())
				for _, a := range cc.Args {
					if at := elemType(a.Type()); at != nil && et != nil && hasRefs(et) {
						x.stored(elemKey(et), et, x.elemsOf(x.of(a), et))
					}
				}
			case "copy":
				et := elemType(cc.Args[0].Type())
				if et != nil && hasRefs(et) {
					x.stored(elemKey(et), et, x.elemsOf(x.of(cc.Args[1]), et))
				}
				x.set(v, origins{freshO: true})
			default:
				x.set(v, origins{freshO: true})
			}
			return
		}
		if v.Type() != nil {
			if _, ok := v.Type().(*types.Tuple); !ok {
				x.set(v, x.result(cc, 0, v.Type()))
			}
		}
	}
}

func (x *effects) callees(cc *ssa.CallCommon) (out []*ssa.Function, outside bool) {
	if g := cc.StaticCallee(); g != nil {
		if x.inScope(g) {
			return []*ssa.Function{g}, false
		}
		return nil, true
	}
	if cc.IsInvoke() {
		out = x.implementers(cc)
		return out, len(out) == 0
	}
	k := types.TypeString(cc.Signature(), nil)
	for _, fn := range x.order {
		if x.taken[fn] && types.TypeString(fn.Signature, nil) == k {
			out = append(out, fn)
		}
	}
	return out, len(out) == 0
}

func (x *effects) result(cc *ssa.CallCommon, i int, t types.Type) origins {
	if !hasRefs(t) {
		return origins{freshO: true}
	}
	o := origins{}
	gs, outside := x.callees(cc)
	for _, g := range gs {
		if r := x.rets[g]; i < len(r) && r[i] != nil {
			o.add(r[i])
		}
	}
	if outside {
		o[freshO] = true
		if types.IsInterface(t) { // something that was put in, e.g. by a heap
			for k, c := range x.cells {
				if strings.HasPrefix(k, "iface ") {
					o.add(c)
				}
			}
		} else if elemType(t) != nil { // e.g. slices.Clone: the same elements in new memory
			et := elemType(t)
			for _, a := range cc.Args {
				if at := elemType(a.Type()); at != nil && types.Identical(at, et) {
					x.stored(elemKey(et), et, x.elemsOf(x.of(a), et))
					if strings.HasPrefix(cc.Value.String(), "slices.Sort") {
						o.add(x.of(a))
					}
				}
			}
		}
	}
	return o
}

// ---- effects ----

func (x *effects) note(what string, pos token.Pos, fn *ssa.Function) {
	x.sites[what]++
	if _, ok := x.found[what]; ok {
		return
	}
	var via []*ssa.Function
	for f := fn; f != nil; f = x.reach[f] {
		via = append(via, f)
	}
	x.found[what] = effect{what, pos, fn, via}
}

// container writes an element of a container of the given origins.
func (x *effects) container(o origins, verb string, pos token.Pos, fn *ssa.Function) {
	for r := range o {
		if r != freshO && r != copyO && r != "feed" {
			x.note(strings.ReplaceAll(r, "[]", "")+verb, pos, fn)
		}
	}
}

func (x *effects) report(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch v := ins.(type) {
			case *ssa.Store:
				x.target(v.Addr, v.Val.Type(), ins.Pos(), fn)
			case *ssa.MapUpdate:
				x.container(x.of(v.Map), " set", ins.Pos(), fn)
			case ssa.CallInstruction:
				cc := v.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append": // in place if room is made by reslicing
						if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
							x.container(x.of(sl), "[]", ins.Pos(), fn)
						}
					case "delete":
						x.container(x.of(cc.Args[0]), " delete", ins.Pos(), fn)
					case "clear":
						x.container(x.of(cc.Args[0]), " delete", ins.Pos(), fn)
					case "copy":
						x.container(x.of(cc.Args[0]), "[]", ins.Pos(), fn)
					}
					continue
				}
				if g := cc.StaticCallee(); g != nil && !x.inScope(g) && mutatesArg(g) && len(cc.Args) > 0 {
					a := cc.Args[0]
					if m, ok := a.(*ssa.MakeInterface); ok {
						a = m.X
					}
					x.container(x.of(a), "[]", ins.Pos(), fn)
				}
			}
		}
	}
}

// mutatesArg: functions of the standard library that rearrange their first argument.
func mutatesArg(g *ssa.Function) bool {
	p := g.Pkg
	if p == nil && g.Origin() != nil {
		p = g.Origin().Pkg
	}
	if p == nil {
		return false
	}
	switch p.Pkg.Path() {
	case "sort":
		return !strings.HasPrefix(g.Name(), "Search") && !strings.Contains(g.Name(), "IsSorted") && !strings.Contains(g.Name(), "AreSorted")
	case "slices":
		for _, n := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact"} {
			if strings.HasPrefix(g.Name(), n) {
				return true
			}
		}
	case "maps":
		return g.Name() == "DeleteFunc" || g.Name() == "Copy"
	}
	return false
}

func (x *effects) target(addr ssa.Value, t types.Type, pos token.Pos, fn *ssa.Function) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		n, _, f := fieldOf(a.X.Type(), a.Field)
		b := x.of(a.X)
		if !b.old() {
			return
		}
		if in, ok := a.X.(*ssa.FieldAddr); ok { // a struct within a struct
			if n2, _, _ := fieldOf(in.X.Type(), in.Field); n2 != "" {
				x.target(in, deref(in.Type()), pos, fn)
				return
			}
		}
		if n != "" {
			x.note(n+"."+f.Name(), pos, fn)
		} else {
			x.container(b, "", pos, fn)
		}
	case *ssa.IndexAddr:
		x.container(x.of(a.X), "[]", pos, fn)
	case *ssa.Alloc, *ssa.Global:
	default:
		o := x.of(addr)
		if !o.old() {
			return
		}
		if n := feedType(t); n != "" {
			x.note(n+".*", pos, fn)
			return
		}
		x.container(o, "*", pos, fn)
	}
}

func (x *effects) list() []effect {
	var out []effect
	for _, e := range x.found {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].what < out[j].what })
	return out
}

// forwarded: the value last stored at the place the load reads, if the store dominates it in the same function.
func forwarded(at ssa.Instruction, addr, key ssa.Value) ssa.Value {
	switch addr.(type) {
	case *ssa.FieldAddr:
	default:
		if key == nil {
			return nil
		}
	}
	var best ssa.Value
	fn := at.Parent()
	for blk := at.Block(); blk != nil && best == nil; blk = blk.Idom() {
		n := len(blk.Instrs)
		if blk == at.Block() {
			for i, ins := range blk.Instrs {
				if ins == at {
					n = i
				}
			}
		}
		for i := n - 1; i >= 0 && best == nil; i-- {
			switch st := blk.Instrs[i].(type) {
			case *ssa.Store:
				if key == nil && samePlace(st.Addr, addr, 0) {
					best = st.Val
				}
			case *ssa.MapUpdate:
				if key != nil && samePlace(st.Key, key, 0) && samePlace(st.Map, addr, 0) {
					best = st.Value
				}
			}
		}
	}
	if best == nil {
		return nil
	}
	// all stores to this place must agree, else the nearest one is not certain to be the last
	for _, blk := range fn.Blocks {
		for _, ins := range blk.Instrs {
			if st, ok := ins.(*ssa.Store); ok && key == nil && st.Val != best && samePlace(st.Addr, addr, 0) {
				return nil
			}
			if st, ok := ins.(*ssa.MapUpdate); ok && key != nil && st.Value != best && samePlace(st.Key, key, 0) && samePlace(st.Map, addr, 0) {
				return nil
			}
		}
	}
	return best
}

func samePlace(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePlace(x.X, y.X, depth+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && samePlace(x.X, y.X, depth+1) && samePlace(x.Index, y.Index, depth+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && samePlace(x.X, y.X, depth+1)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && x.CommaOk == y.CommaOk && samePlace(x.X, y.X, depth+1) && samePlace(x.Index, y.Index, depth+1)
	}
	return false
}
