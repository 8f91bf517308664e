package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions that call back into the analysed code are interpreted through these bodies.
const modelSrc = `package model
type sorter interface { Len() int; Less(i, j int) bool; Swap(i, j int) }
func swap(x any, i, j int)
func at(x any, i int) any
func sortIface(x sorter) {
	n := x.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- { x.Swap(j, j-1) }
	}
}
func sortSlice(n int, x any, less func(i, j int) bool) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- { swap(x, j, j-1) }
	}
}
func find(n int, cmp func(int) int) (int, bool) {
	i, j := 0, n
	for i < j {
		m := (i + j) / 2
		if cmp(m) > 0 { i = m + 1 } else { j = m }
	}
	return i, i < n && cmp(i) == 0
}
func search(n int, f func(int) bool) int {
	i, j := 0, n
	for i < j {
		m := (i + j) / 2
		if !f(m) { i = m + 1 } else { j = m }
	}
	return i
}
func sortCmp(n int, x any, cmp func(a, b any) int) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && cmp(at(x, j), at(x, j-1)) < 0; j-- { swap(x, j, j-1) }
	}
}
`

var modelFns = map[string]*ssa.Function{}

func buildModels(prog *ssa.Program) error {
	f, err := parser.ParseFile(prog.Fset, "model.go", modelSrc, 0)
	if err != nil {
		return err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	pkg, err := (&types.Config{IgnoreFuncBodies: false, Error: nil}).Check("model", prog.Fset, []*ast.File{f}, info)
	if err != nil {
		return fmt.Errorf("models: %v", err)
	}
	sp := prog.CreatePackage(pkg, []*ast.File{f}, info, true)
	sp.Build()
	for _, n := range []string{"sortIface", "sortSlice", "sortCmp", "find", "search"} {
		modelFns[n] = sp.Func(n)
	}
	return nil
}

// modelCall gives the model function and its arguments for a library call, nil if there is none.
func (e *Engine) modelCall(s *State, name string, args []*V) (*ssa.Function, []*V) {
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	known := func(v *V) (*V, int64, bool) {
		if v.K == KIface {
			v = v.Args[0]
		}
		if v.IsNil() {
			return v, 0, true
		}
		if v.K != KSlice {
			return v, 0, false
		}
		n, ok := v.Args[2].intVal()
		_, ok2 := v.Args[1].intVal()
		return v, n, ok && ok2 && (n <= 12 || e.nums)
	}
	switch name {
	case "sort.Sort", "sort.Stable":
		if args[0].K == KIface {
			return modelFns["sortIface"], args
		}
	case "sort.Slice", "sort.SliceStable":
		if sl, n, ok := known(args[0]); ok && args[1].K == KFunc {
			return modelFns["sortSlice"], []*V{e.Int(n), sl, args[1]}
		}
	case "sort.Find", "sort.Search":
		if _, ok := args[0].intVal(); ok && e.nums && args[1].K == KFunc {
			return modelFns[map[string]string{"sort.Find": "find", "sort.Search": "search"}[name]], args
		}
	case "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		if sl, n, ok := known(args[0]); ok && args[1].K == KFunc {
			return modelFns["sortCmp"], []*V{e.Int(n), sl, args[1]}
		}
	}
	return nil, nil
}

// modelPrim implements the external functions of the models.
func (e *Engine) modelPrim(c *CallCtx) bool {
	elem := func(i int) (*V, types.Type, bool) {
		sl := c.args[0]
		if sl.K != KSlice {
			return nil, nil, false
		}
		off, _ := sl.Args[1].intVal()
		k, ok := c.args[i].intVal()
		var et types.Type
		if t := sl.Args[0].root().T; t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		return e.ElemAddr(sl.Args[0], e.Int(off+k)), et, ok
	}
	switch c.name {
	case "model.swap":
		a, t, ok1 := elem(1)
		b, _, ok2 := elem(2)
		if ok1 && ok2 {
			x, y := e.load(c.s, a, t), e.load(c.s, b, t)
			e.store(c.s, a, y, t)
			e.store(c.s, b, x, t)
		}
		return c.ret(e.Nil(nil))
	case "maps.clone":
		m := c.args[0]
		if m.K != KIface {
			return false
		}
		ks, known := e.mapKeys(c.s, m.Args[0])
		if m.Args[0].IsNil() {
			return c.ret(m)
		}
		if !known {
			return false
		}
		o := e.fresh(c.s, KObj, e.site(c.s.top(), c.instr), m.T)
		e.clearObj(c.s, o)
		e.setMapKeys(c.s, o, nil)
		for _, k := range ks {
			e.mapSet(c.s, o, k, c.s.mem[e.EntryAddr(m.Args[0], k)])
		}
		return c.ret(e.in.mk(V{K: KIface, T: m.T, Args: []*V{o}}))
	case "model.at":
		a, t, ok := elem(1)
		if ok {
			return c.ret(e.load(c.s, a, t))
		}
	}
	return false
}

var _ = token.NoPos
