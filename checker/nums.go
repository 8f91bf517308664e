package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Scenarios with known coordinates: floating point constants are folded as a compiler folds them for the target, rounded
// to their type, with infinities (as a number larger than any) and the functions of package math.

var infC = constant.MakeFromLiteral("1e400", token.FLOAT, 0)

func isInfC(c constant.Value) int {
	if c == nil || c.Kind() != constant.Float {
		return 0
	}
	if f, _ := constant.Float64Val(c); math.IsInf(f, 0) {
		return constant.Sign(c)
	}
	return 0
}

// floatConst is a floating point constant rounded to its type.
func (e *Engine) floatConst(f float64, t types.Type) *V {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		f = float64(float32(f))
	}
	switch {
	case math.IsNaN(f):
		return e.Term("nan", t)
	case math.IsInf(f, 1):
		return e.Const(infC, t)
	case math.IsInf(f, -1):
		return e.Const(constant.UnaryOp(token.SUB, infC, 0), t)
	}
	return e.Const(constant.ToFloat(constant.MakeFloat64(f)), t)
}

// numArith folds operations on floating point constants.
func (e *Engine) numArith(op token.Token, a, b *V, t types.Type) *V {
	if !e.nums || !isFloatT(t) || !isNumConst(a) || !isNumConst(b) {
		return nil
	}
	x, _ := constFloat(a)
	y, _ := constFloat(b)
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
		p, q := float32(x), float32(y)
		switch op {
		case token.ADD:
			return e.floatConst(float64(p+q), t)
		case token.SUB:
			return e.floatConst(float64(p-q), t)
		case token.MUL:
			return e.floatConst(float64(p*q), t)
		case token.QUO:
			return e.floatConst(float64(p/q), t)
		}
		return nil
	}
	switch op {
	case token.ADD:
		return e.floatConst(x+y, t)
	case token.SUB:
		return e.floatConst(x-y, t)
	case token.MUL:
		return e.floatConst(x*y, t)
	case token.QUO:
		return e.floatConst(x/y, t)
	}
	return nil
}

var numFns1 = map[string]func(float64) float64{"math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan, "math.Asin": math.Asin, "math.Acos": math.Acos, "math.Atan": math.Atan,
	"math.Exp": math.Exp, "math.Log": math.Log, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Trunc": math.Trunc,
	"math.Sinh": math.Sinh, "math.Cosh": math.Cosh, "math.Tanh": math.Tanh, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Log1p": math.Log1p, "math.Cbrt": math.Cbrt}
var numFns2 = map[string]func(a, b float64) float64{"math.Atan2": math.Atan2, "math.Pow": math.Pow, "math.Hypot": math.Hypot, "math.Mod": math.Mod, "math.Min": math.Min, "math.Max": math.Max, "math.Copysign": math.Copysign, "math.Dim": math.Dim}

// numCall folds functions of package math.
func (e *Engine) numCall(c *CallCtx) bool {
	if !e.nums {
		return false
	}
	arg := func(i int) (float64, bool) {
		if i >= len(c.args) {
			return 0, false
		}
		if isNaN(c.args[i]) {
			return math.NaN(), true
		}
		if !isNumConst(c.args[i]) {
			return 0, false
		}
		f, _ := constFloat(c.args[i])
		return f, true
	}
	x, ok := arg(0)
	if !ok {
		return false
	}
	if f := numFns1[c.name]; f != nil {
		return c.ret(e.floatConst(f(x), types.Typ[types.Float64]))
	}
	if f := numFns2[c.name]; f != nil {
		if y, ok := arg(1); ok {
			return c.ret(e.floatConst(f(x, y), types.Typ[types.Float64]))
		}
		return false
	}
	switch c.name {
	case "math.Inf":
		return c.ret(e.floatConst(math.Inf(int(x)), types.Typ[types.Float64]))
	case "math.IsInf":
		y, _ := arg(1)
		return c.ret(e.Bool(math.IsInf(x, int(y))))
	case "math.IsNaN":
		return c.ret(e.Bool(math.IsNaN(x)))
	}
	return false
}

// numbers makes the numeric constants of the analysed packages known, and folds floating point arithmetic.
func (h *Heap) numbers() {
	h.e.nums = true
	init := h.P.proc.Func("init")
	if init == nil {
		return
	}
	if h.runInit(init) {
		return
	}
	known := map[ssa.Value]*V{}
	val := func(v ssa.Value) *V {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			if isFloatT(c.Type()) {
				f, _ := constant.Float64Val(constant.ToFloat(c.Value))
				return h.e.floatConst(f, c.Type())
			}
			return h.e.Const(c.Value, c.Type())
		}
		return known[v]
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
					if v := h.s.mem[h.e.val(h.s, g)]; v != nil {
						known[x] = v
					}
				}
			case *ssa.Convert:
				if v := val(x.X); v != nil && isNumConst(v) && isFloatT(x.Type()) {
					f, _ := constFloat(v)
					known[x] = h.e.floatConst(f, x.Type())
				}
			case *ssa.BinOp:
				if p, q := val(x.X), val(x.Y); p != nil && q != nil {
					if v := h.e.numArith(x.Op, p, q, x.Type()); v != nil {
						known[x] = v
					}
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					if v := val(x.Val); v != nil && isNumConst(v) {
						h.s.mem[h.e.val(h.s, g)] = v
					}
				}
			}
		}
	}
}

// runInit interprets the initialisation of the package, so that the tables it defines are known. If that does not end in
// one state, nothing changes.
func (h *Heap) runInit(init *ssa.Function) bool {
	e := h.e
	saved, call := *h.e, e.h
	var ends []*State
	e.h.Done = func(s *State, _ *V) { ends = append(ends, s) }
	e.h.Panicked = func(s *State) { ends = append(ends, nil, nil) }
	e.h.Call = func(c *CallCtx) bool {
		if c.fn != nil && c.fn.Synthetic == "package initializer" {
			return c.ret(nil)
		}
		return h.baseCall(c)
	}
	s := h.s.clone()
	if g, ok := init.Pkg.Members["init$guard"].(*ssa.Global); ok {
		s.mem[e.val(s, g)] = e.Bool(false)
	}
	e.Run(s, init, nil, nil)
	ok := len(ends) == 1 && ends[0] != nil && e.undecided == ""
	e.h, e.undecided, e.stop, e.steps, e.states, e.work = call, saved.undecided, saved.stop, saved.steps, saved.states, nil
	if ok {
		ends[0].frames = nil
		for _, m := range init.Pkg.Members {
			g, isG := m.(*ssa.Global)
			if !isG {
				continue
			}
			a := e.val(ends[0], g)
			if !e.nums && isFloatT(g.Type().(*types.Pointer).Elem()) || !h.P.tables()[g] {
				delete(ends[0].mem, a)
			}
		}
		h.s = ends[0]
	}
	return ok
}

// tables are the package-level variables that nothing but the initialisation writes, not even through a reference.
func (P *Program) tables() map[*ssa.Global]bool {
	if P.tablesOf == nil {
		P.tablesOf = map[*ssa.Global]bool{}
		bad := map[*ssa.Global]bool{}
		var reads func(v ssa.Value) bool // a reference into a table is only read
		reads = func(v ssa.Value) bool {
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Lookup:
					if !plainElems(x.X.Type()) {
						return false
					}
				case *ssa.Range:
					if !plainElems(x.X.Type()) {
						return false
					}
				case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
				case *ssa.UnOp:
					if _, basic := x.Type().Underlying().(*types.Basic); !basic && !reads(x) {
						return false
					}
				case *ssa.IndexAddr:
					if x.X != v || !reads(x) {
						return false
					}
				case *ssa.FieldAddr:
					if !reads(x) {
						return false
					}
				case *ssa.Field:
					if _, basic := x.Type().Underlying().(*types.Basic); !basic && !reads(x) {
						return false
					}
				case *ssa.Index:
					if _, basic := x.Type().Underlying().(*types.Basic); !basic && !reads(x) {
						return false
					}
				case *ssa.Slice:
					if !reads(x) {
						return false
					}
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || b.Name() != "len" && b.Name() != "cap" {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		for _, fn := range P.allFuncs() {
			if fn.Synthetic == "package initializer" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						u, isLoad := ins.(*ssa.UnOp)
						switch {
						case isLoad && isBasicT(u.Type()):
						case isLoad:
							bad[g] = bad[g] || !reads(u)
						default:
							if v, ok := ins.(ssa.Value); ok {
								switch ins.(type) {
								case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
									bad[g] = bad[g] || !reads(v)
									continue
								}
							}
							if _, dbg := ins.(*ssa.DebugRef); !dbg {
								bad[g] = true
							}
						}
					}
				}
			}
		}
		for _, p := range P.prog.AllPackages() {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && !bad[g] {
					P.tablesOf[g] = true
				}
			}
		}
	}
	return P.tablesOf
}

func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// plainElems: the elements of a map are values without references.
func plainElems(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return true
	}
	var plain func(t types.Type) bool
	plain = func(t types.Type) bool {
		switch x := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Array:
			return plain(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if !plain(x.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		return false
	}
	return plain(m.Elem())
}
