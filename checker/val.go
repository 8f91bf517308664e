package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. Hash-consed per Engine: equal pointers iff equal values.

type Kind uint8

const (
	KConst  Kind = iota // compile-time constant; C==nil: zero value (nil) of T
	KTok                // scenario token: definitely distinct from all other tokens, objects and constants
	KTerm               // Herbrand term Op(Args) or symbol (no Args)
	KObj                // abstract heap object
	KAddr               // address of a part of an object: .F / [] / {}
	KStruct             // struct or array value
	KSlice              // slice over an array object: Args = base address, off, len
	KFunc               // function value: Fn, Args = bindings
	KIface              // interface value with known dynamic type
	KTuple
)

type V struct {
	id   int
	K    Kind
	Op   string
	T    types.Type
	C    constant.Value
	Args []*V
	Fn   *ssa.Function
	size int
	born bool // contains a site-born symbol or object
}

type interner struct {
	tab map[string]*V
	tid map[string]int
}

func newInterner() *interner { return &interner{tab: map[string]*V{}, tid: map[string]int{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (in *interner) mk(v V) *V {
	var sb strings.Builder
	sb.WriteByte(byte('A' + v.K))
	sb.WriteString(v.Op)
	sb.WriteByte(0)
	switch v.K {
	case KConst:
		if v.C != nil {
			sb.WriteString(v.C.ExactString())
			sb.WriteByte(byte('0' + v.C.Kind()))
		} else {
			sb.WriteString("nil")
		}
	case KIface, KStruct:
		sb.WriteString(typeKey(v.T))
	}
	if v.Fn != nil {
		fmt.Fprintf(&sb, "%p", v.Fn)
	}
	for _, a := range v.Args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('-')
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if r, ok := in.tab[k]; ok {
		return r
	}
	n := new(V)
	*n = v
	n.id = len(in.tab) + 1
	n.size = 1
	for _, a := range v.Args {
		if a != nil {
			n.size += a.size
			if a.born {
				n.born = true
			}
		}
	}
	if (v.K == KTerm || v.K == KObj) && len(v.Args) == 0 && strings.HasPrefix(v.Op, "@") {
		n.born = true
	}
	in.tab[k] = n
	return n
}

func (v *V) String() string {
	if v == nil {
		return "<none>"
	}
	if v.size > 60 {
		return fmt.Sprintf("%s#%d(...)", v.Op, v.id)
	}
	as := func() string {
		s := make([]string, len(v.Args))
		for i, a := range v.Args {
			s[i] = a.String()
		}
		return strings.Join(s, ",")
	}
	switch v.K {
	case KConst:
		if v.C == nil {
			return "nil"
		}
		return v.C.String()
	case KTok:
		return "$" + v.Op
	case KObj:
		return "&" + v.Op
	case KTerm:
		if len(v.Args) == 0 {
			return v.Op
		}
		return v.Op + "(" + as() + ")"
	case KAddr:
		switch v.Op {
		case "[]":
			return v.Args[0].String() + "[" + v.Args[1].String() + "]"
		case "{}":
			return v.Args[0].String() + "{" + v.Args[1].String() + "}"
		}
		return v.Args[0].String() + v.Op
	case KStruct:
		return "{" + as() + "}"
	case KSlice:
		return "slice(" + as() + ")"
	case KFunc:
		return "func:" + v.Fn.String()
	case KIface:
		return "iface<" + typeKey(v.T) + ">(" + as() + ")"
	case KTuple:
		return "<" + as() + ">"
	}
	return "?"
}

func (e *Engine) Const(c constant.Value, t types.Type) *V {
	return e.in.mk(V{K: KConst, C: c, T: t})
}
func (e *Engine) Nil(t types.Type) *V { return e.in.mk(V{K: KConst, T: t}) }
func (e *Engine) Int(i int64) *V      { return e.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (e *Engine) Bool(b bool) *V      { return e.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Engine) Str(s string) *V     { return e.Const(constant.MakeString(s), types.Typ[types.String]) }
func (e *Engine) Tok(n string) *V     { return e.in.mk(V{K: KTok, Op: n}) }
func (e *Engine) TokT(n string, t types.Type) *V {
	return e.in.mk(V{K: KTok, Op: n, T: t})
}
func (e *Engine) Obj(n string, t types.Type) *V { return e.in.mk(V{K: KObj, Op: n, T: t}) }
func (e *Engine) Term(op string, t types.Type, args ...*V) *V {
	return e.in.mk(V{K: KTerm, Op: op, T: t, Args: args})
}
func (e *Engine) FieldAddr(base *V, name string) *V {
	return e.in.mk(V{K: KAddr, Op: "." + name, Args: []*V{base}})
}
func (e *Engine) ElemAddr(base, idx *V) *V {
	return e.in.mk(V{K: KAddr, Op: "[]", Args: []*V{base, idx}})
}
func (e *Engine) EntryAddr(m, k *V) *V {
	return e.in.mk(V{K: KAddr, Op: "{}", Args: []*V{m, k}})
}
func (e *Engine) Struct(t types.Type, f ...*V) *V {
	return e.in.mk(V{K: KStruct, T: t, Args: f})
}
func (e *Engine) Tuple(f ...*V) *V { return e.in.mk(V{K: KTuple, Args: f}) }
func (e *Engine) Slice(base, off, ln *V) *V {
	return e.in.mk(V{K: KSlice, Args: []*V{base, off, ln}})
}

func (v *V) IsNil() bool { return v != nil && v.K == KConst && v.C == nil }
func (v *V) isBool() bool {
	return v.K == KConst && v.C != nil && v.C.Kind() == constant.Bool
}
func (v *V) boolVal() bool { return constant.BoolVal(v.C) }
func (v *V) intVal() (int64, bool) {
	if v == nil || v.K != KConst || v.C == nil {
		return 0, false
	}
	c := constant.ToInt(v.C)
	if c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c)
}

// root of an address chain
func (v *V) root() *V {
	for v.K == KAddr {
		v = v.Args[0]
	}
	return v
}

// mentions reports whether x occurs in v.
func (v *V) mentions(f func(*V) bool) bool {
	if v == nil {
		return false
	}
	if f(v) {
		return true
	}
	for _, a := range v.Args {
		if a.mentions(f) {
			return true
		}
	}
	return false
}

// Zero value of a type.
func (e *Engine) Zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return e.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.Const(constant.ToFloat(constant.MakeInt64(0)), t)
		case u.Info()&types.IsString != 0:
			return e.Const(constant.MakeString(""), t)
		}
		return e.Nil(t)
	case *types.Struct:
		if e.atomic(t) {
			return e.Term("zero:"+typeKey(t), t)
		}
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = e.Zero(u.Field(i).Type())
		}
		return e.Struct(t, fs...)
	case *types.Array:
		if u.Len() <= 64 {
			fs := make([]*V, u.Len())
			for i := range fs {
				fs[i] = e.Zero(u.Elem())
			}
			return e.Struct(t, fs...)
		}
		return e.Term("zeroarray", t)
	case *types.Tuple:
		fs := make([]*V, u.Len())
		for i := range fs {
			fs[i] = e.Zero(u.At(i).Type())
		}
		return e.Tuple(fs...)
	}
	return e.Nil(t)
}

type tri int8

const (
	unk tri = iota
	yes
	no
)

func b3(b bool) tri {
	if b {
		return yes
	}
	return no
}

func isPointerish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// eqVals decides equality structurally (no facts).
func (e *Engine) eqVals(a, b *V) tri {
	if a == b {
		return yes
	}
	if a.K == KConst && b.K == KConst {
		if a.C == nil || b.C == nil {
			if a.C == nil && b.C == nil {
				return yes
			}
			return no
		}
		if a.C.Kind() == b.C.Kind() || (a.C.Kind() <= constant.Float && a.C.Kind() >= constant.Int && b.C.Kind() <= constant.Float && b.C.Kind() >= constant.Int) {
			return b3(constant.Compare(a.C, token.EQL, b.C))
		}
		return unk
	}
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
		r := yes
		for i := range a.Args {
			switch e.eqVals(a.Args[i], b.Args[i]) {
			case no:
				return no
			case unk:
				r = unk
			}
		}
		return r
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.T, b.T) {
			return no
		}
		return e.eqVals(a.Args[0], b.Args[0])
	}
	if a.K == KIface && b.IsNil() || b.K == KIface && a.IsNil() {
		return no
	}
	distinct := func(v *V) bool { return v.K == KTok || v.K == KObj || v.K == KFunc }
	if distinct(a) && (distinct(b) || b.K == KConst) || distinct(b) && a.K == KConst {
		if a.K == KObj && b.K == KObj && a != b && (strings.HasSuffix(a.Op, "*") || strings.HasSuffix(b.Op, "*")) {
			return unk
		}
		return no
	}
	if a.K == KAddr && b.K == KAddr {
		ra, rb := a.root(), b.root()
		if distinct(ra) && distinct(rb) && ra != rb {
			return no
		}
		if a.Op == b.Op && (a.Op != "[]" && a.Op != "{}") {
			return e.eqVals(a.Args[0], b.Args[0])
		}
		if a.Op == "[]" && b.Op == "[]" && a.Args[0] == b.Args[0] {
			return e.eqVals(a.Args[1], b.Args[1])
		}
		return unk
	}
	if (a.K == KAddr || a.K == KSlice) && b.IsNil() || (b.K == KAddr || b.K == KSlice) && a.IsNil() {
		return no
	}
	if a.K == KAddr && distinct(b) || b.K == KAddr && distinct(a) {
		return no
	}
	// allocated objects and opaque symbols: a fresh object never equals a value obtained elsewhere
	if a.K == KObj && b.K == KTerm && strings.HasPrefix(a.Op, "@") && e.freshVsTerm(b) || b.K == KObj && a.K == KTerm && strings.HasPrefix(b.Op, "@") && e.freshVsTerm(a) {
		return no
	}
	// injective uninterpreted functions
	if a.K == KTerm && b.K == KTerm && a.Op == b.Op && len(a.Args) == len(b.Args) && len(a.Args) > 0 && e.injective(a.Op) {
		r := yes
		for i := range a.Args {
			switch e.eqVals(a.Args[i], b.Args[i]) {
			case no:
				return no
			case unk:
				r = unk
			}
		}
		return r
	}
	return unk
}

func (e *Engine) freshVsTerm(t *V) bool { return false }

func (e *Engine) injective(op string) bool {
	return e.injectiveHash && (op == "hashsum" || op == "acc" || op == "le") || op == "content" || op == "iface" || op == "date" || op == "time" || op == "call:url.String:0"
}

func isNumConst(v *V) bool {
	return v.K == KConst && v.C != nil && (v.C.Kind() == constant.Int || v.C.Kind() == constant.Float)
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
