package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"path"
	"strconv"
	"strings"
)

// foldCall evaluates library calls on constants, like a compiler folds constants.
func (e *Engine) foldCall(c *CallCtx) bool {
	str := func(i int) (string, bool) {
		if i >= len(c.args) {
			return "", false
		}
		v := c.args[i]
		if v.K == KConst && v.C != nil && v.C.Kind() == constant.String {
			return constant.StringVal(v.C), true
		}
		return "", false
	}
	num := func(i int) (int64, bool) {
		if i >= len(c.args) {
			return 0, false
		}
		return c.args[i].intVal()
	}
	flo := func(i int) (float64, bool) {
		if i >= len(c.args) || c.args[i].K != KConst || c.args[i].C == nil {
			return 0, false
		}
		v := constant.ToFloat(c.args[i].C)
		if v.Kind() != constant.Float {
			return 0, false
		}
		f, _ := constant.Float64Val(v)
		return f, true
	}
	switch c.name {
	case "math.Ceil", "math.Floor", "math.Trunc", "math.Round", "math.Abs", "math.Sqrt":
		if x, ok := flo(0); ok {
			f := map[string]func(float64) float64{"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Trunc": math.Trunc, "math.Round": math.Round, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt}[c.name]
			if r := f(x); !math.IsNaN(r) && !math.IsInf(r, 0) {
				return c.ret(e.Const(constant.ToFloat(constant.MakeFloat64(r)), c.rt))
			}
		}
	case "math.Min", "math.Max":
		x, ok := flo(0)
		y, ok2 := flo(1)
		if ok && ok2 {
			if (x < y) == (c.name == "math.Min") {
				return c.ret(c.args[0])
			}
			return c.ret(c.args[1])
		}
	case "math.NaN":
		return c.ret(e.Term("nan", c.rt))
	case "math.IsNaN", "math.IsInf":
		if _, ok := flo(0); ok {
			return c.ret(e.Bool(false))
		}
		if isNaN(c.args[0]) {
			return c.ret(e.Bool(c.name == "math.IsNaN"))
		}
	case "strconv.Itoa":
		if n, ok := num(0); ok {
			return c.ret(e.Str(strconv.FormatInt(n, 10)))
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		n, ok := num(0)
		b, ok2 := num(1)
		if ok && ok2 && b >= 2 && b <= 36 && n >= 0 {
			return c.ret(e.Str(strconv.FormatInt(n, int(b))))
		}
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace":
		if s, ok := str(0); ok {
			switch c.name {
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			case "strings.ToLower":
				s = strings.ToLower(s)
			default:
				s = strings.TrimSpace(s)
			}
			return c.ret(e.Str(s))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			switch c.name {
			case "strings.HasPrefix":
				return c.ret(e.Bool(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return c.ret(e.Bool(strings.HasSuffix(a, b)))
			case "strings.Contains":
				return c.ret(e.Bool(strings.Contains(a, b)))
			case "strings.TrimPrefix":
				return c.ret(e.Str(strings.TrimPrefix(a, b)))
			case "strings.TrimSuffix":
				return c.ret(e.Str(strings.TrimSuffix(a, b)))
			case "strings.TrimLeft":
				return c.ret(e.Str(strings.TrimLeft(a, b)))
			case "strings.TrimRight":
				return c.ret(e.Str(strings.TrimRight(a, b)))
			case "strings.Trim":
				return c.ret(e.Str(strings.Trim(a, b)))
			}
		}
	case "strings.Split", "strings.Fields":
		a, ok := str(0)
		if !ok {
			return false
		}
		var parts []string
		if c.name == "strings.Split" {
			b, ok := str(1)
			if !ok {
				return false
			}
			parts = strings.Split(a, b)
		} else {
			parts = strings.Fields(a)
		}
		if len(parts) > 200 {
			return false
		}
		var el []*V
		for _, p := range parts {
			el = append(el, e.Str(p))
		}
		return c.ret(e.newSlice(c.s, e.site(c.s.top(), c.instr), types.NewSlice(types.Typ[types.String]), el))
	case "strings.ReplaceAll":
		a, ok := str(0)
		b, ok2 := str(1)
		r, ok3 := str(2)
		if ok && ok2 && ok3 {
			return c.ret(e.Str(strings.ReplaceAll(a, b, r)))
		}
	case "strings.Index", "strings.LastIndex", "strings.EqualFold", "strings.Count", "strings.Compare":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			switch c.name {
			case "strings.Index":
				return c.ret(e.Int(int64(strings.Index(a, b))))
			case "strings.LastIndex":
				return c.ret(e.Int(int64(strings.LastIndex(a, b))))
			case "strings.Count":
				return c.ret(e.Int(int64(strings.Count(a, b))))
			case "strings.Compare":
				return c.ret(e.Int(int64(strings.Compare(a, b))))
			case "strings.EqualFold":
				return c.ret(e.Bool(strings.EqualFold(a, b)))
			}
		}
	case "path.Ext", "path/filepath.Ext":
		if a, ok := str(0); ok {
			return c.ret(e.Str(path.Ext(a)))
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat":
		a, ok := str(0)
		if !ok {
			return false
		}
		errT := e.TokT("error:"+c.name, types.Universe.Lookup("error").Type())
		if c.name == "strconv.ParseFloat" {
			f, err := strconv.ParseFloat(a, 64)
			if err != nil {
				return c.ret(e.Tuple(e.Const(constant.ToFloat(constant.MakeInt64(0)), types.Typ[types.Float64]), errT))
			}
			cv := constant.MakeFloat64(f)
			if cv.Kind() == constant.Unknown {
				return false
			}
			return c.ret(e.Tuple(e.Const(constant.ToFloat(cv), types.Typ[types.Float64]), e.Nil(nil)))
		}
		base := 10
		if c.name == "strconv.ParseInt" {
			b, ok := num(1)
			if !ok {
				return false
			}
			base = int(b)
		}
		n, err := strconv.ParseInt(a, base, 64)
		if err != nil {
			return c.ret(e.Tuple(e.Int(0), errT))
		}
		return c.ret(e.Tuple(e.Int(n), e.Nil(nil)))
	case "fmt.Sprintf", "fmt.Sprint":
		i0 := 0
		format := ""
		if c.name == "fmt.Sprintf" {
			f, ok := str(0)
			if !ok {
				return false
			}
			format, i0 = f, 1
		}
		if len(c.args) <= i0 {
			return false
		}
		el, ok := e.elems(c.s, c.args[i0])
		if !ok {
			return false
		}
		var as []any
		for _, v := range el {
			if v.K == KIface && len(v.Args) == 1 {
				v = v.Args[0]
			}
			if v.K != KConst || v.C == nil {
				return false
			}
			switch v.C.Kind() {
			case constant.String:
				as = append(as, constant.StringVal(v.C))
			case constant.Int:
				n, ok := constant.Int64Val(v.C)
				if !ok {
					return false
				}
				as = append(as, n)
			case constant.Bool:
				as = append(as, constant.BoolVal(v.C))
			default:
				return false
			}
		}
		if c.name == "fmt.Sprint" {
			return c.ret(e.Str(fmt.Sprint(as...)))
		}
		if strings.Contains(format, "%T") || strings.Contains(format, "%p") {
			return false
		}
		return c.ret(e.Str(fmt.Sprintf(format, as...)))
	}
	return false
}
