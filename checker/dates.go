package main

import (
	"go/constant"
	"go/types"
	"strings"
	"time"
)

// Day-granular abstract dates: date(n), time(n) with n a day number (constant or symbolic).

func (e *Engine) Date(n int64) *V { return e.Term("date", nil, e.Int(n)) }

// emptyDay is the day the empty date stands for, 30 November 1899.
var emptyDay = int64(time.Date(1899, 11, 30, 12, 0, 0, 0, time.UTC).Sub(time.Date(2024, 12, 29, 12, 0, 0, 0, time.UTC)).Hours() / 24)

func dayOf(v *V) *V {
	if v != nil && v.K == KTerm && (v.Op == "date" || v.Op == "time") && len(v.Args) == 1 {
		return v.Args[0]
	}
	return nil
}

func (e *Engine) dateCall(c *CallCtx) bool {
	n := c.name
	intT := types.Typ[types.Int]
	switch {
	case strings.HasSuffix(n, "gtfs.Date).GetTime"):
		if d := dayOf(c.args[0]); d != nil {
			return c.ret(e.Term("time", nil, d))
		}
		if strings.HasPrefix(c.args[0].Op, "zero:") {
			return c.ret(e.Term("time", nil, e.Int(emptyDay)))
		}
	case n == "(time.Time).ISOWeek": // day 0 is Sunday, 29 December 2024
		if d := dayOf(c.args[0]); d != nil {
			if i, ok := d.intVal(); ok {
				y, w := time.Date(2024, 12, 29, 12, 0, 0, 0, time.UTC).AddDate(0, 0, int(i)).ISOWeek()
				return c.ret(e.Tuple(e.Int(int64(y)), e.Int(int64(w))))
			}
		}
	case strings.HasSuffix(n, "gtfs.Date).IsEmpty"):
		if dayOf(c.args[0]) != nil {
			return c.ret(e.Bool(false))
		}
		if strings.HasPrefix(c.args[0].Op, "zero:") {
			return c.ret(e.Bool(true))
		}
	case strings.HasSuffix(n, "gtfs.GetGtfsDateFromTime"):
		if d := dayOf(c.args[0]); d != nil {
			return c.ret(e.Term("date", nil, d))
		}
	case n == "(time.Time).Day", n == "(time.Time).Month", n == "(time.Time).Year", n == "(time.Time).YearDay",
		strings.HasSuffix(n, "gtfs.Date).Day"), strings.HasSuffix(n, "gtfs.Date).Month"), strings.HasSuffix(n, "gtfs.Date).Year"):
		if d := dayOf(c.args[0]); d != nil {
			return c.ret(e.Term("part:"+n[strings.LastIndex(n, ".")+1:], intT, d))
		}
	case n == "(time.Time).Date":
		if d := dayOf(c.args[0]); d != nil {
			return c.ret(e.Tuple(e.Term("part:Year", intT, d), e.Term("part:Month", intT, d), e.Term("part:Day", intT, d)))
		}
	case strings.HasSuffix(n, "gtfs.NewDate"):
		if d := partsOf(c.args[0], c.args[1], c.args[2]); d != nil {
			return c.ret(e.Term("date", nil, d))
		}
	case n == "time.Date":
		if d := partsOf(c.args[2], c.args[1], c.args[0]); d != nil {
			return c.ret(e.Term("time", nil, d))
		}
	case strings.HasSuffix(n, "gtfs.Date).GetOffsettedDate"):
		if d := dayOf(c.args[0]); d != nil {
			return c.ret(e.Term("date", nil, e.arith(addTok, d, c.args[1], intT)))
		}
		if n, ok := c.args[1].intVal(); ok && strings.HasPrefix(c.args[0].Op, "zero:") {
			// dates hold the years from 1900 in 8 bits, 1899 becomes 2155
			return c.ret(e.Term("date", nil, e.Int(emptyDay+n+256*365+62)))
		}
	case n == "time.Unix":
		if i, ok := c.args[0].intVal(); ok && i > 1<<40 {
			return c.ret(e.Term("time", nil, e.Int(1<<40)))
		}
	case n == "(time.Time).AddDate":
		if d := dayOf(c.args[0]); d != nil {
			y, ok1 := c.args[1].intVal()
			m, ok2 := c.args[2].intVal()
			if ok1 && ok2 && y == 0 && m == 0 {
				return c.ret(e.Term("time", nil, e.arith(addTok, d, c.args[3], intT)))
			}
		}
	case n == "(time.Time).After", n == "(time.Time).Before", n == "(time.Time).Equal":
		a, b := dayOf(c.args[0]), dayOf(c.args[1])
		if a != nil && b != nil {
			switch {
			case strings.HasSuffix(n, "After"):
				return c.ret(e.lt(b, a))
			case strings.HasSuffix(n, "Before"):
				return c.ret(e.lt(a, b))
			}
			return c.ret(e.eq(a, b))
		}
		if c.args[0] == c.args[1] {
			return c.ret(e.Bool(strings.HasSuffix(n, "Equal")))
		}
	case n == "(time.Time).Sub":
		a, b := dayOf(c.args[0]), dayOf(c.args[1])
		if a != nil && b != nil {
			return c.ret(e.Term("dur", nil, e.arith(subTok, a, b, intT)))
		}
	case n == "(time.Duration).Hours":
		if c.args[0].K == KTerm && c.args[0].Op == "dur" {
			x := c.args[0].Args[0]
			if i, ok := x.intVal(); ok {
				return c.ret(e.Const(constant.ToFloat(constant.MakeInt64(24*i)), types.Typ[types.Float64]))
			}
		}
	case n == "(time.Time).Weekday":
		if d := dayOf(c.args[0]); d != nil {
			if i, ok := d.intVal(); ok {
				return c.ret(e.Int(((i % 7) + 7) % 7))
			}
		}
	case n == "math.Sqrt":
		if c.args[0].K == KConst && c.args[0].C != nil && constant.Sign(c.args[0].C) == 0 {
			return c.ret(c.args[0])
		}
	}
	return false
}

// partsOf recovers the day from its day, month and year parts.
func partsOf(day, month, year *V) *V {
	ok := func(v *V, op string) bool { return v.K == KTerm && v.Op == "part:"+op }
	if ok(day, "Day") && ok(month, "Month") && ok(year, "Year") && day.Args[0] == month.Args[0] && day.Args[0] == year.Args[0] {
		return day.Args[0]
	}
	return nil
}
