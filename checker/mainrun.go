package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interpretation of the command's main function: for a command line given as option values, the abstract
// interpreter walks main's source with option registration, file system, parser, passes and writer
// replaced by recorders. The recorded events of every reachable end of main are what the checks read.

// mainScen is one command line and the behaviour of its environment.
type mainScen struct {
	flags   map[string]any // long name -> bool, string, int or []string
	order   []string       // for messages
	paths   []string
	fail    map[int]bool       // parse calls that fail (counted from 0)
	files   map[string]*string // readable files (nil content: reading fails)
	exists  bool               // the output path exists
	mkFail  bool               // creating the output fails
	wrFail  bool               // writing the feed fails
	crash   bool               // any pass may crash
	badJSON bool               // geojson parsing fails
	geo     map[string][]geoFeat
	order3  bool // one direction per run for map iterations
	onParse func(h *mainHeap, s *State, feed *V, n int)
	onRun   func(h *mainHeap, s *State, feed *V, typ string)
}

func (m *mainScen) String() string {
	var p []string
	for _, k := range m.order {
		switch v := m.flags[k].(type) {
		case bool:
			p = append(p, "--"+k)
		default:
			p = append(p, fmt.Sprintf("--%s=%v", k, v))
		}
	}
	return strings.Join(append(p, m.paths...), " ")
}

func scen(paths int, opts ...any) *mainScen {
	m := &mainScen{flags: map[string]any{}, exists: true}
	for i := 0; i < paths; i++ {
		m.paths = append(m.paths, "in"+strconv.Itoa(i))
	}
	for i := 0; i+1 < len(opts); i += 2 {
		m.set(opts[i].(string), opts[i+1])
	}
	return m
}

func (m *mainScen) set(k string, v any) {
	if _, ok := m.flags[k]; !ok {
		m.order = append(m.order, k)
	}
	m.flags[k] = v
}

// event kinds: usage, parse, run, create, write, unknown-option
type mainEvent struct {
	kind   string
	typ    string // processor type name
	fields map[string]*V
	feed   *V
	path   *V
	prefix *V
	detail string
	val    *V
}

type mainEnd struct {
	code   int64
	known  bool
	events []mainEvent
	crash  bool // a pass crashed on this path
	s      *State
}

func (x *mainEnd) runs() (r []mainEvent) {
	for _, e := range x.events {
		if e.kind == "run" {
			r = append(r, e)
		}
	}
	return
}

func (x *mainEnd) of(kind string) (r []mainEvent) {
	for _, e := range x.events {
		if e.kind == kind {
			r = append(r, e)
		}
	}
	return
}

type optInfo struct {
	short, usage, typ string
	def               *V
}

type mainHeap struct {
	P    *Program
	e    *Engine
	m    *mainScen
	ends []*mainEnd
	opts map[string]optInfo
}

const pflagPkg = "github.com/spf13/pflag"

func (h *mainHeap) event(s *State, args ...*V) {
	s.marks["ev"] = h.e.Term("ev", nil, s.marks["ev"], h.e.Tuple(args...))
}

func (h *mainHeap) events(s *State) []mainEvent {
	var r []mainEvent
	for v := s.marks["ev"]; v != nil; v = v.Args[0] {
		a := v.Args[1].Args
		k := constant.StringVal(a[0].C)
		ev := mainEvent{kind: k, val: v.Args[1]}
		switch k {
		case "parse":
			ev.feed, ev.path, ev.prefix = a[1], a[2], a[3]
			ev.fields = structFields(a[4])
		case "run":
			ev.typ = constant.StringVal(a[1].C)
			ev.feed = a[2]
			ev.fields = structFields(a[3])
		case "write":
			ev.feed, ev.path = a[1], a[2]
			ev.fields = structFields(a[3])
		case "create", "unknown":
			ev.detail = constant.StringVal(a[1].C)
			ev.path = a[2]
		}
		r = append(r, ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func structFields(v *V) map[string]*V {
	m := map[string]*V{}
	if v == nil || v.T == nil || v.K != KStruct {
		return m
	}
	if st, ok := v.T.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			m[st.Field(i).Name()] = v.Args[i]
		}
	}
	return m
}

func (h *mainHeap) errv(name string) *V {
	return h.e.TokT("error:"+name, types.Universe.Lookup("error").Type())
}

func (h *mainHeap) goVal(s *State, v any) *V {
	e := h.e
	switch x := v.(type) {
	case bool:
		return e.Bool(x)
	case string:
		return e.Str(x)
	case int:
		return e.Int(int64(x))
	case []string:
		return h.strSlice("optlist:"+strings.Join(x, "|"), s, x)
	}
	panic("bad option value")
}

func (h *mainHeap) strSlice(name string, s *State, x []string) *V {
	e := h.e
	o := e.Obj("list:"+name, types.NewSlice(types.Typ[types.String]))
	for i, y := range x {
		s.mem[e.ElemAddr(o, e.Int(int64(i)))] = e.Str(y)
	}
	return e.Slice(o, e.Int(0), e.Int(int64(len(x))))
}

var outputCalls = map[string]bool{"os.Create": true, "os.OpenFile": true, "os.Mkdir": true, "os.MkdirAll": true, "os.MkdirTemp": true, "os.CreateTemp": true,
	"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Truncate": true, "os.Symlink": true, "os.Link": true,
	"io/ioutil.TempFile": true, "io/ioutil.TempDir": true, "os.Chmod": true, "os.Chown": true, "os.Chtimes": true}

func constStr(v *V) (string, bool) {
	if v != nil && v.K == KConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

func (h *mainHeap) call(c *CallCtx) bool {
	e, s := h.e, c.s
	name := c.name
	// options
	if i := strings.Index(name, pflagPkg); i >= 0 {
		return h.flagCall(c)
	}
	// passes
	if c.fn != nil && c.fn.Name() == "Run" && c.fn.Signature.Recv() != nil && len(c.args) == 2 {
		rt := c.fn.Signature.Recv().Type()
		ptr := false
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			rt, ptr = p.Elem(), true
		}
		if n, ok := types.Unalias(rt).(*types.Named); ok && n.Obj().Pkg() == h.P.proc.Pkg {
			recv := c.args[0]
			if ptr {
				recv = e.load(s, recv, rt)
			}
			h.event(s, e.Str("run"), e.Str(n.Obj().Name()), c.args[1], recv)
			if h.m.onRun != nil {
				h.m.onRun(h, s, c.args[1], n.Obj().Name())
			}
			c.panics = h.m.crash
			return c.ret(e.Nil(nil))
		}
	}
	switch name {
	case "(*" + parserMod + ".Feed).SetParseOpts":
		s.mem[e.FieldAddr(c.args[0], "#opts")] = c.args[1]
		return c.ret(e.Nil(nil))
	case "(*" + parserMod + ".Feed).Parse", "(*" + parserMod + ".Feed).PrefixParse":
		pre := e.Str("")
		if len(c.args) > 2 {
			pre = c.args[2]
		}
		o := s.mem[e.FieldAddr(c.args[0], "#opts")]
		if o == nil {
			o = e.Nil(nil)
		}
		n := len(h.nParsed(s))
		h.event(s, e.Str("parse"), c.args[0], c.args[1], pre, o)
		if h.m.fail[n] {
			return c.ret(h.errv("parse"))
		}
		if h.m.onParse != nil {
			h.m.onParse(h, s, c.args[0], n)
		}
		return c.ret(e.Nil(nil))
	case "(*" + writerMod + ".Writer).Write":
		w := e.load(s, c.args[0], e.derefT(c.fn.Signature.Recv().Type()))
		h.event(s, e.Str("write"), c.args[1], c.args[2], w)
		if h.m.wrFail {
			return c.ret(h.errv("write"))
		}
		return c.ret(e.Nil(nil))
	case "os.Stat", "os.Lstat":
		err := e.Nil(nil)
		if !h.m.exists {
			err = h.errv("notexist")
		}
		return c.ret(e.Tuple(e.Term("fileinfo", nil), err))
	case "os.IsNotExist":
		return c.ret(e.Bool(c.args[0] == h.errv("notexist")))
	case "os.IsExist":
		return c.ret(e.Bool(false))
	case "errors.Is":
		return c.ret(e.Bool(c.args[0] == h.errv("notexist")))
	case "os.ReadFile", "io/ioutil.ReadFile":
		p, _ := constStr(c.args[0])
		ct, ok := h.m.files[p]
		if !ok || ct == nil {
			return c.ret(e.Tuple(e.Nil(nil), h.errv("read")))
		}
		return c.ret(e.Tuple(e.Term("bytes", types.NewSlice(types.Typ[types.Byte]), e.Str(*ct)), e.Nil(nil)))
	case "github.com/paulmach/go.geojson.UnmarshalFeatureCollection":
		if h.m.badJSON {
			return c.ret(e.Tuple(e.Nil(nil), h.errv("json")))
		}
		t := e.derefT(c.fn.Signature.Results().At(0).Type())
		o := e.fresh(s, KObj, e.site(s.top(), c.instr), t)
		txt := ""
		if b := c.args[0]; b.K == KTerm && b.Op == "bytes" {
			txt, _ = constStr(b.Args[0])
		}
		h.geoObj(s, o, t, h.m.geo[txt])
		return c.ret(e.Tuple(o, e.Nil(nil)))
	case parserMod + ".NewPolygon":
		return c.ret(e.Term("polygon", c.rt, e.deepArg(s, c.args[0], 3), e.deepArg(s, c.args[1], 4)))
	case "errors.New", "fmt.Errorf":
		return c.ret(h.errv(name))
	}
	if outputCalls[name] {
		p := c.args[0]
		h.event(s, e.Str("create"), e.Str(name), p)
		err := e.Nil(nil)
		if h.m.mkFail {
			err = h.errv("create")
		}
		if t, ok := c.rt.(*types.Tuple); ok && t.Len() == 2 {
			return c.ret(e.Tuple(e.Obj("file:"+name, nil), err))
		}
		return c.ret(err)
	}
	if c.fn != nil && c.fn.Pkg != nil {
		switch c.fn.Pkg.Pkg.Path() {
		case "fmt", "log":
			if strings.HasPrefix(c.fn.Name(), "Fprint") || strings.HasPrefix(c.fn.Name(), "Print") {
				if c.rt == nil {
					return c.ret(e.Nil(nil))
				}
				return c.ret(e.Tuple(e.Int(0), e.Nil(nil)))
			}
		case "os":
			if strings.HasSuffix(name, "os.File).Close") || strings.HasSuffix(name, "os.File).Sync") {
				return c.ret(e.Nil(nil))
			}
		}
	}
	return false
}

func (e *Engine) derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// deepArg replaces slices by their content, recursively.
func (e *Engine) deepArg(s *State, a *V, depth int) *V {
	if depth > 0 && (a.K == KSlice || a.IsNil()) {
		el, ok := e.elems(s, a)
		if ok {
			r := make([]*V, len(el))
			for i, x := range el {
				r[i] = e.deepArg(s, x, depth-1)
			}
			return e.Tuple(r...)
		}
	}
	if a.K == KStruct {
		r := make([]*V, len(a.Args))
		for i, x := range a.Args {
			r[i] = e.deepArg(s, x, depth)
		}
		return e.Tuple(r...)
	}
	return a
}

func (h *mainHeap) nParsed(s *State) (r []mainEvent) {
	for _, ev := range h.events(s) {
		if ev.kind == "parse" {
			r = append(r, ev)
		}
	}
	return
}

// flagCall models pflag: definitions bind a variable to its default, Parse stores the given values.
func (h *mainHeap) flagCall(c *CallCtx) bool {
	e, s := h.e, c.s
	if c.fn == nil {
		return false
	}
	fn := c.fn.Name()
	args := c.args
	if c.fn.Signature.Recv() != nil {
		args = args[1:]
	}
	base := strings.TrimSuffix(strings.TrimSuffix(fn, "P"), "Var")
	switch base {
	case "Bool", "String", "Int", "Int64", "Int32", "Uint", "Float64", "StringArray", "StringSlice", "Duration":
		short := strings.HasSuffix(fn, "P")
		vr := strings.HasSuffix(strings.TrimSuffix(fn, "P"), "Var")
		var ptr *V
		if vr {
			ptr, args = args[0], args[1:]
		}
		name, ok := constStr(args[0])
		if !ok {
			return false
		}
		oi := optInfo{typ: base}
		i := 1
		if short {
			oi.short, _ = constStr(args[1])
			i = 2
		}
		oi.def = args[i]
		oi.usage, _ = constStr(args[i+1])
		if !vr {
			ptr = e.Obj("opt:"+name, e.derefT(c.fn.Signature.Results().At(0).Type()))
		}
		s.mem[ptr] = args[i]
		s.marks["opt:"+name] = ptr
		h.opts[name] = oi
		if vr {
			return c.ret(e.Nil(nil))
		}
		return c.ret(ptr)
	}
	switch fn {
	case "Parse":
		for _, k := range h.m.order {
			ptr, ok := s.marks["opt:"+k]
			if !ok {
				h.event(s, e.Str("unknown"), e.Str(k), e.Nil(nil))
				continue
			}
			s.mem[ptr] = h.goVal(s, h.m.flags[k])
		}
		if c.rt == nil {
			return c.ret(e.Nil(nil))
		}
		return c.ret(e.Nil(nil))
	case "Args":
		if len(h.m.paths) == 0 {
			return c.ret(e.Slice(e.Obj("list:args", types.NewSlice(types.Typ[types.String])), e.Int(0), e.Int(0)))
		}
		return c.ret(h.strSlice("args", s, h.m.paths))
	case "NArg":
		return c.ret(e.Int(int64(len(h.m.paths))))
	case "Arg":
		if n, ok := args[0].intVal(); ok {
			if n >= 0 && int(n) < len(h.m.paths) {
				return c.ret(e.Str(h.m.paths[n]))
			}
			return c.ret(e.Str(""))
		}
	case "NFlag":
		return c.ret(e.Int(int64(len(h.m.order))))
	case "Changed":
		if n, ok := constStr(args[0]); ok {
			_, ch := h.m.flags[n]
			return c.ret(e.Bool(ch))
		}
	case "PrintDefaults", "Usage":
		h.event(s, e.Str("usage"))
		return c.ret(e.Nil(nil))
	}
	return false
}

// geoFeat is one feature of a GeoJSON file: its geometry type and the rings of its polygons.
type geoFeat struct {
	typ   string
	polys [][][]pt
}

// geoObj fills a feature collection.
func (h *mainHeap) geoObj(s *State, o *V, t types.Type, fs []geoFeat) {
	e := h.e
	n := 0
	list := func(el types.Type, vs []*V) *V {
		n++
		b := e.Obj(fmt.Sprintf("list:geo:%s:%d", o, n), types.NewSlice(el))
		for i, v := range vs {
			s.mem[e.ElemAddr(b, e.Int(int64(i)))] = v
		}
		return e.Slice(b, e.Int(0), e.Int(int64(len(vs))))
	}
	ft := fieldType(t, "Features")
	if ft == nil {
		return
	}
	fp := ft.Underlying().(*types.Slice).Elem()
	f1 := types.NewSlice(types.Typ[types.Float64])
	f2 := types.NewSlice(f1)
	f3 := types.NewSlice(f2)
	var feats []*V
	for _, f := range fs {
		n++
		fo := e.Obj(fmt.Sprintf("feature:%s:%d", o, n), e.derefT(fp))
		feats = append(feats, fo)
		gt := fieldType(e.derefT(fp), "Geometry")
		if f.typ == "" {
			s.mem[e.FieldAddr(fo, "Geometry")] = e.Nil(gt)
			continue
		}
		g := e.Obj(fmt.Sprintf("geometry:%s:%d", o, n), e.derefT(gt))
		s.mem[e.FieldAddr(fo, "Geometry")] = g
		for i := 0; i < e.derefT(gt).Underlying().(*types.Struct).NumFields(); i++ {
			fd := e.derefT(gt).Underlying().(*types.Struct).Field(i)
			s.mem[e.FieldAddr(g, fd.Name())] = e.Zero(fd.Type())
		}
		s.mem[e.FieldAddr(g, "Type")] = e.Str(f.typ)
		var ps []*V
		for _, poly := range f.polys {
			var rs []*V
			for _, ring := range poly {
				var cs []*V
				for _, c := range ring {
					cs = append(cs, list(types.Typ[types.Float64], []*V{e.Const(constant.MakeFloat64(c[0]), types.Typ[types.Float64]), e.Const(constant.MakeFloat64(c[1]), types.Typ[types.Float64])}))
				}
				rs = append(rs, list(f1, cs))
			}
			ps = append(ps, list(f2, rs))
		}
		if f.typ == "MultiPolygon" {
			s.mem[e.FieldAddr(g, "MultiPolygon")] = list(f3, ps)
		} else if f.typ == "Polygon" {
			s.mem[e.FieldAddr(g, "Polygon")] = ps[0]
		}
	}
	s.mem[e.FieldAddr(o, "Features")] = list(fp, feats)
}

func fieldType(t types.Type, name string) types.Type {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (h *mainHeap) inline(fn *ssa.Function) (bool, bool) {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "github.com/paulmach/go.geojson" && strings.HasPrefix(fn.Name(), "Is") {
		return true, true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == parserMod && fn.Name() == "NewFeed" {
		return true, true
	}
	return false, false
}

// runMain interprets main for the scenario.
func runMain(P *Program, r *Result, key string, m *mainScen) *mainHeap {
	e := newEngine(P.prog)
	e.maxList = 256
	e.unroll = 300
	if m.order3 {
		e.h.MaxKnownRange = 3
	}
	h := &mainHeap{P: P, e: e, m: m, opts: map[string]optInfo{}}
	s := e.newState()
	mainFn := P.main.Func("main")
	if mainFn == nil {
		r.add("anchor:main", "", nil, "function main not found")
		return h
	}
	// package variables start out zero; their initialisers run first
	e.h.LoadDefault = func(st *State, addr *V, t types.Type) *V {
		root, _ := addrPath(addr)
		if root.K == KObj && strings.HasPrefix(root.Op, "global:"+repoMod) {
			return e.Zero(t)
		}
		if root.K == KObj && strings.HasPrefix(root.Op, "opt:") {
			return nil
		}
		return nil
	}
	e.h.Call = h.call
	e.h.Inline = h.inline
	end := func(s *State, code int64, known bool) {
		h.ends = append(h.ends, &mainEnd{code: code, known: known, events: h.events(s), crash: s.marks["panicked"] != nil, s: s})
	}
	var starts []*State
	if init := P.main.Func("init"); init != nil && len(init.Blocks) > 0 {
		e.h.Done = func(st *State, _ *V) { starts = append(starts, st) }
		e.Run(s, init, nil, nil)
	} else {
		starts = append(starts, s)
	}
	e.h.Done = func(st *State, _ *V) { end(st, 0, true) }
	e.h.Panicked = func(st *State) { end(st, 2, true) }
	e.h.Exited = func(st *State, code *V, ins ssa.Instruction) {
		c, ok := code.intVal()
		end(st, c, ok)
	}
	for _, st := range starts {
		st.frames = nil
		e.Run(st, mainFn, nil, nil)
	}
	r.absorb(e)
	if e.undecided != "" {
		r.add(key+":undecided", "", nil, "%s: %s: undecided: %s", key, m, e.undecided)
		h.ends = nil
		return h
	}
	if len(h.ends) == 0 {
		r.add(key+":noend", "", nil, "%s: %s: analysis reached no end of main", key, m)
	}
	return h
}
