package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Heap builds the abstract initial heap of a scenario: a feed with individual entities whose
// attributes are symbolic, shared between the entities of a pair unless the scenario makes them differ.
type Heap struct {
	P        *Program
	e        *Engine
	s        *State
	feed     *V
	ents     []*Ent
	alias    map[string]string // root object name -> name used for default attribute symbols
	content  map[*V]*V         // opaque pointer token -> content
	ncpu     int64
	constIDs bool // identifiers of new entities are constants, so that the choice of the survivor is fixed
}

type Ent struct {
	obj  *V
	name string
	kind string // gtfs type name
	id   *V
}

func newHeap(P *Program) *Heap {
	e := newEngine(P.prog)
	h := &Heap{P: P, e: e, s: e.newState(), alias: map[string]string{}, content: map[*V]*V{}, ncpu: 2}
	h.feed = e.Obj("feed", P.feed)
	st := P.feed.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		a := e.FieldAddr(h.feed, f.Name())
		switch f.Type().Underlying().(type) {
		case *types.Map:
			m := e.Obj("feed."+f.Name(), f.Type())
			e.setMapKeys(h.s, m, nil)
			h.s.mem[a] = m
		case *types.Slice, *types.Pointer:
			h.s.mem[a] = e.Nil(f.Type())
		}
	}
	e.h.LoadDefault = h.loadDefault
	if init := P.proc.Func("init"); init != nil {
		h.runInit(init)
	}
	return h
}

func (h *Heap) gtfsType(kind string) *types.Named {
	o := h.P.gtfs.Scope().Lookup(kind)
	if o == nil {
		panic("gtfs type not found: " + kind)
	}
	return o.Type().(*types.Named)
}

// kind -> feed map field
var feedMaps = map[string]string{"Agency": "Agencies", "Stop": "Stops", "Route": "Routes", "Trip": "Trips", "Service": "Services",
	"FareAttribute": "FareAttributes", "Shape": "Shapes", "Level": "Levels", "Pathway": "Pathways"}

var addFlds = map[string]string{"Agency": "AgenciesAddFlds", "Stop": "StopsAddFlds", "Route": "RoutesAddFlds", "Trip": "TripsAddFlds",
	"FareAttribute": "FareAttributesAddFlds", "Level": "LevelsAddFlds", "Pathway": "PathwaysAddFlds"}

func idField(kind string) string {
	if kind == "Service" {
		return "id"
	}
	return "Id"
}

// Entity adds an individual entity of the given gtfs kind; attribute defaults are named after as.
func (h *Heap) Entity(kind, name, as string) *Ent {
	e := h.e
	t := h.gtfsType(kind)
	o := e.Obj("ent:"+name, t)
	h.alias["ent:"+name] = as
	en := &Ent{obj: o, name: name, kind: kind}
	if f, ok := feedMaps[kind]; ok {
		en.id = e.TokT("id:"+name, types.Typ[types.String])
		if h.constIDs {
			en.id = e.Str("id" + name)
		}
		h.Set(en, idField(kind), en.id)
		e.mapSet(h.s, h.FeedMap(f), en.id, o)
	}
	h.ents = append(h.ents, en)
	return en
}

func (h *Heap) FeedMap(f string) *V { return h.s.mem[h.e.FieldAddr(h.feed, f)] }

func (h *Heap) Set(en *Ent, field string, v *V) {
	h.s.mem[h.e.FieldAddr(en.obj, field)] = v
}

func (h *Heap) SetT(en *Ent, field string, v *V, t types.Type) {
	h.e.store(h.s, h.e.FieldAddr(en.obj, field), v, t)
}

func (h *Heap) Get(s *State, en *Ent, field string) *V {
	return h.e.load(s, h.e.FieldAddr(en.obj, field), h.fieldType(en.kind, field))
}

func (h *Heap) fieldType(kind, field string) types.Type {
	st := h.gtfsType(kind).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	panic("no field " + kind + "." + field)
}

func (h *Heap) fields(kind string) []*types.Var {
	st := h.gtfsType(kind).Underlying().(*types.Struct)
	var r []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		r = append(r, st.Field(i))
	}
	return r
}

// List makes a slice with known elements.
func (h *Heap) List(name string, elem types.Type, el ...*V) *V {
	o := h.e.Obj("list:"+name, types.NewSlice(elem))
	for i, x := range el {
		h.e.store(h.s, h.e.ElemAddr(o, h.e.Int(int64(i))), x, elem)
	}
	return h.e.Slice(o, h.e.Int(0), h.e.Int(int64(len(el))))
}

// OpenList makes a slice of n elements with default (symbolic) content named after as.
func (h *Heap) OpenList(name, as string, elem types.Type, n int) *V {
	o := h.e.Obj("list:"+name, types.NewSlice(elem))
	h.alias["list:"+name] = as
	return h.e.Slice(o, h.e.Int(0), h.e.Int(int64(n)))
}

// Map makes a map object with known entries.
func (h *Heap) Map(name string, t types.Type, kv ...*V) *V {
	o := h.e.Obj("map:"+name, t)
	h.e.setMapKeys(h.s, o, nil)
	for i := 0; i+1 < len(kv); i += 2 {
		h.e.mapSet(h.s, o, kv[i], kv[i+1])
	}
	return o
}

// AddField registers a non-standard field column with values for entities.
func (h *Heap) AddField(feedField, column string, kv ...*V) {
	m := h.FeedMap(feedField)
	inner := h.Map(feedField+"."+column, m.T.Underlying().(*types.Map).Elem(), kv...)
	h.e.mapSet(h.s, m, h.e.Str(column), inner)
}

func addrPath(a *V) (root *V, path string) {
	for a.K == KAddr {
		switch a.Op {
		case "[]":
			path = "[" + a.Args[1].String() + "]" + path
		case "{}":
			path = "{" + a.Args[1].String() + "}" + path
		default:
			path = a.Op + path
		}
		a = a.Args[0]
	}
	return a, path
}

func (h *Heap) loadDefault(s *State, addr *V, t types.Type) *V {
	root, path := addrPath(addr)
	if root.K == KObj {
		if as, ok := h.alias[root.Op]; ok {
			return h.e.Term(as+path, t)
		}
		if root.Op == "feed" || strings.HasPrefix(root.Op, "list:") || strings.HasPrefix(root.Op, "map:") {
			return h.e.Term(root.Op+path, t)
		}
	}
	if root.K == KTok {
		if c, ok := h.content[root]; ok && (path == "" || path == ".#content") {
			return c
		}
	}
	return nil
}

// defaultHooks installs the standard call models.
func (h *Heap) baseCall(c *CallCtx) bool {
	e := h.e
	switch c.name {
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		return c.ret(e.Int(h.ncpu))
	}
	if c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(c.fn.Name(), "Fprint") {
		return c.ret(e.Tuple(e.Term("fmt.n", types.Typ[types.Int]), e.Nil(nil)))
	}
	if i := strings.LastIndex(c.name, "gtfs.Time)."); i >= 0 {
		// times of day with known parts
		if n, ok := h.secs(c.args[0]); ok {
			switch c.name[i+len("gtfs.Time)."):] {
			case "SecondsSinceMidnight":
				return c.ret(e.Int(n))
			case "Minus":
				if m, ok := h.secs(c.args[1]); ok {
					return c.ret(e.Int(n - m))
				}
			case "Empty":
				empty := true
				for _, p := range c.args[0].Args {
					x, _ := p.intVal()
					empty = empty && x == -1
				}
				return c.ret(e.Bool(empty))
			}
		}
	}
	if strings.HasSuffix(c.name, ".Timezone).Equals") || strings.HasSuffix(c.name, ".Time).Equals") {
		return c.ret(e.eq(c.args[0], c.args[1]))
	}
	return false
}

// receiver builds the abstract receiver of a processor: field values from cfg, others symbolic.
func (h *Heap) receiver(fn *ssa.Function, cfg map[string]*V) *V {
	t := fn.Params[0].Type()
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	st := t.Underlying().(*types.Struct)
	name := fn.Params[0].Type().String()
	vals := make([]*V, st.NumFields())
	for i := range vals {
		f := st.Field(i)
		if v, ok := cfg[f.Name()]; ok {
			vals[i] = v
		} else {
			vals[i] = h.e.Zero(f.Type())
		}
	}
	if !ptr {
		return h.e.Struct(t, vals...)
	}
	o := h.e.Obj("recv:"+name, t)
	for i := range vals {
		h.e.store(h.s, h.e.FieldAddr(o, st.Field(i).Name()), vals[i], st.Field(i).Type())
	}
	return o
}

func (h *Heap) inFeed(s *State, en *Ent) bool {
	return h.mapHas(s, feedMaps[en.kind], en.obj)
}

func (h *Heap) mapHas(s *State, field string, obj *V) bool {
	m := s.mem[h.e.FieldAddr(h.feed, field)]
	ks, ok := h.e.mapKeys(s, m)
	if !ok {
		return true
	}
	for _, k := range ks {
		if s.mem[h.e.EntryAddr(m, k)] == obj {
			return true
		}
	}
	return false
}

type Finding struct {
	Key   string // stable key: rule + construct
	Msg   string
	Pos   string
	Trail []string
}

type Result struct {
	Prop              string
	Findings          []Finding
	Obligations       int
	Discharged        int
	Detail            []string
	Functions         map[string]bool
	Instances         map[string]int
	Steps             int
	States            int
	Workers, Accesses int // goroutines started, memory accesses ordered
}

func newResult(p string) *Result {
	return &Result{Prop: p, Functions: map[string]bool{}, Instances: map[string]int{}}
}

func (r *Result) absorb(e *Engine) {
	for f := range e.visitedFn {
		r.Functions[f.String()] = true
	}
	r.Steps += e.steps
	r.States += e.states
	r.Workers += e.spawned
	r.Accesses += e.accesses
	for at, n := range e.goSites {
		r.Instances["workers started at "+at] += n
	}
}

func (r *Result) add(key, pos string, trail []string, format string, a ...any) {
	r.addF(Finding{Key: key, Msg: fmt.Sprintf(format, a...), Pos: pos, Trail: trail})
}

func (r *Result) addF(x Finding) {
	for _, f := range r.Findings {
		if f.Key == x.Key {
			return
		}
	}
	r.Findings = append(r.Findings, x)
}

// runScenario runs processor.Run on the heap and reports each final state to done.
func (h *Heap) runScenario(r *Result, key string, typ string, cfg map[string]*V, done func(s *State)) (ends int, ok bool) {
	fn := h.P.method(typ, "Run")
	if fn == nil {
		r.add("anchor:"+typ, "", nil, "processor type %s with a Run method not found", typ)
		return 0, false
	}
	if h.e.h.Call == nil {
		h.e.h.Call = h.baseCall
	}
	h.e.h.Done = func(s *State, _ *V) { ends++; done(s) }
	if m := h.P.par; m != nil {
		if !h.watchWorkers(r, m, typ, fn) {
			return 0, false
		}
		h.e.h.Done = func(s *State, _ *V) { ends++; h.checkEnd(s, r, m, typ) }
	}
	if m := h.P.nils; m != nil {
		r.Instances["emptied"] += h.dropRefs(m)
		h.e.h.MaxKnownRange = 1
		h.e.h.Done = func(s *State, _ *V) { ends++ }
		seen := map[string]bool{}
		h.e.h.Panicked = func(s *State) {
			ends++
			at := h.e.crashSite(s)
			k := "nil:" + typ + ":" + at
			if !seen[k] {
				seen[k] = true
				r.add(k, at, h.e.trailText(s, 16), "%s.Run crashes at %s on a feed with %s (%s)", typ, at, m.name, key)
			}
		}
	}
	if h.e.h.Panicked == nil {
		h.e.h.Panicked = func(s *State) {
			ends++
			r.add(key+":crash", "", h.e.trailText(s, 12), "%s: a path of %s.Run crashes", key, typ)
		}
	}
	h.e.Run(h.s, fn, []*V{h.receiver(fn, cfg), h.feed}, nil)
	r.absorb(h.e)
	if h.e.undecided != "" {
		r.add(key+":undecided", "", nil, "%s: undecided: %s", key, h.e.undecided)
		return ends, false
	}
	if ends == 0 {
		r.add(key+":noend", "", nil, "%s: analysis reached no end of %s.Run", key, typ)
		return ends, false
	}
	return ends, true
}
