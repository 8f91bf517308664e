package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stop clusters written back by the StopReclusterer: the entry function is the one that takes a cluster and
// the feed, found by its signature.

func clusterWriter(P *Program) *ssa.Function {
	var found []*ssa.Function
	for _, fn := range P.allFuncs() {
		hasC, hasF := false, false
		for _, p := range fn.Params {
			switch strings.TrimPrefix(p.Type().String(), "*") {
			case P.proc.Pkg.Path() + ".StopCluster":
				hasC = true
			case P.feed.String():
				hasF = true
			}
		}
		if hasC && hasF {
			found = append(found, fn)
		}
	}
	// the outermost one: not called by another candidate
	for _, fn := range found {
		called := false
		for _, g := range found {
			if g != fn && callsDirectly(g, fn) {
				called = true
			}
		}
		if !called {
			return fn
		}
	}
	return nil
}

func callsDirectly(g, fn *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

type clusterScenario struct {
	name            string
	parents, childs int
	transfers       []string
	pathways        []string
	taken           bool // the identifier proposed for a new station is already in use
}

func clusterScenarios() []clusterScenario {
	var out []clusterScenario
	for _, p := range []int{1, 2, 3} {
		for _, c := range []int{0, 1, 2} {
			if p == 1 && c == 0 {
				out = append(out, clusterScenario{"station without stops", 1, 0, []string{"p0>x"}, []string{"p0>x"}, false})
				continue
			}
			if p == 3 && c == 2 {
				continue
			}
			last := fmt.Sprintf("p%d", p-1)
			for _, tr := range []string{"p0>x", "p0>x," + last + ">x", "p0>" + last, "x>p0,x>" + last, last + ">x,x>p0"} {
				out = append(out, clusterScenario{fmt.Sprintf("%d stations, %d stops, transfers %s", p, c, tr), p, c, strings.Split(tr, ","), nil, false})
			}
			for _, pw := range []string{"p0>x,x>" + last, "p0>" + last} {
				out = append(out, clusterScenario{fmt.Sprintf("%d stations, %d stops, pathways %s", p, c, pw), p, c, nil, strings.Split(pw, ","), false})
			}
		}
	}
	out = append(out, clusterScenario{"2 stops without station", 0, 2, []string{"c0>x"}, nil, false},
		clusterScenario{"2 stops without station, identifier taken", 0, 2, []string{"c0>x"}, nil, true})
	return out
}

// runCluster interprets the write-back of one cluster and hands every final state with the surviving station to done.
func runCluster(P *Program, r *Result, name string, sc clusterScenario, done func(h *Heap, s *State, probs []string)) {
	fn := clusterWriter(P)
	if fn == nil {
		r.add("anchor:cluster writer", "", nil, "no function writing a stop cluster back to the feed was found")
		return
	}
	h := newHeap(P)
	h.e.h.MaxKnownRange = 2
	h.constIDs = true
	by := map[string]*Ent{}
	stopT := types.NewPointer(h.gtfsType("Stop"))
	var ps, cs []*V
	for i := 0; i < sc.parents; i++ {
		p := mkStop(h, fmt.Sprintf("p%d", i), 1, nil)
		by[p.name] = p
		ps = append(ps, p.obj)
	}
	for i := 0; i < sc.childs; i++ {
		var par *Ent
		if sc.parents > 0 {
			par = by[fmt.Sprintf("p%d", i%sc.parents)]
		}
		c := mkStop(h, fmt.Sprintf("c%d", i), []int64{0, 2}[i%2], par)
		h.Set(c, "Level", h.e.Nil(nil))
		by[c.name] = c
		cs = append(cs, c.obj)
	}
	x := mkStop(h, "x", 0, nil)
	by["x"] = x
	var taken *Ent
	if sc.taken {
		taken = mkStop(h, "taken", 1, nil)
		h.e.mapDel(h.s, h.FeedMap("Stops"), taken.id)
		taken.id = h.e.Str("par::idc0")
		h.Set(taken, "Id", taken.id)
		h.e.mapSet(h.s, h.FeedMap("Stops"), taken.id, taken.obj)
	}
	for _, en := range by {
		h.Set(en, "Level", h.e.Nil(nil))
		h.Set(en, "Url", h.e.Nil(nil))
		h.Set(en, "Timezone", h.e.TokT("tz", nil))
	}
	canon := func(c string) string {
		if c[0] == 'p' {
			return "S"
		}
		return c
	}
	vals := map[string][]*V{}
	var flds []*V
	for i, tr := range sc.transfers {
		ft := strings.Split(tr, ">")
		key := h.TransferKey(by[ft[0]].obj, by[ft[1]].obj)
		vals[canon(ft[0])+">"+canon(ft[1])] = append(vals[canon(ft[0])+">"+canon(ft[1])], h.Transfer(fmt.Sprintf("t%d", i), key))
		flds = append(flds, key, h.e.TokT(fmt.Sprintf("fld%d", i), strT()))
	}
	h.AddField("TransfersAddFlds", "col", flds...)
	var paths []*Ent
	for i, pw := range sc.pathways {
		ft := strings.Split(pw, ">")
		p := h.Entity("Pathway", fmt.Sprintf("path%d", i), fmt.Sprintf("path%d", i))
		h.Set(p, "From_stop", by[ft[0]].obj)
		h.Set(p, "To_stop", by[ft[1]].obj)
		paths = append(paths, p)
	}
	clT := fn.Params[0].Type()
	args := make([]*V, len(fn.Params))
	for i, p := range fn.Params {
		switch strings.TrimPrefix(p.Type().String(), "*") {
		case P.proc.Pkg.Path() + ".StopCluster":
			clT = p.Type()
			st := clT
			if q, ok := clT.Underlying().(*types.Pointer); ok {
				st = q.Elem()
			}
			v := map[string]*V{"Parents": h.List("clp", stopT, ps...), "Childs": h.List("clc", stopT, cs...)}
			if _, ok := clT.Underlying().(*types.Pointer); ok {
				o := h.e.Obj("cluster", st)
				for f, x := range v {
					h.s.mem[h.e.FieldAddr(o, f)] = x
				}
				args[i] = o
			} else {
				args[i] = h.e.Struct(st, v["Parents"], v["Childs"])
			}
		case P.feed.String():
			args[i] = h.feed
		default:
			if i == 0 && fn.Signature.Recv() != nil {
				args[i] = h.receiver(fn, map[string]*V{})
				continue
			}
			args[i] = h.e.Term("arg:"+p.Name(), p.Type())
		}
	}
	// similarities are never negative
	h.e.h.Decide = func(s *State, atom *V) tri {
		if atom.K == KTerm && atom.Op == "lt" && isNumConst(atom.Args[1]) && !isNumConst(atom.Args[0]) && isFloatT(atom.Args[0].T) {
			if f, _ := constFloat(atom.Args[1]); f <= 0 {
				return no
			}
		}
		return unk
	}
	h.e.h.Inline = func(f *ssa.Function) (bool, bool) {
		// functions computing a similarity of two stops are opaque, non-negative numbers
		sig := f.Signature
		if f.Pkg == P.proc && sig.Results().Len() == 1 && isFloatT(sig.Results().At(0).Type()) {
			return false, true
		}
		return false, false
	}
	h.e.h.Call = h.baseCall
	ends := 0
	h.e.h.Done = func(s *State, _ *V) {
		ends++
		var probs []string
		var left []*V
		for i := 0; i < sc.parents; i++ {
			if p := by[fmt.Sprintf("p%d", i)]; h.inFeed(s, p) {
				left = append(left, p.obj)
			}
		}
		ks, vs, _ := h.entries(s, "Stops")
		if sc.parents == 0 {
			for i, v := range vs {
				if !strings.HasPrefix(v.Op, "ent:") {
					left = append(left, v)
					_ = ks[i]
				}
			}
			if taken != nil && !h.inFeed(s, taken) {
				probs = append(probs, "a stop already in the feed was overwritten by the new station")
			}
		}
		if len(left) != 1 {
			probs = append(probs, fmt.Sprintf("%d stations are left for one cluster", len(left)))
			done(h, s, probs)
			return
		}
		surv := left[0]
		for i := 0; i < sc.childs; i++ {
			c := by[fmt.Sprintf("c%d", i)]
			if !h.inFeed(s, c) {
				probs = append(probs, "a stop of the cluster was lost")
			} else if v := h.Get(s, c, "Parent_station"); v != surv {
				probs = append(probs, fmt.Sprintf("stop %s of the cluster refers to %s instead of the station of the cluster", c.name, nm(v)))
			}
		}
		at := func(c string) *V {
			if c[0] == 'p' || c == "S" {
				return surv
			}
			return by[c].obj
		}
		tks, tvs, _ := h.entries(s, "Transfers")
		for k, cand := range vals {
			ft := strings.Split(k, ">")
			want := h.TransferKey(at(ft[0]), at(ft[1]))
			found := false
			for i := range tks {
				if tks[i] == want {
					found = true
					okv := false
					for _, c := range cand {
						okv = okv || c == tvs[i]
					}
					if !okv {
						probs = append(probs, "a transfer of a merged station lost its data")
					}
				}
			}
			if !found {
				probs = append(probs, fmt.Sprintf("the transfer %s of a merged station was lost", k))
			} else if fv, _ := h.addFieldOf(s, "TransfersAddFlds", "col", want); fv == nil || !strings.HasPrefix(fv.Op, "fld") {
				probs = append(probs, fmt.Sprintf("the transfer %s of a merged station lost its non-standard field", k))
			}
		}
		if len(tks) > len(vals) {
			probs = append(probs, fmt.Sprintf("%d transfers are left where %d are expected", len(tks), len(vals)))
		}
		for i, pw := range sc.pathways {
			ft := strings.Split(pw, ">")
			if !h.inFeed(s, paths[i]) {
				probs = append(probs, "a pathway was lost")
				continue
			}
			for j, f := range []string{"From_stop", "To_stop"} {
				if v := h.Get(s, paths[i], f); v != at(ft[j]) {
					probs = append(probs, fmt.Sprintf("pathway %s refers to %s instead of %s", f, nm(v), nm(at(ft[j]))))
				}
			}
		}
		probs = append(probs, h.dangling(s)...)
		probs = append(probs, h.keyMismatch(s)...)
		done(h, s, probs)
	}
	h.e.h.Panicked = func(s *State) {
		ends++
		if m := h.P.nils; m != nil {
			at := h.e.crashSite(s)
			r.add("nil:cluster:"+at, at, h.e.trailText(s, 16), "StopReclusterer crashes at %s on a feed with %s (%s)", at, m.name, name)
			return
		}
		r.add(name+":crash", "", h.e.trailText(s, 12), "%s: writing the cluster back crashes", name)
	}
	if m := h.P.nils; m != nil {
		r.Instances["emptied"] += h.dropRefs(m)
	}
	h.e.Run(h.s, fn, args, nil)
	r.absorb(h.e)
	if h.e.undecided != "" {
		r.add(name+":undecided", "", nil, "%s: undecided: %s", name, h.e.undecided)
	} else if ends == 0 {
		r.add(name+":noend", "", nil, "%s: analysis reached no end", name)
	}
	r.Detail = append(r.Detail, fmt.Sprintf("%s: %d ends, %d steps", name, ends, h.e.steps))
}

func clusterJobs(P *Program, prop string, keep func(sc clusterScenario, prob string) bool) []Job {
	var jobs []Job
	for _, sc := range clusterScenarios() {
		sc := sc
		name := prop + ":cluster:" + sc.name
		jobs = append(jobs, Job{name, func(r *Result) {
			bad := 0
			runCluster(P, r, name, sc, func(h *Heap, s *State, probs []string) {
				for _, p := range probs {
					if keep != nil && !keep(sc, p) {
						continue
					}
					bad++
					r.add(name, "", h.e.trailText(s, 12), "StopReclusterer, %s: %s", sc.name, p)
					h.e.stop = true
				}
			})
			r.Obligations++
			if bad == 0 {
				r.Discharged++
			}
		}})
	}
	return jobs
}
