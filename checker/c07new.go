package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: identifiers of entities that passes other than the ID minimiser create.

// newIDJobs runs every pass that creates entities twice more, with entities that already have the IDs it would give.
func newIDJobs(P *Program, prop, tier string) (jobs []Job) {
	for _, sc := range allScens(tier) {
		sc := sc
		if sc.typ == "OrphanRemover" {
			continue
		}
		key := prop + ":" + sc.typ + ":" + sc.name
		jobs = append(jobs, Job{key, func(r *Result) {
			taken := map[string]map[string]bool{}
			for round := 0; round < 3; round++ {
				made := map[string]map[string]bool{}
				now, base := sc, sc.setup
				if round > 0 {
					now.name += fmt.Sprintf(" with %d IDs taken", count(taken))
				}
				now.setup = func(h *Heap, w *watch) {
					base(h, w)
					w.keepCal, w.groups = nil, nil
					for _, kind := range sortedKeys(taken) {
						for _, id := range sortedKeys(taken[kind]) {
							if _, in := h.byID(h.s, kind, id); !in {
								h.takenID(w, kind, id)
							}
						}
					}
					w.before = map[string]*V{}
					for _, kind := range sortedKeys(feedMaps) {
						ks, vs, _ := h.entries(h.s, feedMaps[kind])
						for i := range ks {
							w.before[kind+":"+fmt.Sprint(vs[i])] = ks[i]
						}
					}
					h.e.h.OnMapUpdate = func(s *State, m, k, v *V, ins ssa.Instruction) {
						for kind, f := range feedMaps {
							if m != s.mem[h.e.FieldAddr(h.feed, f)] {
								continue
							}
							if old := s.mem[h.e.EntryAddr(m, k)]; isEntObj(old) && old != v {
								s.marks["taken:"+fmt.Sprintf("%s is stored under the ID %s of %s", nm(v), nm(k), nm(old))] = h.e.Bool(true)
							}
							_ = kind
						}
					}
				}
				runPass(P, r, key, now, func(h *Heap, s *State, w *watch) (out []string) {
					out = append(h.undetermined(s), h.keyMismatch(s)...)
					for _, m := range sortedKeys(s.marks) {
						if x, ok := strings.CutPrefix(m, "taken:"); ok {
							out = append(out, x)
						}
					}
					for _, kind := range sortedKeys(feedMaps) {
						ks, vs, ok := h.entries(s, feedMaps[kind])
						for i := range ks {
							if !ok || w.before[kind+":"+fmt.Sprint(vs[i])] != nil {
								continue
							}
							id, ok := constStr(ks[i])
							if !ok {
								out = append(out, fmt.Sprintf("the ID of a new %s is undetermined (%s)", strings.ToLower(kind), nm(ks[i])))
								continue
							}
							if id == "" {
								out = append(out, fmt.Sprintf("a new %s has an empty ID", strings.ToLower(kind)))
							}
							if made[kind] == nil {
								made[kind] = map[string]bool{}
							}
							made[kind][id] = true
						}
					}
					return
				})
				if len(r.Findings) > 0 || count(made) == 0 {
					return
				}
				for kind := range made {
					if taken[kind] == nil {
						taken[kind] = map[string]bool{}
					}
					for i, id := range sortedKeys(made[kind]) {
						if i < 2 {
							taken[kind][id] = true
						}
					}
				}
			}
		}})
	}
	return
}

func count(m map[string]map[string]bool) (n int) {
	for _, x := range m {
		n += len(x)
	}
	return
}

// byID finds an entity of the feed by its ID.
func (h *Heap) byID(s *State, kind, id string) (*V, bool) {
	ks, vs, _ := h.entries(s, feedMaps[kind])
	for i := range ks {
		if ks[i] == h.e.Str(id) {
			return vs[i], true
		}
	}
	return nil, false
}

// takenID adds an entity with a given ID that has nothing to do with the others.
func (h *Heap) takenID(w *watch, kind, id string) {
	switch kind {
	case "Trip":
		t := h.plainID(kind, id)
		sv, ok := h.byID(h.s, "Service", "other")
		if !ok {
			sv = h.service("other", cal{noRange: true, exc: map[int64]bool{3: true}}).obj
		}
		r, ok := h.byID(h.s, "Route", "other")
		if !ok {
			r = h.plainID("Route", "other").obj
		}
		h.Set(t, "Route", r)
		h.Set(t, "Service", sv)
		h.Set(t, "Headsign", w.base.headsign)
	case "Service":
		h.service(id, cal{noRange: true, exc: map[int64]bool{3: true}})
	default:
		h.plainID(kind, id)
	}
}
