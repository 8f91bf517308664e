package main

import "strings"

// C23: no pass leaves a reference to an entity that is not in the feed.

func checkC23(P *Program, r *Result, tier string) {
	jobs := passJobs(P, "C23", tier, true, func(h *Heap, s *State, w *watch) []string {
		return append(h.undetermined(s), h.dangling(s)...)
	})
	ref := func(p string) bool { return strings.Contains(p, "not in the feed") }
	jobs = append(jobs, clusterJobs(P, "C23", func(_ clusterScenario, p string) bool { return ref(p) })...)
	all := map[string]bool{}
	for kind := range feedMaps {
		all[kind] = true
	}
	runJobs(r, append(jobs, c03Jobs(P, r, "C23", all, ref)...))
}

func init() {
	register("C23", 60, "Path-sensitive abstract interpretation of every pass that adds, replaces or deletes entities, on abstract feeds with every kind of reference; at every reachable end every stop, station, route, trip, shape, service, agency and level referred to by an entity of the feed is in the feed.", checkC23)
}
