package main

import (
	"fmt"
	"sort"
	"strings"
)

var polyFile, polyFile2 = "47,7,48,7,48,9", "1,2, 3,4\n,5,2"

// GeoJSON files: their content is a name, the features are given
var geoFile, geoFile2 = "features 1", "features 2"

var geoFiles = map[string][]geoFeat{
	geoFile: {{"Point", nil},
		{"Polygon", [][][]pt{{{{7, 47}, {8, 47}, {8, 48}, {7, 47}}}}},
		{"MultiPolygon", [][][]pt{{{{1, 2}, {3, 2}, {3, 4}, {1, 2}}, {{1.5, 2.5}, {2, 2.5}, {2, 3}, {1.5, 2.5}}, {{2, 3.5}, {2.5, 3.5}, {2, 3.75}, {2, 3.5}}}, {{{5, 6}, {9, 6}, {9, 8}, {6, 9}, {5, 6}}}}},
		{"Polygon", [][][]pt{{{{7, 57}, {8, 57}, {8, 58}, {7, 57}}, {{7.5, 57.5}, {7.75, 57.5}, {7.75, 57.75}, {7.5, 57.5}}}}}},
	geoFile2: {{"", nil}, {"MultiPolygon", [][][]pt{{{{17, 47}, {18, 47}, {18, 48}, {17, 47}}}}}, {"LineString", nil}},
}

func (m *mainScen) withFiles() *mainScen {
	m.files = map[string]*string{"poly.txt": &polyFile, "poly2.txt": &polyFile2, "poly.json": &geoFile, "area.geojson": &geoFile2}
	m.geo = geoFiles
	return m
}

// baseUsage interprets main without options once, for the help texts and the set of options.
func baseUsage(P *Program, r *Result) map[string]optInfo {
	rr := newResult(r.Prop)
	h := runMain(P, rr, "base", scen(1).withFiles())
	r.merge(rr)
	return h.opts
}

// scenSets lists the option combinations explored: none, each one, each pair, all, and all but one.
func scenSets(tier string) (sets [][]optDoc) {
	sets = append(sets, nil)
	n := len(allOpts)
	for i := 0; i < n; i++ {
		sets = append(sets, []optDoc{allOpts[i]})
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			sets = append(sets, []optDoc{allOpts[i], allOpts[j]})
		}
	}
	var noPreset []optDoc
	for _, o := range allOpts {
		if !isPreset(o.name) {
			noPreset = append(noPreset, o)
		}
	}
	// values of the valued options
	for _, x := range []optDoc{{"polygon", "", []string{"47,7,48,8,49,7"}}, {"polygon", "", []string{"47,7,48,8,47,9"}}, {"polygon", "", []string{"47,7,48,8,47,9,47,7"}},
		{"polygon", "", []string{" 47, 7,48,8 ,47 ,9", "1,2,3,4,5,7"}}, {"bounding-box", "", []string{"47.5,7.5,48.5,8.5", " 1,2,3,4"}}, {"bounding-box", "", []string{"48.5,8.5,47.5,7.5"}},
		{"polygon-file", "", []string{"poly.txt", "poly2.txt"}}, {"polygon-file", "", []string{"poly.json"}}, {"polygon-file", "", []string{"area.geojson", "poly2.txt", "poly.json"}}, {"date-start", "", "19000101"}, {"date-end", "", "21551231"}, {"date-start", "", "20201130"},
		{"output", "", "dir/out"}, {"zip-compression-level", "", 0}, {"zip-compression-level", "", 9}, {"zip-compression-level", "", 1}, {"keep-mots", "", "1"}, {"drop-mots", "", "0,1,,1700 "},
		{"min-headway", "", 0}, {"max-headway", "", 1}, {"prefix", "", "a#b"}, {"empty-str-repl", "p", "-"}} {
		sets = append(sets, []optDoc{x}, []optDoc{x, {"complete-filtered-trips", "", true}}, []optDoc{x, {"minimize-stoptimes", "T", true}}, []optDoc{x, {"minimize-ids-num", "i", true}},
			[]optDoc{x, {"bounding-box", "", []string{"1,2,3,4"}}})
	}
	// kinds that are kept and dropped at once
	for _, k := range []string{"3,1", "0,1,3", "700"} {
		for _, d := range []string{"1", "3 ,0", "0,700,1"} {
			sets = append(sets, []optDoc{{"keep-mots", "", k}, {"drop-mots", "", d}})
		}
	}
	sets = append(sets, noPreset)
	for i := range noPreset {
		var s []optDoc
		for j, o := range noPreset {
			if j != i {
				s = append(s, o)
			}
		}
		sets = append(sets, s)
	}
	if tier == "thorough" {
		var pass []optDoc
		for _, o := range allOpts {
			if passOption(o.name) {
				pass = append(pass, o)
			}
		}
		for i := range pass {
			for j := i + 1; j < len(pass); j++ {
				for k := j + 1; k < len(pass); k++ {
					sets = append(sets, []optDoc{pass[i], pass[j], pass[k]})
				}
			}
		}
	}
	return
}

func passOption(n string) bool {
	o := optSet{n: true}
	for _, d := range passDocs {
		if d.must(o) || d.may(o) {
			return true
		}
	}
	return isPreset(n) || strings.HasSuffix(n, "-fuzzy") || strings.HasSuffix(n, "-aggressive")
}

func isPreset(n string) bool {
	for _, p := range presets {
		if p == n {
			return true
		}
	}
	return false
}

func setScen(set []optDoc, paths int) *mainScen {
	m := scen(paths).withFiles()
	for _, o := range set {
		m.set(o.name, o.val)
	}
	return m
}

// sweep runs main for many option sets in parallel chunks.
func sweep(r *Result, name string, sets [][]optDoc, f func(r *Result, set []optDoc)) {
	var jobs []Job
	const chunk = 40
	for i := 0; i < len(sets); i += chunk {
		j := i + chunk
		if j > len(sets) {
			j = len(sets)
		}
		part := sets[i:j]
		jobs = append(jobs, Job{fmt.Sprintf("%s %d-%d", name, i, j-1), func(r *Result) {
			for _, s := range part {
				f(r, s)
			}
		}})
	}
	runJobs(r, jobs)
}

func usageOf(opts map[string]optInfo) func(string) string {
	return func(n string) string { return opts[n].usage }
}

func init() {
	register("C12", 4000, "For every documented option, every pair of options, all options and all but one, the main function is interpreted over its current source with the option values fixed; the passes it runs, their parameters, the parse options and the writer's settings at every end of main are compared with what the help texts and the README document.", runC12)
	register("C13", 300, "For every preset, alone and with every other option, main is interpreted with the preset set; every option named in the preset's help text (read from the analysed source) must have its documented effect.", runC13)
	register("C14", 2000, "For every option, pair of options, all options and all but one, main is interpreted and the sequence of passes it runs is checked against the ordering constraints between passes.", runC14)
}

func runC12(P *Program, r *Result, tier string) {
	opts := baseUsage(P, r)
	// every documented option exists under its documented short form
	for _, d := range allOpts {
		r.Obligations++
		oi, ok := opts[d.name]
		switch {
		case !ok:
			r.add("option:"+d.name, "", nil, "the documented option --%s is not defined", d.name)
		case d.short != "" && oi.short != d.short:
			r.add("option:"+d.name, "", nil, "the option --%s is documented as -%s but defined as -%s", d.name, d.short, oi.short)
		default:
			r.Discharged++
		}
	}
	sets := scenSets(tier)
	r.Instances["option sets"] = len(sets)
	sweep(r, "options", sets, func(r *Result, set []optDoc) {
		m := setScen(set, 1)
		h := runMain(P, r, "C12", m)
		o := effective(m.flags, usageOf(opts))
		for _, end := range h.ends {
			bad := 0
			// findings are keyed by what differs and the shortest option set showing it
			rep := func(what, msg string) {
				bad++
				r.add("C12:"+what, "", nil, "main with %s: %s", m, msg)
			}
			n := 0
			if !end.known || end.code != 0 {
				rep("exit", fmt.Sprintf("a run without any failure ends with exit status %d", end.code))
			} else {
				n = docDiff(h, end, o, false, rep)
			}
			r.Obligations += n
			r.Discharged += n - bad
		}
		if len(set) == 1 {
			var ts []string
			for _, end := range h.ends {
				for _, e := range end.runs() {
					ts = append(ts, e.typ)
				}
			}
			r.Detail = append(r.Detail, fmt.Sprintf("main %s: passes [%s]", m, strings.Join(ts, " ")))
		}
	})
}

func runC13(P *Program, r *Result, tier string) {
	opts := baseUsage(P, r)
	var sets [][]optDoc
	for _, p := range presets {
		r.Obligations++
		if _, ok := opts[p]; !ok {
			r.add("preset:"+p, "", nil, "the preset --%s is not defined", p)
			continue
		}
		r.Discharged++
		sets = append(sets, []optDoc{{p, "", true}})
		for _, o := range allOpts {
			if o.name != p {
				sets = append(sets, []optDoc{{p, "", true}, o})
			}
		}
		ex := expand(p, opts[p].usage)
		var ks []string
		for k := range ex {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Detail = append(r.Detail, fmt.Sprintf("--%s documents %s", p, strings.Join(ks, " ")))
		if len(ks) == 0 {
			r.add("preset:"+p+":text", "", nil, "the help text of --%s names no option", p)
		}
	}
	// keep-ids only has an effect together with ID minimisation
	for _, a := range []string{"minimize-ids-num", "minimize-ids-char"} {
		for _, o := range allOpts {
			sets = append(sets, []optDoc{{"keep-ids", "", true}, {a, "", true}, o})
		}
	}
	for _, p := range presets {
		for _, q := range presets {
			for _, o := range []string{"minimize-ids-num", "min-headway", "prefix", "zip-compression-level", "snap-stops", "minimize-stoptimes"} {
				for _, d := range allOpts {
					if d.name == o && p < q {
						sets = append(sets, []optDoc{{p, "", true}, {q, "", true}, d})
					}
				}
			}
		}
	}
	r.Instances["option sets"] = len(sets)
	sweep(r, "presets", sets, func(r *Result, set []optDoc) {
		m := setScen(set, 1)
		h := runMain(P, r, "C13", m)
		o := effective(m.flags, usageOf(opts))
		for _, end := range h.ends {
			bad := 0
			rep := func(what, msg string) {
				bad++
				r.add("C13:"+what, "", nil, "main with %s: %s", m, msg)
			}
			n := docDiff(h, end, o, true, rep)
			r.Obligations += n
			r.Discharged += n - bad
		}
	})
}

// passOrder is the documented and required order of passes.
type passOrder struct {
	a, b string
	kind string // "before": no b before the first a;  "after": some b follows the last a;  "last": all a precede every b
	why  string
}

var passOrders = []passOrder{
	{"OrphanRemover", "ShapeRemeasurer", "before", "documented order"},
	{"OrphanRemover", "RouteDuplicateRemover", "before", "documented order"},
	{"ShapeRemeasurer", "ShapeMinimizer", "before", "documented order: shapes are measured before they are simplified"},
	{"ShapeMinimizer", "ShapeDuplicateRemover", "last", "documented order: shapes are simplified before duplicates are looked for"},
	{"ShapeRemeasurer", "ShapeDuplicateRemover", "before", "duplicate removal implicitly remeasures first"},
	{"ShapeDuplicateRemover", "RouteDuplicateRemover", "last", "documented order"},
	{"RouteDuplicateRemover", "ServiceDuplicateRemover", "before", "documented order"},
	{"ServiceDuplicateRemover", "ServiceMinimizer", "before", "documented order"},
	{"ServiceMinimizer", "FrequencyMinimizer", "last", "documented order"},
	{"TooFastTripRemover", "OrphanRemover", "after", "orphans of deleted trips are removed"},
	{"CompleteTripsGeoFilter", "OrphanRemover", "after", "orphans of filtered trips are removed"},
	{"TripDuplicateRemover", "OrphanRemover", "after", "orphans of merged trips are removed"},
	{"ShapeSnapper", "OrphanRemover", "after", "orphans of replaced stops are removed"},
	{"TripDuplicateRemover", "ServiceDuplicateRemover", "after", "services combined for merged trips may be equal"},
	{"ShapeSnapper", "StopDuplicateRemover", "after", "stops created by snapping may be equal"},
	{"PlatformCodeDropper", "StopDuplicateRemover", "after", "stops without platform codes may be equal"},
	{"StopParentAverager", "StopDuplicateRemover", "after", "stops are compared at their final position"},
	{"AgencyDuplicateRemover", "RouteDuplicateRemover", "last", "routes are compared by agency"},
	{"StopReclusterer", "TripDuplicateRemover", "last", "trips are compared by stop"},
	{"StopDuplicateRemover", "TripDuplicateRemover", "last", "trips are compared by stop"},
	{"RouteDuplicateRemover", "TripDuplicateRemover", "last", "trips are compared by route"},
	{"ShapeDuplicateRemover", "TripDuplicateRemover", "last", "trips are compared after their shapes are final"},
	{"ServiceDuplicateRemover", "TripDuplicateRemover", "before", "trips are compared by service"},
	{"ServiceMinimizer", "TripDuplicateRemover", "before", "explicit dates are converted before trips are combined"},
	{"AdjacentStopTimeGrouper", "TripDuplicateRemover", "last", "trips are compared by their final stop times"},
	{"AdjacentStopTimeGrouper", "FrequencyMinimizer", "last", "trips are compared by their final stop times"},
	{"ShapeRemeasurer", "StopTimeRemeasurer", "last", "stop times are measured along measured shapes"},
	{"StopTimeRemeasurer", "ShapeSnapper", "before", "documented order: stop times are measured, then stops snapped"},
	{"ShapeMinimizer", "StopTimeRemeasurer", "last", "stop times are measured along the final shapes"},
	{"ShapeMinimizer", "ShapeSnapper", "last", "stops are snapped to the final shapes"},
	{"ShapeSnapper", "ShapeDuplicateRemover", "last", "stops are snapped before duplicate shapes are removed"},
	{"TripDuplicateRemover", "FrequencyMinimizer", "last", "frequencies are looked for among distinct trips"},
	{"TripDuplicateRemover", "ServiceMinimizer", "after", "services combined for merged trips are minimised"},
	{"TripDuplicateRemover", "ServiceNonOverlapper", "last", "merging trips changes services"},
	{"ServiceNonOverlapper", "FrequencyMinimizer", "last", "splitting services creates trips"},
	{"ServiceMinimizer", "ServiceCalDatesRem", "last", "minimisation may create calendar dates again"},
	{"TripDuplicateRemover", "ServiceCalDatesRem", "last", "merging trips may create calendar dates"},
	{"ServiceNonOverlapper", "ServiceCalDatesRem", "last", "splitting services may create calendar dates"},
	{"StopDuplicateRemover", "StopParentEnforcer", "last", "merging stops may remove created parents"},
	{"StopReclusterer", "StopParentEnforcer", "last", "reclustering removes stations"},
	{"OrphanRemover", "StopParentEnforcer", "last", "orphan removal may remove parents"},
}

func orderDiff(ts []string, o optSet, report func(key, msg string)) (obl int) {
	first, last := map[string]int{}, map[string]int{}
	for i, t := range ts {
		if _, ok := first[t]; !ok {
			first[t] = i
		}
		last[t] = i
	}
	for _, c := range passOrders {
		_, oa := first[c.a]
		_, ob := first[c.b]
		if !oa || !ob {
			continue
		}
		if c.kind == "after" && c.b == "StopDuplicateRemover" && c.a != "PlatformCodeDropper" && !o.b("remove-red-stops") {
			continue // not asked for; runs as a part of another pass
		}
		obl++
		ok := true
		switch c.kind {
		case "before":
			ok = first[c.a] < first[c.b]
		case "after":
			ok = last[c.b] > last[c.a]
		case "last":
			ok = last[c.a] < first[c.b]
		}
		if !ok {
			w := map[string]string{"before": "must first run before", "after": "must be followed by", "last": "must be finished before the first"}[c.kind]
			report(c.a+":"+c.kind+":"+c.b, fmt.Sprintf("%s %s %s (%s)", c.a, w, c.b, c.why))
		}
	}
	if i, ok := first["IDMinimizer"]; ok {
		obl++
		if i != len(ts)-1 {
			report("IDMinimizer:last", "passes run after IDs were minimised: "+strings.Join(ts[i+1:], " "))
		}
	}
	return
}

func runC14(P *Program, r *Result, tier string) {
	opts := baseUsage(P, r)
	sets := scenSets(tier)
	// all options that enable passes, with every preset
	for _, p := range presets {
		var s []optDoc
		for _, o := range allOpts {
			if passOption(o.name) && !isPreset(o.name) || o.name == p {
				s = append(s, o)
			}
		}
		sets = append(sets, s)
	}
	// a deleting pass with its consumers and -O
	triple := func(names ...string) {
		var s []optDoc
		for _, n := range names {
			for _, o := range allOpts {
				if o.name == n {
					s = append(s, o)
				}
			}
		}
		sets = append(sets, s)
	}
	for _, o := range allOpts {
		if passOption(o.name) {
			triple("remove-red-trips", "remove-red-services", o.name)
			triple("remove-red-trips", "minimize-services", o.name)
			triple("snap-stops", "remove-red-stops", o.name)
			triple("snap-stops", "delete-orphans", o.name)
			triple("remove-red-trips", "delete-orphans", o.name)
		}
	}
	r.Instances["option sets"] = len(sets)
	sweep(r, "order", sets, func(r *Result, set []optDoc) {
		m := setScen(set, 1)
		h := runMain(P, r, "C14", m)
		o := effective(m.flags, usageOf(opts))
		for _, end := range h.ends {
			var ts []string
			wr := -1
			for i, e := range end.events {
				switch e.kind {
				case "run":
					ts = append(ts, e.typ)
					if wr >= 0 {
						r.add("C14:afterwrite", "", nil, "main with %s: pass %s runs after the feed was written", m, e.typ)
					}
				case "write":
					wr = i
				case "parse":
					if len(ts) > 0 {
						r.add("C14:beforeparse", "", nil, "main with %s: a feed is parsed after passes ran", m)
					}
				}
			}
			bad := 0
			n := orderDiff(ts, o, func(key, msg string) {
				bad++
				r.add("C14:"+key, "", nil, "main with %s: %s; the passes run are %s", m, msg, strings.Join(ts, " "))
			})
			r.Obligations += n + 1
			r.Discharged += n + 1 - bad
			if len(ts) > 3 && len(r.Detail) < 40 {
				r.Detail = append(r.Detail, fmt.Sprintf("main %s: %s", trim(m.String(), 120), strings.Join(ts, " ")))
			}
		}
	})
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
