package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---- the documentation of the options, as effects ----

type optSet map[string]any

func (o optSet) b(n string) bool {
	v, ok := o[n]
	if !ok {
		return false
	}
	x, ok := v.(bool)
	return ok && x
}

func (o optSet) str(n string) string { s, _ := o[n].(string); return s }

func (o optSet) num(n string, def int) int {
	if v, ok := o[n].(int); ok {
		return v
	}
	return def
}

// passDoc is what the documentation says about one pass.
type passDoc struct {
	typ  string
	must func(o optSet) bool // a documented option asks for the pass
	may  func(o optSet) bool // further options whose work includes the pass
	par  func(o optSet) map[string]any
}

func opt(names ...string) func(o optSet) bool {
	return func(o optSet) bool {
		for _, n := range names {
			if o.b(n) {
				return true
			}
		}
		return false
	}
}

func never(optSet) bool { return false }

var keepParams = map[string]string{"KeepStations": "keep-station-ids", "KeepBlocks": "keep-block-ids", "KeepFares": "keep-fare-ids", "KeepShapes": "keep-shape-ids",
	"KeepRoutes": "keep-route-ids", "KeepTrips": "keep-trip-ids", "KeepLevels": "keep-level-ids", "KeepServices": "keep-service-ids", "KeepAgencies": "keep-agency-ids",
	"KeepPathways": "keep-pathway-ids", "KeepAttributions": "keep-attribution-ids"}

var passDocs = []passDoc{
	{"TooFastTripRemover", opt("drop-too-fast-trips"), never, nil},
	{"CompleteTripsGeoFilter", opt("complete-filtered-trips"), never, nil},
	{"OrphanRemover", opt("delete-orphans"), never, nil},
	{"AgencyDuplicateRemover", opt("remove-red-agencies"), never, nil},
	{"StopParentAverager", opt("fix-far-away-parents"), never, nil},
	{"StopDuplicateRemover", opt("remove-red-stops"), opt("drop-platform-for-parentless"), func(o optSet) map[string]any {
		return map[string]any{"Fuzzy": o.b("red-stops-fuzzy")}
	}},
	{"StopReclusterer", opt("recluster-stops"), never, nil},
	{"PlatformCodeDropper", opt("drop-platform-for-parentless"), never, nil},
	{"ShapeRemeasurer", opt("remeasure-shapes", "min-shapes", "remove-red-shapes"), opt("remeasure-stop-times"), nil},
	{"ShapeMinimizer", opt("min-shapes"), never, func(o optSet) map[string]any { return map[string]any{"Epsilon": 1.0} }},
	{"StopTimeRemeasurer", opt("remeasure-stop-times"), never, nil},
	{"ShapeSnapper", opt("snap-stops"), never, func(o optSet) map[string]any { return map[string]any{"MaxDist": 100.0} }},
	{"ShapeDuplicateRemover", opt("remove-red-shapes"), never, nil},
	{"RouteDuplicateRemover", opt("remove-red-routes"), never, nil},
	{"ServiceDuplicateRemover", opt("remove-red-services"), never, nil},
	{"AdjacentStopTimeGrouper", opt("group-adj-stop-times"), never, nil},
	{"ServiceMinimizer", opt("minimize-services"), never, nil},
	{"TripDuplicateRemover", opt("remove-red-trips"), never, func(o optSet) map[string]any {
		return map[string]any{"Fuzzy": o.b("red-trips-fuzzy"), "Aggressive": o.b("red-trips-aggressive")}
	}},
	{"ServiceNonOverlapper", opt("non-overlapping-services"), never, nil},
	{"FrequencyMinimizer", opt("minimize-stoptimes"), never, func(o optSet) map[string]any {
		return map[string]any{"MinHeadway": o.num("min-headway", 1), "MaxHeadway": o.num("max-headway", 86400)}
	}},
	{"ServiceCalDatesRem", opt("remove-cal-dates"), never, nil},
	{"StopParentEnforcer", opt("ensure-stop-parents"), never, nil},
	{"IDMinimizer", opt("minimize-ids-num", "minimize-ids-char"), never, func(o optSet) map[string]any {
		m := map[string]any{"Prefix": o.str("prefix")}
		num, char := o.b("minimize-ids-num"), o.b("minimize-ids-char")
		if num && char { // one of them documented by a preset: the one given explicitly stays in effect
			num, char = o.b("!minimize-ids-num"), o.b("!minimize-ids-char")
		}
		if num && !char {
			m["Base"] = 10
		}
		if char && !num {
			m["Base"] = 36
		}
		for p, k := range keepParams {
			m[p] = o.b(k)
		}
		return m
	}},
}

// parse and write behaviour: option -> field of gtfsparser.ParseOptions / gtfswriter.Writer
var parseDocs = map[string]string{"drop-errs": "DropErroneous", "default-on-errs": "UseDefValueOnError", "check-null-coords": "CheckNullCoordinates", "fix-zip": "ZipFix",
	"show-warnings": "ShowWarnings", "drop-shapes": "DropShapes", "keep-additional-fields": "KeepAddFlds", "assume-clean-csv": "AssumeCleanCsv",
	"remove-fillers": "RemoveFillers", "standard-route-types": "UseStandardRouteTypes", "google-supported-route-types": "UseGoogleSupportedRouteTypes",
	"drop-single-stop-trips": "DropSingleStopTrips"}

type optDoc struct {
	name, short string
	val         any
}

// every documented option, its documented short form and a sample value
var allOpts = []optDoc{
	{"output", "o", "result.zip"}, {"date-start", "", "20200131"}, {"date-end", "", "20211205"},
	{"fix", "", true}, {"compress", "", true}, {"Compress", "", true}, {"merge", "", true}, {"Merge", "", true},
	{"assume-clean-csv", "", true}, {"default-on-errs", "e", true}, {"fix-zip", "z", true}, {"empty-str-repl", "p", "none"}, {"drop-errs", "D", true},
	{"check-null-coords", "n", true}, {"drop-platform-for-parentless", "", true}, {"non-overlapping-services", "", true}, {"group-adj-stop-times", "", true},
	{"remove-fillers", "", true}, {"prefix", "", "PRE"}, {"keep-ids", "", true}, {"keep-station-ids", "", true}, {"keep-block-ids", "", true},
	{"keep-fare-ids", "", true}, {"keep-shape-ids", "", true}, {"keep-route-ids", "", true}, {"keep-trip-ids", "", true}, {"keep-level-ids", "", true},
	{"keep-pathway-ids", "", true}, {"keep-attribution-ids", "", true}, {"keep-service-ids", "", true}, {"keep-agency-ids", "", true}, {"delete-orphans", "O", true},
	{"min-shapes", "s", true}, {"remeasure-shapes", "m", true}, {"remeasure-stop-times", "r", true}, {"drop-single-stop-trips", "", true}, {"snap-stops", "", true},
	{"remove-red-shapes", "S", true}, {"remove-red-routes", "R", true}, {"remove-red-services", "C", true}, {"minimize-ids-num", "i", true},
	{"minimize-ids-char", "d", true}, {"minimize-services", "c", true}, {"minimize-stoptimes", "T", true}, {"remove-cal-dates", "", true},
	{"explicit-calendar", "", true}, {"ensure-stop-parents", "", true}, {"keep-col-order", "", true}, {"keep-additional-fields", "F", true},
	{"drop-too-fast-trips", "", true}, {"remove-red-stops", "P", true}, {"remove-red-trips", "I", true}, {"red-trips-fuzzy", "", true},
	{"red-trips-aggressive", "", true}, {"red-stops-fuzzy", "", true}, {"remove-red-agencies", "A", true}, {"recluster-stops", "E", true},
	{"fix-far-away-parents", "", true}, {"drop-shapes", "", true}, {"complete-filtered-trips", "", true}, {"bounding-box", "", []string{"47.5,7.5,48.5,8.5"}},
	{"polygon", "", []string{"47,7,48,7,48,9"}}, {"polygon-file", "", []string{"poly.txt"}}, {"show-warnings", "W", true}, {"min-headway", "", 60},
	{"max-headway", "", 7200}, {"zip-compression-level", "", 4}, {"unsorted-files", "", true}, {"standard-route-types", "", true},
	{"google-supported-route-types", "", true}, {"keep-mots", "M", "3,700"}, {"drop-mots", "N", "0, 1"},
}

var presets = []string{"fix", "compress", "Compress", "merge", "Merge", "keep-ids"}

// expansions documented in the help texts (the texts of the analysed program are preferred, see expand)
var presetText = map[string]string{"fix": "-eDnz -p '-'", "compress": "-OSRCcIAP", "Compress": "-OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy",
	"merge": "-ARPICO", "Merge": "-EARPICO --red-trips-fuzzy --red-stops-fuzzy"}

var keepWords = map[string]string{"station": "keep-station-ids", "fare": "keep-fare-ids", "shape": "keep-shape-ids", "route": "keep-route-ids", "trip": "keep-trip-ids",
	"level": "keep-level-ids", "agency": "keep-agency-ids", "pathway": "keep-pathway-ids", "service": "keep-service-ids", "block": "keep-block-ids", "attribution": "keep-attribution-ids"}

var shorthandRe = regexp.MustCompile(`shorthand for ((?:-\S+|'[^']*')(?: (?:-\S+|'[^']*'))*)`)

// expand gives the options a preset documents.
func expand(name, usage string) map[string]any {
	out := map[string]any{}
	if name == "keep-ids" {
		for w, o := range keepWords {
			if strings.Contains(usage, w) {
				out[o] = true
			}
		}
		return out
	}
	txt := presetText[name]
	if m := shorthandRe.FindStringSubmatch(usage); m != nil {
		txt = m[1]
	}
	short := map[string]optDoc{}
	for _, d := range allOpts {
		if d.short != "" {
			short[d.short] = d
		}
	}
	f := strings.Fields(txt)
	for i := 0; i < len(f); i++ {
		w := strings.Trim(f[i], ",")
		switch {
		case strings.HasPrefix(w, "--"):
			out[w[2:]] = true
		case strings.HasPrefix(w, "-") && len(w) > 1:
			for j, c := range w[1:] {
				d, ok := short[string(c)]
				if !ok {
					continue
				}
				if _, isb := d.val.(bool); isb {
					out[d.name] = true
				} else if j == len(w)-2 && i+1 < len(f) {
					out[d.name] = strings.Trim(f[i+1], "'")
					i++
				}
			}
		}
	}
	return out
}

// effective gives the options in effect: the given ones and the ones documented by given presets.
func effective(given map[string]any, usage func(string) string) optSet {
	o := optSet{}
	for _, p := range presets {
		if b, ok := given[p].(bool); ok && b {
			for k, v := range expand(p, usage(p)) {
				o[k] = v
			}
		}
	}
	for k, v := range given {
		if _, isb := v.(bool); !isb {
			if _, set := o[k]; set { // a preset and an explicit value: both documented
				o["?"+k] = true
			}
		}
		o[k] = v
		o["!"+k] = v
	}
	return o
}

// paramIs compares an abstract value with the wanted constant.
func paramIs(v *V, want any) bool {
	if v == nil {
		return true // no such field: nothing to compare with
	}
	switch w := want.(type) {
	case bool:
		return v.isBool() && v.boolVal() == w
	case int:
		n, ok := v.intVal()
		return ok && n == int64(w)
	case float64:
		f, ok := constFloat(v)
		return ok && f == w
	case string:
		s, ok := constStr(v)
		return ok && s == w
	}
	return false
}

// docDiff compares the events of an end of main with the documentation and reports each difference.
func docDiff(h *mainHeap, end *mainEnd, o optSet, onlyMust bool, report func(what, msg string)) (obl int) {
	count := map[string]int{}
	for _, ev := range end.runs() {
		count[ev.typ]++
	}
	for _, d := range passDocs {
		obl++
		m := d.must(o)
		switch {
		case m && count[d.typ] == 0:
			report("pass:"+d.typ, fmt.Sprintf("pass %s does not run although a given option documents it", d.typ))
		case !m && !d.may(o) && count[d.typ] > 0 && !onlyMust:
			report("pass:"+d.typ, fmt.Sprintf("pass %s runs although no given option documents it", d.typ))
		}
		if d.par == nil {
			continue
		}
		want := d.par(o)
		ks := make([]string, 0)
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, ev := range end.runs() {
			if ev.typ != d.typ {
				continue
			}
			for _, k := range ks {
				if onlyMust {
					if b, isb := want[k].(bool); isb && !b {
						continue // not documented by the preset, but not excluded either
					}
				}
				obl++
				if !paramIs(ev.fields[k], want[k]) {
					report("param:"+d.typ+"."+k, fmt.Sprintf("pass %s runs with %s = %s, documented is %v", d.typ, k, ev.fields[k], want[k]))
				}
			}
		}
	}
	for _, ev := range end.of("parse") {
		for on, f := range parseDocs {
			if onlyMust && !o.b(on) {
				continue
			}
			obl++
			if !paramIs(ev.fields[f], o.b(on)) {
				report("parse:"+f, fmt.Sprintf("the feed is parsed with %s = %s, but --%s is %v", f, ev.fields[f], on, o.b(on)))
			}
		}
		if !(onlyMust && o.str("empty-str-repl") == "") && !o.b("?empty-str-repl") {
			obl++
			if !paramIs(ev.fields["EmptyStringRepl"], o.str("empty-str-repl")) {
				report("parse:EmptyStringRepl", fmt.Sprintf("empty strings are replaced by %s, documented is %q", ev.fields["EmptyStringRepl"], o.str("empty-str-repl")))
			}
		}
		if onlyMust {
			continue
		}
		for _, fo := range [][2]string{{"DateFilterStart", "date-start"}, {"DateFilterEnd", "date-end"}} {
			obl++
			if !h.dateIs(ev.fields[fo[0]], o.str(fo[1])) {
				report("parse:"+fo[0], fmt.Sprintf("the feed is parsed with %s = %s, but --%s is %q", fo[0], ev.fields[fo[0]], fo[1], o.str(fo[1])))
			}
		}
		for _, fo := range [][2]string{{"MOTFilter", "keep-mots"}, {"MOTFilterNeg", "drop-mots"}} {
			obl++
			if got, want := h.motSet(end.s, ev.fields[fo[0]]), motWant(o.str(fo[1])); got != want {
				report("parse:"+fo[0], fmt.Sprintf("the feed is parsed with %s = %s, but --%s asks for %s", fo[0], got, fo[1], want))
			}
		}
		// geometric filters: at parse time, or in the completing pass if asked for
		np := 0
		for _, k := range []string{"bounding-box", "polygon", "polygon-file"} {
			if l, ok := o[k].([]string); ok {
				for _, f := range l {
					if g, ok := h.geoRings(f); ok {
						np += len(g)
					} else {
						np++
					}
				}
			}
		}
		for _, v := range []*V{ev.fields["PolygonFilter"], completePolys(end)} {
			obl++
			if v == nil || h.listLen(end.s, v) != np {
				continue
			}
			if msg := h.geomDiff(end.s, v, o); msg != "" {
				report("geometry", msg)
			}
		}
		wantParse := np
		if o.b("complete-filtered-trips") {
			wantParse = 0
		}
		obl++
		if got := h.listLen(end.s, ev.fields["PolygonFilter"]); got != wantParse {
			report("parse:PolygonFilter", fmt.Sprintf("the feed is parsed with %d geometric filters, %d are asked for", got, wantParse))
		}
		for _, rv := range end.runs() {
			if rv.typ == "CompleteTripsGeoFilter" {
				obl++
				if got := h.listLen(end.s, rv.fields["Polygons"]); got != np {
					report("param:CompleteTripsGeoFilter.Polygons", fmt.Sprintf("the completing filter gets %d geometries, %d are asked for", got, np))
				}
			}
		}
	}
	if onlyMust {
		return
	}
	w := end.of("write")
	obl++
	if len(w) != 1 {
		report("write", fmt.Sprintf("the feed is written %d times", len(w)))
	}
	out := "gtfs-out"
	if s := o.str("output"); s != "" {
		out = s
	}
	for _, ev := range w {
		for k, want := range map[string]any{"ZipCompressionLevel": o.num("zip-compression-level", 9), "Sorted": !o.b("unsorted-files"),
			"ExplicitCalendar": o.b("explicit-calendar"), "KeepColOrder": o.b("keep-col-order")} {
			obl++
			if !paramIs(ev.fields[k], want) {
				report("write:"+k, fmt.Sprintf("the feed is written with %s = %s, documented is %v", k, ev.fields[k], want))
			}
		}
		obl++
		if !paramIs(ev.path, out) {
			report("write:path", fmt.Sprintf("the feed is written to %s instead of %q", ev.path, out))
		}
		for _, rv := range end.runs() {
			obl++
			if rv.feed != ev.feed {
				report("write:feed", fmt.Sprintf("pass %s does not work on the feed that is written", rv.typ))
			}
		}
	}
	return
}

func motWant(s string) string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ",") + "}"
}

func (h *mainHeap) motSet(s *State, m *V) string {
	if m == nil || m.IsNil() {
		return "{}"
	}
	ks, ok := h.e.mapKeys(s, m)
	if !ok {
		return "unknown"
	}
	var r []string
	for _, k := range ks {
		v := s.mem[h.e.EntryAddr(m, k)]
		if v != nil && v.isBool() && !v.boolVal() {
			continue
		}
		r = append(r, k.String())
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ",") + "}"
}

func (h *mainHeap) listLen(s *State, v *V) int {
	if v == nil || v.IsNil() {
		return 0
	}
	el, ok := h.e.elems(s, v)
	if !ok {
		return -1
	}
	return len(el)
}

func (h *mainHeap) dateIs(v *V, want string) bool {
	if v == nil {
		return true
	}
	if want == "" {
		return v.K == KTerm && strings.HasPrefix(v.Op, "zero:")
	}
	if len(want) != 8 {
		return false
	}
	var y, m, d int
	fmt.Sscanf(want, "%4d%2d%2d", &y, &m, &d)
	return v.K == KTerm && strings.HasSuffix(v.Op, ".NewDate:0") && len(v.Args) == 3 && intIs(v.Args[0], d) && intIs(v.Args[1], m) && intIs(v.Args[2], y)
}

func intIs(v *V, n int) bool {
	x, ok := v.intVal()
	return ok && x == int64(n)
}

func completePolys(end *mainEnd) *V {
	for _, rv := range end.runs() {
		if rv.typ == "CompleteTripsGeoFilter" {
			return rv.fields["Polygons"]
		}
	}
	return nil
}

type pt [2]float64

// geomDiff compares the geometric filters with the polygons and boxes given.
func (h *mainHeap) geomDiff(s *State, v *V, o optSet) string {
	var want [][]pt // polygons, closed
	var geo [][][]pt
	var boxes [][]pt
	coords := func(t string) (r []pt) {
		var xs []float64
		for _, x := range strings.Split(t, ",") {
			var f float64
			fmt.Sscan(strings.TrimSpace(x), &f)
			xs = append(xs, f)
		}
		for i := 0; i+1 < len(xs); i += 2 {
			r = append(r, pt{xs[i+1], xs[i]})
		}
		return
	}
	lst := func(k string) []string { l, _ := o[k].([]string); return l }
	for _, t := range lst("polygon") {
		want = append(want, coords(t))
	}
	for _, f := range lst("polygon-file") {
		if g, ok := h.geoRings(f); ok {
			geo = append(geo, g...)
		} else if c := h.m.files[f]; c != nil {
			want = append(want, coords(*c))
		}
	}
	for _, t := range lst("bounding-box") {
		c := coords(t)
		a, b := c[0], c[1]
		boxes = append(boxes, []pt{a, {a[0], b[1]}, b, {b[0], a[1]}})
	}
	for i, w := range want {
		if w[0] != w[len(w)-1] {
			want[i] = append(w, w[0])
		}
	}
	el, ok := h.e.elems(s, v)
	if !ok {
		return ""
	}
	var got [][]pt
	var inner [][][]pt
	rings := func(v *V) (r []pt, ok bool) {
		for _, q := range v.Args {
			if q.K != KTuple || len(q.Args) != 2 {
				return nil, false
			}
			x, ok1 := constFloat(q.Args[0])
			y, ok2 := constFloat(q.Args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			r = append(r, pt{x, y})
		}
		return r, v.K == KTuple
	}
	for _, p := range el {
		if p.K != KTerm || p.Op != "polygon" || p.Args[0].K != KTuple || p.Args[1].K != KTuple {
			return "a geometric filter is not determined by the option's value: " + p.String()
		}
		ring, ok := rings(p.Args[0])
		var in [][]pt
		for _, q := range p.Args[1].Args {
			x, k := rings(q)
			in = append(in, x)
			ok = ok && k
		}
		if !ok {
			return "a geometric filter is not determined by the option's value: " + p.String()
		}
		got, inner = append(got, ring), append(inner, in)
	}
	same := func(a, b []pt) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	rot := func(b []pt, k int, rev bool) (r []pt) {
		for i := range b {
			j := (k + i) % len(b)
			if rev {
				j = (k - i + 2*len(b)) % len(b)
			}
			r = append(r, b[j])
		}
		return append(r, r[0])
	}
	used := make([]bool, len(got))
	var holes [][]pt
	find := func(match func([]pt) bool) bool {
		for i, g := range got {
			if !used[i] && match(g) && len(inner[i]) == len(holes) {
				eq := true
				for j := range holes {
					eq = eq && same(inner[i][j], holes[j])
				}
				if !eq {
					continue
				}
				used[i] = true
				return true
			}
		}
		return false
	}
	for _, w := range want {
		if !find(func(g []pt) bool { return same(g, w) }) {
			return fmt.Sprintf("no geometric filter is the closed polygon %v; the filters are %v", w, got)
		}
	}
	for _, g := range geo {
		holes = g[1:]
		if !find(func(x []pt) bool { return same(x, g[0]) }) {
			return fmt.Sprintf("no geometric filter is the polygon %v of the GeoJSON file; the filters are %v with holes %v", g, got, inner)
		}
		holes = nil
	}
	for _, b := range boxes {
		if !find(func(g []pt) bool {
			for k := range b {
				if same(g, rot(b, k, false)) || same(g, rot(b, k, true)) {
					return true
				}
			}
			return false
		}) {
			return fmt.Sprintf("no geometric filter is the closed box %v; the filters are %v", b, got)
		}
	}
	return ""
}

// geoRings gives the polygons of a GeoJSON file, each as its rings.
func (h *mainHeap) geoRings(f string) (r [][][]pt, ok bool) {
	if !strings.HasSuffix(f, ".json") && !strings.HasSuffix(f, ".geojson") {
		return nil, false
	}
	if c := h.m.files[f]; c != nil {
		for _, g := range h.m.geo[*c] {
			if g.typ == "Polygon" || g.typ == "MultiPolygon" {
				for _, p := range g.polys {
					if len(p) > 0 {
						r = append(r, p)
					}
				}
			}
		}
	}
	return r, true
}
