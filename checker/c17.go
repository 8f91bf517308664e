package main

import (
	"fmt"
	"go/token"
	"strings"
)

// C17: what each pass may change, by kind: "-Stops" entities are deleted, "+Stops" added, "Kind.Field" a field is
// changed. Non-standard fields and counters go with the kind they belong to, and transfers go with what they refer to.
var mayChange = map[string]string{
	"AdjacentStopTimeGrouper": "Trip.StopTimes StopTime.arrival_time StopTime.departure_time StopTime.pudo StopTime.sequence",
	"AgencyDuplicateRemover":  "-Agencies Route.Agency FareAttribute.Agency Agency.Attributions Agency.Translations",
	"CompleteTripsGeoFilter":  "-Trips -Stops -Pathways",
	"FrequencyMinimizer":      "-Trips +Trips Trip.Frequencies Trip.StopTimes StopTime.arrival_time StopTime.departure_time Trip.Attributions",
	"IDMinimizer":             "*.Id Service.id",
	"OrphanRemover":           "-Trips -Stops -Shapes -Services -Routes -Agencies -Levels -Pathways -FareAttributes -Transfers",
	"PlatformCodeDropper":     "Stop.Platform_code",
	"RouteDuplicateRemover":   "-Routes -FareAttributes +Transfers Trip.Route FareAttribute.Rules FareAttributeRule.Route Route.Attributions Route.Translations",
	"ServiceCalDatesRem":      "-Services +Services +Trips Trip.Service Service.daymap Service.start_date Service.end_date Service.exceptions",
	"ServiceDuplicateRemover": "-Services Trip.Service",
	"ServiceMinimizer":        "Service.daymap Service.start_date Service.end_date Service.exceptions",
	"ServiceNonOverlapper":    "-Services +Services -Trips +Trips Trip.Service",
	"ShapeDuplicateRemover":   "-Shapes Trip.Shape",
	"ShapeMinimizer":          "Shape.Points ShapePoint.Sequence",
	"ShapeRemeasurer":         "ShapePoint.Dist_traveled StopTime.shape_dist_traveled",
	"ShapeSnapper":            "+Stops StopTime.stop StopTime.shape_dist_traveled",
	"StopDuplicateRemover":    "-Stops -Levels +Transfers Stop.Parent_station Stop.Level Stop.Translations StopTime.stop Pathway.From_stop Pathway.To_stop",
	"StopParentAverager":      "Stop.Lat Stop.Lon",
	"StopParentEnforcer":      "+Stops Stop.Parent_station",
	"StopReclusterer":         "-Stops +Stops +Transfers Stop.Parent_station StopTime.stop Pathway.From_stop Pathway.To_stop",
	"StopTimeRemeasurer":      "StopTime.shape_dist_traveled",
	"TooFastTripRemover":      "-Trips",
	"TripDuplicateRemover": "-Trips +Services -Services +Transfers Trip.Service Trip.Shape Trip.Attributions Trip.Headsign Trip.Short_name Trip.Bikes_allowed Trip.Wheelchair_accessible " +
		"Trip.Direction_id Trip.Block_id Trip.Translations StopTime.shape_dist_traveled StopTime.headsign Service.daymap Service.start_date Service.end_date Service.exceptions",
}

// belongsTo: further maps and counters of the feed that are part of a kind.
var belongsTo = map[string]string{
	"StopTimesAddFlds": "Trips", "FrequenciesAddFlds": "Trips", "NumStopTimes": "Trips", "FareRulesAddFlds": "FareAttributes", "NumShpPoints": "Shapes",
}

var fieldOwner = map[string]string{ // the map of the feed in which entities with non-standard fields live
	"Trip": "Trips", "StopTime": "Trips", "Frequency": "Trips", "Stop": "Stops", "Route": "Routes", "Agency": "Agencies", "Shape": "Shapes", "ShapePoint": "Shapes", "Level": "Levels",
	"Pathway": "Pathways", "FareAttribute": "FareAttributes", "FareAttributeRule": "FareAttributes", "Transfer": "Transfers",
}

// allowedEffect: an effect of a pass is among what the pass may change.
func allowedEffect(pass, what string) bool {
	pol := strings.Fields(mayChange[pass])
	has := func(s string) bool {
		for _, p := range pol {
			if p == s {
				return true
			}
		}
		return false
	}
	if !strings.HasPrefix(what, "Feed.") {
		f := strings.NewReplacer("[]", "", "*", "", " set", "", " delete", "").Replace(what)
		if strings.HasSuffix(what, ".*") { // a whole entity is overwritten: all its fields would have to be allowed
			return false
		}
		if has(f) {
			return true
		}
		return has("*.Id") && strings.HasSuffix(f, ".Id")
	}
	fs := strings.Fields(strings.TrimPrefix(what, "Feed."))
	verb := "replace"
	if len(fs) > 1 {
		verb = fs[1]
	}
	m := strings.TrimSuffix(fs[0], "[]")
	if has("*.Id") { // identifiers are keys everywhere
		return true
	}
	owned := false
	kind := m
	if k, ok := belongsTo[m]; ok {
		kind, owned = k, true
	} else if strings.HasSuffix(m, "AddFlds") {
		kind, owned = strings.TrimSuffix(m, "AddFlds"), true
	}
	if owned {
		if has("-"+kind) || has("+"+kind) {
			return true
		}
		for _, p := range pol { // fields of the kind are changed, its non-standard fields may follow
			if i := strings.Index(p, "."); i > 0 && fieldOwner[p[:i]] == kind && (p == "Trip.StopTimes" || p == "Shape.Points" || p == "FareAttribute.Rules") {
				return true
			}
		}
	}
	switch verb {
	case "set":
		if has("+" + kind) {
			return true
		}
	case "delete":
		if has("-" + kind) {
			return true
		}
	default:
		if has("+"+kind) || has("-"+kind) {
			return true
		}
	}
	del := has("-Trips") || has("-Stops") || has("-Routes")
	switch kind {
	case "Transfers":
		return del && (verb != "set" || owned) || has("+Transfers")
	case "Attributions": // of copied or deleted entities
		return has("+Trips") || del || has("-Agencies")
	case "Translations":
		return has("+Trips") || del || has("-Agencies")
	}
	return false
}

func passTypes(P *Program) (out []string) {
	sc := P.proc.Pkg.Scope()
	for _, n := range sc.Names() {
		if fn := P.method(n, "Run"); fn != nil && fn.Signature.Params().Len() == 1 && len(fn.Params) == 2 && feedType(deref(fn.Params[1].Type())) == "Feed" {
			out = append(out, n)
		}
	}
	return
}

func checkC17(P *Program, r *Result, tier string) {
	for _, t := range passTypes(P) {
		if _, ok := mayChange[t]; !ok {
			r.Detail = append(r.Detail, "no policy for the pass "+t)
			continue
		}
		x := passEffects(P, P.method(t, "Run"))
		n := 0
		for _, fn := range x.order {
			r.Functions[fn.String()] = true
			n += len(fn.Blocks)
		}
		r.Steps += n
		bad := 0
		for _, e := range x.list() {
			r.Obligations++
			if allowedEffect(t, e.what) {
				r.Discharged++
				continue
			}
			bad++
			var tr []string
			for i := len(e.via) - 1; i >= 0; i-- {
				tr = append(tr, "reached through "+fnName(e.via[i]))
			}
			at := posText(P, e.pos)
			r.add("effect:"+t+":"+e.what, at, tr, "%s.Run may write %s at %s, which this pass is not about (it may change: %s)", t, effectText(e.what), at, mayChange[t])
		}
		var ws []string
		for _, e := range x.list() {
			ws = append(ws, fmt.Sprintf("%s (%d sites)", e.what, x.sites[e.what]))
		}
		r.Detail = append(r.Detail, fmt.Sprintf("%s: %d functions, %d blocks, writes: %s", t, len(x.order), n, strings.Join(ws, ", ")))
	}
}

func effectText(w string) string {
	switch {
	case strings.HasSuffix(w, " set"):
		return "new entries into " + strings.TrimSuffix(w, " set")
	case strings.HasSuffix(w, " delete"):
		return "(delete entries of) " + strings.TrimSuffix(w, " delete")
	case strings.HasSuffix(w, "[]"):
		return "elements of " + strings.TrimSuffix(w, "[]")
	}
	return w
}

func init() {
	register("C17", 60, "Interprocedural write-effect analysis over SSA: for every pass, every store, map update, deletion and in-place rearrangement in every function reached from Run (closures, interface methods and parser functions included) is attributed to a kind and field of the feed, with memory allocated by the pass itself tracked as fresh; each effect must be among those the pass documents.", checkC17)
}

func posText(P *Program, p token.Pos) string {
	e := &Engine{prog: P.prog}
	return e.pos(p)
}
