#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that wording stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
PR="processors/"
p("C01","Duplicate removal merges only entities that agree in every attribute",
"When exact (non-fuzzy) duplicate removal merges two agencies, routes, stops, levels, services or trips, the two agree in every attribute of their kind other than their ID: every standard field including absent-versus-present optional ones, every non-standard field kept on request, the fare rules of merged routes, and, of merged trips, the number of stop times and the station, arrival and departure of each (other than the arrival at the first and the departure at the last one). Services are only merged when active on the same days, trips when one runs on a subset of the days of the other. Entities that differ in any one of these are never merged, and stops are only merged when no farther apart than the configured distance.",
["inputs"],"every pair of entities of one kind, every single attribute in which they differ, at every position of a stop sequence, in every map iteration order and worker split",
"A test feed samples a handful of pairs; dropping one field of one comparison still passes because no sampled pair differs in only that field.",
[PR+f for f in ("agencyduplicateremover.go","routeduplicateremover.go","stopduplicateremover.go","tripduplicateremover.go","serviceduplicateremover.go")],
[("equality predicates",PR+"*duplicateremover.go"),("fare rule comparison",PR+"routeduplicateremover.go"),("candidate collection in parallel workers",PR+"*duplicateremover.go")],obs="entities left in the feed after the pass")
p("C02","Identical entities are found and merged",
"Two agencies, routes, stops, levels, services or trips of a feed that agree in every attribute other than their ID are merged into one by the duplicate removal pass for their kind. The pre-grouping used to find candidates (hash buckets, per-worker chunks) never separates two entities the pass would consider equal, for any number of workers.",
["inputs","configurations"],"every pair of equal entities, any iteration order, 1..n workers",
"A hash that looks at one attribute too many, or a chunk that loses its last element, only shows for specific values and CPU counts.",
[PR+f for f in ("agencyduplicateremover.go","routeduplicateremover.go","stopduplicateremover.go","tripduplicateremover.go","serviceduplicateremover.go","shapeduplicateremover.go")],
[("hash functions and chunking",PR+"*duplicateremover.go")])
p("C03","Merging redirects every reference to the surviving entity",
"When entities are merged, every reference in the feed to a removed one (stop times, parent stations, transfers, pathways, trips, fare rules and fare attributes, levels, shapes, services) refers to the surviving entity afterwards, the data of a redirected transfer or pathway is kept, and attributions of the removed entity are carried over. Transfers of merged routes and trips are redirected or removed. No reference to a removed entity remains.",
["inputs"],"every kind of reference, any number of referrers, every choice of survivor",
"The test feeds contain few cross-reference kinds and never assert on them.",
[PR+f for f in ("agencyduplicateremover.go","routeduplicateremover.go","stopduplicateremover.go","tripduplicateremover.go","serviceduplicateremover.go","shapeduplicateremover.go")],
[("combine steps",PR+"*duplicateremover.go")])
p("C04","Passes that delete stops, routes or trips leave no dangling transfer",
"After any pass that removes stops, routes or trips from the feed, no transfer is left that refers to a removed stop, route or trip.",
["inputs"],"every feed with transfers that mention removed entities, on every path through the pass",
"Transfers referring to trips/routes are rare in test feeds; forgetting the clean-up is invisible to unit tests.",
[PR+f for f in ("orphanminimizer.go","routeduplicateremover.go","tripduplicateremover.go","stopreclusterer.go","toofasttripremover.go","completegeotripsfilter.go","servicecaldatesremover.go","frequencyminizer.go","stopduplicateremover.go")],
[("transfer clean-up after deletion",PR)])
p("C05","A pass returns only after all of its workers finished",
"Every parallel pass waits, on every path, for each worker it started before it uses the workers' results or returns. The number of completions awaited equals the number of workers started for every worker count, every worker signals completion on every exit, and no wait can block forever.",
["schedules"],"every interleaving of workers and every number of CPUs / chunks",
"Tests run one schedule; an early return only loses data under a particular interleaving.",
[PR+f for f in ("agencyduplicateremover.go","routeduplicateremover.go","stopduplicateremover.go","tripduplicateremover.go","serviceduplicateremover.go","shapeduplicateremover.go","shapeminimizer.go","shapesnapper.go","shaperemeasurer.go","stoptimeremeasurer.go","frequencyminizer.go","serviceminimizer.go","idminimizer.go","stopreclusterer.go")],
[("semaphore channels and go statements",PR)])
p("C06","Parallel workers never write the same data",
"Two workers running at the same time never write the same piece of feed data or result storage, and none reads what another one writes, unless both hold a common lock.",
["schedules"],"every interleaving of concurrently running workers",
"Data races only show under particular interleavings and mostly pass unnoticed.",
[PR],[("go statements and captured state",PR)])
p("C07","Newly created or renamed entities get unique, consistent identifiers",
"Whenever a pass inserts a new entity or renames an existing one, the identifier used is not one already present in the feed, distinct entities get distinct identifiers, and the key under which an entity is stored equals the identifier it carries.",
["inputs"],"every feed, including ones whose existing identifiers look like generated ones",
"Collisions need input identifiers that match the generated scheme.",
[PR+"idminimizer.go",PR+"servicecaldatesremover.go",PR+"servicenonoverlapper.go",PR+"frequencyminizer.go",PR+"stopreclusterer.go","gtfstidy.go"],
[("identifier allocation and insertion",PR)])
p("C08","Non-standard fields stay attached to their entity when IDs change",
"When identifiers are minimised or restored, every retained non-standard field value of agencies, stops, routes, trips, stop times, fares, levels, pathways and shapes is found afterwards under the new identifier of the same entity.",
["inputs"],"every entity kind and field, any renaming order",
"No test combines ID minimisation with non-standard fields.",
[PR+"idminimizer.go","gtfstidy.go"],[("re-keying of additional-field tables",PR+"idminimizer.go")])
p("C09","Orphan removal deletes exactly the unreferenced",
"Orphan removal never deletes a stop, shape, service, route or agency that is still referenced by something left in the feed (stop times, child stops, pathways, transfers, trips, routes, fares and fare rules), nor a trip on which passengers can travel; and it deletes every stop (other than entrances), shape, service, route and agency that nothing left in the feed after the pass refers to, whatever the length of the chain of references that became unused.",
["inputs"],"every reference kind and every dependency chain",
"The unit tests never exercise orphan removal on its own; each reference kind needs a feed of its own.",
[PR+"orphanminimizer.go"],[("reference collection and deletion",PR+"orphanminimizer.go")])
p("C10","Validation mode changes and writes nothing and reports truthfully",
"In validation mode no processing pass runs and no output is created, whatever other options are given. Every given feed is parsed on its own and without options that drop or replace erroneous data, and the exit status is 0 exactly if all of them were parsed without error.",
["configurations","fault_sequences"],"every combination of options with validation, every feed position failing",
"Tests never run the command line.",
["gtfstidy.go"],[("validation branch of main","gtfstidy.go")])
p("C11","Failures end with a nonzero exit status and no output",
"If reading any of the input feeds fails, or invalid arguments are given (no input, malformed dates, route types, polygons or bounding boxes, unreadable polygon files), the program exits nonzero without running passes or writing a feed; if creating or writing the result fails, or processing crashes, it exits nonzero as well.",
["fault_sequences","configurations"],"a failure at any input feed, option or write step",
"Error paths of the command line are not run by tests.",
["gtfstidy.go"],[("error handling in main","gtfstidy.go")])
p("C12","Each option enables exactly its documented processing",
"For every documented command-line option, alone or together with others, giving it makes the documented pass run with the documented parameters (or sets the documented parse, filter or write behaviour), and a pass does not run, and a parse or write behaviour is not switched on, when no option that documents it is given.",
["configurations"],"every option, every pair of options, all options at once, with several values for options that take one",
"Tests build passes directly and never go through the options.",
["gtfstidy.go","README.md"],[("option definitions and pass selection","gtfstidy.go")])
p("C13","Preset options enable everything they document",
"Each shorthand option (--fix, --compress, --Compress, --merge, --Merge, --keep-ids) has the effect of every option its help text names, and leaves every other option given explicitly in effect.",
["configurations"],"every shorthand, alone, combined with every other option, and pairs of shorthands with an explicit option",
"Tests never go through the options.",["gtfstidy.go"],[("preset expansion","gtfstidy.go")])
p("C14","Passes run in the documented order",
"Whatever set of options is given, the selected passes run in the order the README documents, each after the passes it relies on: orphan removal runs first and again after passes that delete or replace trips and stops, shapes are measured, then simplified, then stop times are measured and stops snapped to them, then duplicate shapes are removed; agencies, stops, shapes, routes and services are de-duplicated before trips; stop and service duplicates are removed again after passes that may create them; frequencies are searched after trips and services are final; calendar dates are removed after the last pass that may add some; and ID minimisation runs after all other passes.",
["configurations"],"every combination of options",
"Combinatorially many option sets.",["gtfstidy.go"],[("pass list construction","gtfstidy.go")])
p("C15","Identifiers the user asked to keep are not changed",
"With a keep-ID option for a kind of entity, identifiers of that kind are left as they are by ID minimisation and other kinds are still minimised. After reading with ID prefixes (several feeds), kept identifiers are written as they were in the input unless another entity of the kind has taken that identifier; other kinds keep the prefix.",
["configurations"],"every keep option and every kind",
"Tests use one option set.",["gtfstidy.go",PR+"idminimizer.go"],[("keep flags",PR+"idminimizer.go")])
p("C16","A shared service calendar is never changed on behalf of one trip",
"A pass that adapts service calendars for some trips changes or deletes a calendar only if no other trip uses it; otherwise it works on a copy that it gives a new identifier and registers in the feed.",
["inputs"],"every sharing pattern of services between trips",
"Sharing patterns are not sampled by tests.",[PR+"tripduplicateremover.go",PR+"servicecaldatesremover.go",PR+"servicenonoverlapper.go"],[("calendar adaption",PR+"tripduplicateremover.go")])
p("C17","Each pass changes only the kinds of data it is about",
"Every pass modifies only the kinds of entities and fields it documents: a pass about shapes leaves schedules and stops alone, a pass about services leaves stop times and shapes alone, remeasuring changes distances only, and none modifies an entity's identifier except ID minimisation.",
["inputs"],"every pass, every path, including helpers it calls",
"A stray write shows only for inputs that reach it.",[PR],[("field writes reachable from each pass",PR)])
p("C19","Several input feeds never collide",
"When several feeds are given, each is parsed once, into the feed that is processed and written, with an ID prefix such that no ID of one feed can equal an ID of another, for any number of feeds and also with a user-given prefix; a single feed is read without prefix unless one is given.",
["inputs","configurations"],"any number of input feeds",
"Tests read one feed.",["gtfstidy.go"],[("multi-feed reading","gtfstidy.go")])
p("C20","Optional references are checked before use",
"Fields that a valid feed may leave empty (parent station, shape, level, agency of a fare, URLs, attribution targets) are never dereferenced without a check, so no pass crashes on a valid feed that omits them.",
["inputs"],"every pass and optional reference",
"Test feeds fill in most optional fields.",[PR,"gtfstidy.go"],[("dereferences of optional references",PR)])
p("C21","Copies of trips are complete and independent",
"When a pass creates a copy of a trip, the copy carries every attribute of the original (stop times, frequencies, attributions and non-standard fields included) other than the ones the pass changes on purpose (identifiers, service, and the times or frequencies being rewritten), and later changes to one do not change the other.",
["inputs"],"every attribute of the copied entity",
"Tests compare counts only.",[PR+"servicecaldatesremover.go",PR+"servicenonoverlapper.go",PR+"frequencyminizer.go"],[("trip construction",PR)])
p("C22","Shape simplification only drops points and keeps both ends",
"Simplifying a shape keeps its first and last point, keeps the order of the remaining points, and never invents or moves a point.",
["inputs"],"every shape",
"Tests use a handful of shapes.",[PR+"shapeminimizer.go"],[("point selection",PR+"shapeminimizer.go")])
p("C23","No pass leaves a reference to an entity it removed",
"After every pass, everything an entity of the feed refers to is in the feed: the stop of every stop time, the parent station and level of every stop, the route, service and shape of every trip, the agency of every route and fare, the route of every fare rule, the stops of every pathway, and the stops, routes and trips of every transfer.",
["inputs"],"every pass that adds, replaces or deletes entities, every kind of reference, every map iteration order",
"The parser would reject a feed with dangling references, but no test reads an output back; each kind of reference needs a feed of its own.",
[PR+f for f in ("completegeotripsfilter.go","toofasttripremover.go","orphanminimizer.go","stopreclusterer.go","stopparentenforcer.go","shapesnapper.go","tripduplicateremover.go","servicecaldatesremover.go","servicenonoverlapper.go","frequencyminizer.go")],
[("deletion and replacement of entities",PR)],obs="the feed after the pass")
p("C90","Calendar rewriting keeps the exact set of active days",
"Rewriting services (calendar minimisation, explicit dates, splitting at year or day-type boundaries) keeps exactly the set of days on which every trip runs: the trip, or the copies it is replaced by taken together, runs exactly once on each of these days and on no other.",
["inputs"],"every calendar, several trips sharing one","Infinite set of date patterns; the tests use a few.",[PR+"serviceminimizer.go",PR+"servicecaldatesremover.go",PR+"servicenonoverlapper.go"],[("calendar rewriting",PR)],obs="the days of all trips after the pass")
p("C91","Simplified geometry stays within its tolerance",
"Every point dropped by shape simplification is within the configured distance of the line between the points kept before and after it (the distance function itself is taken as it is).",
["inputs"],"every shape","Continuous input space.",[PR+"shapeminimizer.go"],[("dropping of points",PR+"shapeminimizer.go")])
p("C24","Only shapes close to each other are merged",
"When two shapes are merged, every point of each of them, and the places at regular steps along its longer segments, is within the configured distance of the other shape (or both shapes are that close to a third one they are merged with), and so are their first points and their last points (the distance function itself is taken as it is).",
["inputs"],"every pair of shapes","Continuous input space; the tests use a few shapes that differ everywhere or nowhere.",[PR+"shapeduplicateremover.go"],[("comparison of shapes",PR+"shapeduplicateremover.go")])
p("C25","Grouping adjacent stop times loses nothing a passenger sees",
"Two neighbouring stop times of a trip are grouped into one exactly if they are at the same stop, neither has a dwell, and they agree in headsign, measured distance, continuous pickup, continuous drop-off and exactness of times. The stop time of a group arrives and lets passengers alight as the first of the group does, departs and lets passengers board as the last of the group does, and is as the first in everything else. All other stop times, and the order, are kept.",
["inputs"],"every sequence of stop times of a trip",
"Each attribute and each length of a chain of groupable stop times needs a test of its own.",[PR+"adjstoptimegrouper.go"],[("grouping of stop times",PR+"adjstoptimegrouper.go")],obs="the stop times after the pass")
p("C27","Removing redundant trips keeps the service",
"Trips that agree in what the redundant trip removal compares (attributes, stations and times; in fuzzy mode the means of transport instead of the attributes) run together on exactly the days they ran on before, in every mode (exact, fuzzy, merging adjacent or all calendars); on no day does more than one of them still run. Trips that differ, and trips with frequencies, keep their days.",
["inputs"],"every combination of calendars of trips that agree","Each relation of two or three calendars, shared or not, needs a test of its own; the tests use four.",[PR+"tripduplicateremover.go"],[("merging of trips by calendar",PR+"tripduplicateremover.go")],obs="the days of all trips after the pass")
p("C26","The complete-trips area filter keeps exactly the trips that touch the area",
"With complete filtered trips, a trip is kept, with all its stop times, exactly if at least one of its stops lies in one of the given areas. A stop is kept exactly if it lies in one of the areas, is served by a kept trip, or is an ancestor (station) of such a stop.",
["inputs","configurations"],"every set of areas, every assignment of stops and trips to them, every map iteration order",
"No test runs the filter.",[PR+"completegeotripsfilter.go"],[("selection of stops and trips",PR+"completegeotripsfilter.go")],obs="the trips and stops after the pass")
p("C28","Station passes change exactly what they are for",
"Ensuring parent stations gives every stop (location type 0) without a parent station a new station of its own - type station, without parent, part of the feed under an ID of its own - with its name and position; platform-code dropping empties exactly the platform codes of stops without a parent station; averaging far-away parents moves a station to the mean position of its children exactly if some child is farther away from it than the maximum distance and all are within it of that mean. All other attributes of stops and stations stay as they are, no existing stop is lost or replaced.",
["inputs","configurations"],"every set of stops and stations, taken IDs, positions and every map iteration order","No test runs these passes.",[PR+"stopparentenforcer.go",PR+"stopparentaverager.go",PR+"platformcodedropper.go"],[("station passes",PR+"stopparentenforcer.go")],obs="the stops and stations after the pass")
p("C29","Remeasuring yields the measurements that follow from the distances",
"Remeasuring shapes keeps the measurements that are given; missing ones between measured points follow in proportion to the distance along the shape, behind the last at the mean rate of the measured sections, before the first at that rate starting from 0 without exceeding the first; shapes without any measurement are measured in metres; if no rate can be found, all measurements of the shape are dropped (or metres used if forced). Measurements of a shape with non-decreasing ones never decrease, and stop times measured beyond the end of their shape get its end. Remeasuring stop times gives all stop times of a trip that has an unmeasured one (and a shape) the measures of places at most 250 m away (one per segment, the projection of the stop on it), in order along the shape and with the smallest total distance, or leaves them as they were if there are none; other trips stay unchanged.",
["inputs","configurations","schedules"],"every shape and trip, every pattern of given and missing measurements, every number of workers","Tests measure one shape; gaps at the ends, equal measures and shapes that cross or return matter.",[PR+"shaperemeasurer.go",PR+"stoptimeremeasurer.go"],[("measuring of shapes and stop times",PR+"shaperemeasurer.go")],obs="the measurements of shape points and stop times after the pass")
p("C30","Snapping places stops that are off their shape onto it",
"A stop time gets a new stop exactly if its stop is farther than the maximum distance from its place on the shape of its trip: where it is measured if the shape has that measure, otherwise the nearest point of the shape. The new stop lies at that place, has an ID of its own and all other attributes and non-standard fields of the old stop. All other stop times, trips without a shape and all existing stops stay unchanged.",
["inputs","configurations"],"every trip and shape, measured or not, every maximum distance, every map iteration order","No test runs the pass.",[PR+"shapesnapper.go"],[("snapping",PR+"shapesnapper.go")],obs="the stops of all stop times after the pass")
p("C31","Dropping too fast trips drops exactly those",
"Dropping trips that are too fast removes exactly the trips that are faster than the limit of their means of transport (also as extended route type: tram 100 km/h; subway, bus and monorail 150; rail 500; ferry 80; cable tram 30; aerial lift, funicular and trolleybus 50) between two consecutive timed stop times at least 7 km apart along the stops (sections that take no time are joined with the next and also count as taking a minute) or between any two timed stop times at least 10 km apart. Stop times without times only add distance. All other trips, their stop times and all stops stay unchanged.",
["inputs"],"every trip: places, times, missing times, means of transport, every map iteration order","No test runs the pass.",[PR+"toofasttripremover.go"],[("speed checks",PR+"toofasttripremover.go")],obs="the trips left after the pass")
p("C92","Frequency compression reproduces the original departures",
"Expanding the frequencies of all trips after the frequency pass yields exactly the departures of before, as often as before: each with the same stops, times relative to the departure, service and all other attributes (non-standard ones included), and scheduled exactly or by headway as before (a departure by headway may become a scheduled trip of its own). Frequencies the pass forms have headways within the configured bounds and do not overlap within their trip, and no attribution of a trip is lost.",
["inputs","configurations"],"every set of trips, with and without frequencies, every headway bound, every map iteration order","Number-theoretic cover search over arbitrary departure sets; the tests use a few regular series.",[PR+"frequencyminizer.go"],[("progression cover",PR+"frequencyminizer.go")],obs="the departures of all trips after the pass")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
