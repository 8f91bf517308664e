#!/usr/bin/env python3
"""Regenerates MANIFEST.json. CLAIMED: property -> (technique, level_note). NA: property -> reason."""
import json, os
CLAIMED = {
 "C01": ("abstract interpretation over SSA on an abstract heap",
         "every Run of the duplicate removers is interpreted for two entities differing in exactly one attribute; both must survive on every path. Covers pairwise merging; bounded to 3 stop times, 3 service days and the listed fare-rule shapes"),
 "C03": ("abstract interpretation over SSA on an abstract heap",
         "merges of 2-3 equal entities with every kind of referring entity (one and two referrers, additional fields), and the write-back of stop clusters; on every path all references, transfers and attributions must be at the survivor"),
 "C02": ("abstract interpretation over SSA on an abstract heap",
         "two entities equal in all attributes, every map order, 1-3 workers; exactly one must survive on every path"),
 "C10": ("abstract interpretation of main over SSA with recorded effects", "validation mode with every other option, 1-3 feeds, every failing position; no pass, writer or file-creating call reachable, exit status as documented"),
 "C11": ("abstract interpretation of main over SSA with recorded effects", "every kind of input, argument, output and pass failure with several option sets; nonzero exit on every reachable end, nothing run or written before"),
 "C12": ("abstract interpretation of main over SSA with recorded effects", "all options, all pairs, all-but-one and several values (thorough: triples of pass options); passes, parameters, parse options, filter geometry and writer settings compared with the documentation"),
 "C13": ("abstract interpretation of main over SSA with recorded effects", "every preset alone and with every other option; expansion read from the analysed help texts"),
 "C14": ("abstract interpretation of main over SSA with recorded effects", "ordering constraints between passes on all options, pairs, all-but-one and selected triples"),
 "C05": ("abstract interpretation over SSA with a happens-before order (vector clocks) and lock sets", "every pass and the scenarios of all other checks with 1-4 workers: at every end all workers have been waited for, no wait blocks for ever, and no access of a worker is unordered with one of the code that started it"),
 "C06": ("abstract interpretation over SSA with a happens-before order (vector clocks) and lock sets", "every pass and the scenarios of all other checks with 1-4 workers: no two accesses to the same memory (fields, elements, maps, variables), one of them a write, without an order or a common lock"),
 "C07": ("abstract interpretation over SSA on an abstract heap", "ID minimisation and restoration on 1-3 entities of every kind (40 for one order), arbitrary and clashing IDs, every map order; keys, identifiers, distinctness and completeness at every end"),
 "C08": ("abstract interpretation over SSA on an abstract heap", "non-standard values of every table keyed by an ID, followed through ID minimisation and restoration with arbitrary and clashing IDs"),
 "C15": ("abstract interpretation over SSA on an abstract heap", "every keep option alone, all but one, all (thorough: pairs), through IDMinimizer.Run and through main with 1-3 feeds"),
 "C04": ("abstract interpretation over SSA on an abstract heap", "every pass that deletes or replaces stops, routes or trips, on feeds with transfers from and to every stop, route and trip; no transfer may refer to a missing entity at any end"),
 "C09": ("abstract interpretation over SSA on an abstract heap", "orphan removal on a small feed in use plus every kind of reference from used and unused entities, chains included; every map order"),
 "C23": ("abstract interpretation over SSA on an abstract heap", "every pass that adds, replaces or deletes entities, on feeds with every kind of reference; no dangling reference at any end"),
 "C16": ("abstract interpretation over SSA on an abstract heap", "trip merging in its three modes on feeds whose adapted services are shared with other trips: calendars of trips that are not adapted at every end, in both map directions"),
 "C21": ("abstract interpretation over SSA on an abstract heap", "the three passes that copy trips, on trips with individual values in every attribute: completeness of each copy and absence of shared mutable data at every end"),
 "C17": ("interprocedural write-effect analysis over SSA (origins of references, flow-insensitive)", "every store, map update, deletion and in-place rearrangement in every function reached from each of the passes, attributed to a kind and field of the feed and compared with what the pass is about; which entities of an allowed kind are changed is left to the other properties"),
 "C20": ("abstract interpretation over SSA on an abstract heap", "every pass on the scenarios of the other properties and on a feed with two entities of every kind, with the optional references of all or of every other entity (thorough: of single fields) empty; no path dereferences an empty reference. Single references (one of two equal entities) and sets of trips with frequencies included. The clustering loop of the stop reclusterer itself is not covered, only the writing of its clusters"),
 "C22": ("abstract interpretation over SSA on an abstract heap", "shape simplification on shapes of 1-6 (thorough 7) individual points with uninterpreted geometry: points, order, ends and sequence numbers at every end"),
 "C91": ("abstract interpretation over SSA on an abstract heap", "shape simplification on shapes of 1-6 (thorough 7) individual points; for every dropped point the comparisons on the path must imply that its distance to the kept neighbours is at most the tolerance; the distance function is uninterpreted"),
 "C24": ("abstract interpretation over SSA on an abstract heap", "merging of shapes of 2-3 individual points, with and without samples on segments; on every merging path the comparisons made must imply closeness of every point, sample and end; the distance function is uninterpreted"),
 "C25": ("abstract interpretation over SSA on an abstract heap", "grouping of 1-4 stop times that agree, differ in one attribute, or are unknown in one: number, origin and every attribute of the stop times at every end"),
 "C26": ("abstract interpretation over SSA on an abstract heap", "the area filter on trips with stops in and out of 1-2 areas, stations included, containment uninterpreted: kept trips, stop times and stops at every end, every map order"),
 "C27": ("abstract interpretation over SSA on an abstract heap", "trip merging in its four modes on classes of two and three trips with every pair of 14 calendars (disjoint, overlapping, contained, equal, empty, with exceptions), shared or not: days on which each class runs at every end. Calendars are individual, not symbolic"),
 "C28": ("abstract interpretation over SSA on an abstract heap", "three station passes on 1-4 stops of every type with and without parents, taken IDs, every map order; averaging on about 40 stations with 1-3 children at known places. Coordinates are individual, all other attributes symbolic"),
 "C29": ("abstract interpretation over SSA on an abstract heap", "shape measuring on about 45 (thorough 180) shapes of 1-6 points at known places with every kind of gap, stop time measuring on about 45 (thorough 150) trips on straight, bent, returning and repeating shapes, 1-4 workers, against an independent computation. Coordinates are individual, not symbolic: a bounded argument"),
 "C30": ("abstract interpretation over SSA on an abstract heap", "snapping on about 25 (thorough 110) trips and shapes at known places, measured or not, several trips in any order, against an independent computation. Coordinates are individual, all other attributes symbolic: a bounded argument"),
 "C31": ("abstract interpretation over SSA on an abstract heap", "dropping of too fast trips on about 85 (thorough 290) trips of every route type at known places and times just below and above the limits, with stop times without times and sections without duration, several trips in any order, against an independent computation. Places and times are individual: a bounded argument"),
 "C90": ("abstract interpretation over SSA on an abstract heap", "the three passes that rewrite calendars, on families of calendars (ranges of 1-22 days from every weekday, weekday patterns, exceptions at the ends, inside and outside, explicit dates, leap day, turn of year), one to three at once: days on which each trip and its copies run at every end. Calendars are individual, not symbolic"),
 "C92": ("abstract interpretation over SSA on an abstract heap", "the frequency pass on about 150 (thorough 500) sets of 1-9 trips with individual departure times, running times, frequencies and headway bounds and symbolic attributes; trips that differ in any one attribute; all departures expanded before and at every end. Times are individual, not symbolic: a bounded argument over departure sets"),
 "C19": ("abstract interpretation of main over SSA with recorded effects", "1-25 feeds with several prefixes; prefixes pairwise prefix-free, one processed feed"),
}
NA = {
}
TODO = "no check has been built for this property yet"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, TODO)})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
