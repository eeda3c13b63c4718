#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, note=""):
    P.append(({"id": pid, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
               "anchors": {"files": files,
                           "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe or ["the feed written with -o, read back as CSV"],
                           "hook_needed": None}}, note))


T0 = "No existing test runs this path; "
IN = ["inputs"]
IC = ["inputs", "configurations"]

prop("P01", "Without options the output says exactly what the input says",
     "Running the program on a valid feed without any processing option writes a feed with the same agencies, stops, routes, services, trips with their stop times and frequencies, shapes, transfers, pathways, levels, fares, fare rules, attributions and feed info, with the same ids and values. With -F the columns which are not part of GTFS are kept, attached to the same rows; writing a ZIP file or a folder, over an older output or in place, makes no difference, and neither do options which only concern invalid input, the order of columns or the compression. Reading options change what they name and nothing else: --drop-shapes the shapes, --standard-route-types and --google-supported-route-types the types of routes (by the published hierarchy of route types), --remove-fillers texts which are fill values (., .., ..., -, ?) in route names, descriptions and stop codes, --explicit-calendar only where a service is written (a row in calendar.txt for each, same dates).",
     IC, "every valid feed; output folder or zip, fresh, existing or in place; with and without -F; every combination of reading and writing options",
     T0 + "the tests call single processors on a handful of feeds and never look at the written files.",
     ["gtfstidy.go"], [("pipeline without minimizers, gtfswriter", "gtfstidy.go: main")])
prop("P02", "Every output is a sound feed, whatever the options",
     "Whatever valid feeds go in and whatever combination of processing options is used, the program ends successfully and the written feed is sound: ids are unique, every reference (agency, route, service, trip, shape, stop, parent station, level, fare, transfers, pathways, fare rules, attributions) leads to something of the right kind in the feed, stop times are in order and never go back in time, and the program's own validation mode accepts it.",
     IC + ["schedules"], "every list of valid feeds; every combination of options", "Tests run single processors; soundness depends on the order in which processors follow each other and on references between tables.",
     ["gtfstidy.go"], [("order of the processors", "gtfstidy.go: main"), ("all processors", "processors/")])
prop("P03", "An option touches only what it is about, also in combination and via short hands",
     "Whatever options are combined, one by one or through --compress, --Compress, --merge, --Merge or --fix, in one run or in several after each other, the written feed differs from the read one only where one of the options has business: tables none of the options is about come out as they went in, rows go or come only under options which remove or add rows of this kind, and in the rows that stay only the fields change which one of the options is about - shapes only under shape options, positions only where far away stops are moved, dates only under calendar options and trip merging, stop times only where stops are merged, snapped, grouped or frequencies combined.",
     IC, "every valid feed; every combination and succession of options", "Tests call one processor each and look at the table it works on; which processors an option brings along is decided in main, and what they leave alone must hold for all tables.",
     ["gtfstidy.go"], [("options, short hands and the processors they bring along", "gtfstidy.go: main"), ("all processors", "processors/")])
prop("P04", "Tidying never changes what the passenger is offered",
     "Whatever lossless options are combined (-O -A -P -R -C -c -S -s -m -r -T -I -i -d, calendar options, --compress, --Compress, --merge, several feeds), exactly the same rides are offered on every date: same route, mode, headsign, station names and times. Without trip merging each ride is offered exactly as often; with it at least once and never on another date. Date filters limit the dates, nothing else.",
     IC + ["schedules"], "every list of valid feeds; every combination of lossless options", "The guarantee is about the whole pipeline; tests run single processors on hand-made feeds.",
     ["gtfstidy.go"], [("order of the processors", "gtfstidy.go: main"), ("all processors", "processors/")])
prop("P05", "Minimizing services never changes the active dates of a service",
     "With -c every service keeps its id and is active on exactly the same dates as before, described by at most as many calendar_dates rows as before, nor more than one calendar row for all its dates would need; nothing else in the feed changes.",
     IN, "every valid set of calendars and exceptions",
     "serviceminimizer_test.go looks at a few fixed services; the search over date ranges and weekdays must be right for all combinations.",
     ["processors/serviceminimizer.go"], [("best calendar row for a set of active dates", "processors/serviceminimizer.go: perfectMinimize")])
prop("P06", "Merging services merges exactly those with equal active dates",
     "With -C services active on exactly the same dates become a single one and no others do, the survivors are unchanged, and every trip runs on exactly the same dates as before; nothing else changes.",
     IN, "every valid set of services, however their dates are written down",
     "serviceduplicateremover_test.go has one feed; equality must be decided for every way of writing the same dates.",
     ["processors/serviceduplicateremover.go"], [("duplicate chunks, service equality", "processors/serviceduplicateremover.go: getEquivalentServices")])
prop("P07", "Removing calendar_dates keeps what runs on every date",
     "With --remove-cal-dates no exceptions are left, and on every date exactly the same trips run, equally often, with the same attributes, stop times, frequencies and additional fields. Every original trip id still exists, nothing is made which never runs, all new trip and service ids are unique, and everything outside services and trips is unchanged.",
     IN, "every valid feed", T0 + "id collisions and lost columns depend on the ids and tables of the feed.",
     ["processors/servicecaldatesremover.go"], [("splitting of services into blocks, copying of trips", "processors/servicecaldatesremover.go: Run")])
prop("P08", "Non-overlapping services are disjoint and keep what runs on every date",
     "With --non-overlapping-services no two services share an active date, and on every date exactly the same trips run as before, with all their data; ids stay unique and nothing refers to a trip or service which no longer exists.",
     IN, "every valid feed, in particular dates in different years and unusual weeks", T0 + "week numbers repeat, so collisions need feeds spanning years.",
     ["processors/servicenonoverlapper.go"], [("day types", "processors/servicenonoverlapper.go: Run")])
prop("P09", "Frequency minimization keeps every departure",
     "With -T exactly the same number of vehicles start at every time on every stop pattern (same stops, relative times, service, route and attributes) as before. A departure with an exact timetable stays exact, equal trips which depart at regular intervals become one trip, headways respect the given bounds, and there are no more trips than before; transfers and attributions change only where they name a trip that was merged.",
     IC, "every valid set of trips and frequencies; every --min-headway/--max-headway", "frequencyminizer_test.go checks three feeds of regular trips.",
     ["processors/frequencyminizer.go"], [("progression matching and packing", "processors/frequencyminizer.go: Run, getMatches")])
prop("P10", "Merging trips keeps what the passenger is offered on every date",
     "With -I trips which are the same to a passenger (route, labels, block, calls at stations and times; with --red-trips-fuzzy only mode and calls) are offered on exactly the same dates as before, at most once per date; every surviving trip keeps its own data and only gains what a merged trip said, and all other trips are unchanged. Nothing refers to a trip that is gone.",
     IC, "every valid feed; exact, fuzzy and aggressive merging", T0 + "merging depends on combinations of services, parents, and shapes across trips, found by parallel workers.",
     ["processors/tripduplicateremover.go"], [("equality of trips, merging of services", "processors/tripduplicateremover.go: tripEquals, combineEqTrips")])
prop("P11", "Orphan removal deletes exactly what nothing uses",
     "With -O exactly those entities are deleted which no trip, directly or indirectly, uses (unserved trips, stops and stations without trips, routes, services, shapes, agencies and the transfers, pathways, levels or attributions of what is gone), and everything else stays unchanged.",
     IN, "every valid feed", T0 + "use is a transitive relation over ten tables.",
     ["processors/orphanminimizer.go"], [("reference counting per table", "processors/orphanminimizer.go: Run")])
prop("P12", "Merging agencies merges only identical agencies and keeps references",
     "With -A agencies which agree in everything but their id become one, no others do, and every route, fare and attribution belongs to the same agency (as described) as before; nothing else changes.",
     IN, "every valid feed", T0 + "all pairs of agencies and all kinds of references matter.",
     ["processors/agencyduplicateremover.go"], [("agency equality and reference rewriting", "processors/agencyduplicateremover.go")])
prop("P13", "Merging routes merges only equivalent routes and keeps references",
     "With -R routes which agree in everything the passenger sees, including agency, fares and attributions, become one and no others do; every trip stays on an equivalent route, fare rules keep what they apply to, and nothing refers to a route that is gone.",
     IN, "every valid feed", "routeduplicateremover_test.go has a single feed.",
     ["processors/routeduplicateremover.go"], [("route equality, fare rule comparison, reference rewriting", "processors/routeduplicateremover.go")])
prop("P14", "Merging stops merges only equivalent stops and keeps references",
     "With -P stops and stations are merged only if they agree in name, type, parent, zone and other attributes and are close enough (and do merge when they are identical), and every stop time, transfer, pathway and child stop refers to a stop equivalent to the one before. Levels are merged only if equal; nothing refers to a stop or level which is gone.",
     IC, "every valid feed; with and without --red-stops-fuzzy", "stopduplicateremover_test.go covers two feeds.",
     ["processors/stopduplicateremover.go"], [("stop equality and clustering", "processors/stopduplicateremover.go")])
prop("P15", "Merging shapes keeps the course and measurement of every trip",
     "With -S a trip's shape is replaced only by a shape that runs the same way within the tolerance (at most a few metres apart, same direction, same corners), measured stop times stay within the measured length of their shape, and no shape is kept twice; nothing else changes.",
     IN, "every valid set of shapes", "shapeduplicateremover_test.go covers few hand-made shapes; matching uses a spatial index and depends on all points.",
     ["processors/shapeduplicateremover.go", "processors/shapeidx.go"], [("shape comparison, spatial index", "processors/shapeduplicateremover.go, processors/shapeidx.go")])
prop("P16", "Simplifying shapes keeps their course, ends and measurements",
     "With -s every shape keeps its first and last point, all remaining points are original points in order with their measurement and additional fields, and every removed point lies within about a metre of the simplified line; nothing else changes.",
     IN, "every valid set of shapes, measured, partly measured or not", "shapeminimizer_test.go covers one shape.",
     ["processors/shapeminimizer.go"], [("Douglas-Peucker over chunks of shapes", "processors/shapeminimizer.go")])
prop("P17", "Measuring shapes and stop times gives consistent distances",
     "With -m or -r all points of a shape get a distance: existing ones are kept, gaps are interpolated proportionally and unmeasured shapes are measured in metres, never decreasing. With -r unmeasured stop times along a shape get the distance of their place on it, in order, or stay unmeasured when the stops are too far away.",
     IN, "every valid set of shapes, measured, partly measured or not; stops on and off the shape", T0 + "every pattern of gaps matters.",
     ["processors/shaperemeasurer.go", "processors/stoptimeremeasurer.go"], [("gap filling", "processors/shaperemeasurer.go"), ("projection of stops to shapes", "processors/stoptimeremeasurer.go")])
prop("P18", "Minimizing ids is a consistent one-to-one renaming",
     "With -i (numbers) or -d (base 36) the output is the input with the ids of every kind renamed one-to-one and every reference following, and nothing else changed, including additional fields with -F. Kinds named by a --keep-...-ids option are not renamed; all others get the shortest consecutive ids.",
     IC + ["schedules"], "every valid feed; every combination of --keep options; every schedule of the renaming workers", T0 + "renaming runs in parallel workers and collides when old ids look like new ones.",
     ["processors/idminimizer.go", "gtfstidy.go"], [("per-table renaming workers", "processors/idminimizer.go: Run")])
prop("P19", "Merging feeds keeps each feed complete and apart",
     "Given several feeds (or --prefix) the output is the union of the inputs, each with its ids prefixed consistently, so that rows of different feeds are never confused. With --keep-...-ids the original ids return wherever they are free, without changing what refers to what.",
     IC, "every list of valid feeds, in particular with overlapping or prefix-like ids; every combination of --keep options", T0 + "id clashes depend on the ids of all feeds together.",
     ["gtfstidy.go"], [("prefixing on parsing, restoring of ids", "gtfstidy.go: main")])

prop("P20", "Changes to stations leave every stop what it is",
     "--ensure-stop-parents gives exactly the stops without a station one of their own, of the same name and place, and changes no other stop. --drop-platform-for-parentless clears the platform codes of stops without a station and merges those that became equal by it. --fix-far-away-parents moves exactly the stations more than 100 m from one of their stops to the centre of their stops, if that is within 100 m of all of them. Stop ids stay unique, nothing else changes.",
     IN, "every valid feed with stations, platforms, entrances and boarding areas", T0 + "ids of new stations may be taken, and moves of one station influence others.",
     ["processors/stopparentenforcer.go", "processors/parentaverager.go", "processors/platformcodedropper.go"],
     [("stations for parentless stops", "processors/stopparentenforcer.go"), ("moving stations", "processors/parentaverager.go")])
prop("P21", "Grouping adjacent stop times keeps every call",
     "With --group-adj-stop-times consecutive stop times of a trip are joined exactly if they describe a vehicle waiting at one stop (same stop, arrival equal to the departure before, same distance and continuous pickup and drop-off); the joined call arrives and drops off like the first one and departs and picks up like the last one. Everything else stays as it is.",
     IN, "every valid feed", T0 + "runs of equal stops of any length, missing times and pickup types in any combination.",
     ["processors/adjstoptimegrouper.go"], [("grouping", "processors/adjstoptimegrouper.go")])
prop("P22", "Filters keep exactly what matches",
     "--date-start/--date-end keep exactly the trips active in the range, with exactly the dates inside it; -M/-N keep exactly the routes of the wanted types with their trips; bounding boxes and polygons keep exactly what lies inside, with --complete-filtered-trips whole trips and their stations; --drop-shapes and --drop-single-stop-trips drop just those. What refers to something dropped (transfers, attributions, pathways, fare rules) is dropped, everything else is unchanged.",
     IC, "every valid feed; every date range, set of route types, box, polygon (also with holes and several areas)", T0 + "filters interact with references between tables.",
     ["gtfstidy.go", "processors/completegeotripsfilter.go"], [("filter options", "gtfstidy.go: main"), ("complete trips", "processors/completegeotripsfilter.go")])
prop("P23", "Only trips that are too fast are dropped",
     "With --drop-too-fast-trips a trip is dropped if the distance between its stops and the scheduled times clearly exceed the speed limit of its mode of transport, and never if it does not; transfers and attributions of dropped trips go with them, and everything else is unchanged.",
     IN, "every valid feed; all route types, missing times, calls within the same minute", T0 + "the speed depends on runs of stops and missing times.",
     ["processors/toofasttripremover.go"], [("speed check", "processors/toofasttripremover.go")])

prop("P24", "The verdict on feeds and calls is right",
     "With -v the program says \"No errors.\" and exits with 0 exactly if all given feeds are valid; one flaw in any table of any of them - dangling references, values which cannot be used, duplicate ids, missing texts, a missing feed - gives a message and a non-zero exit status, and -D or -e do not hide it. Nothing is written in validation mode, after an error, after unusable options (dates, route types, areas, numbers), or to places which cannot be written, all of which give a message and a non-zero exit status. The inputs are never touched.",
     IC, "every feed with at most one flaw; every list of feeds; every option value", T0 + "the verdict has to be right for every flaw in every table.",
     ["gtfstidy.go"], [("validation mode, option parsing, error handling", "gtfstidy.go: main")],
     observe=["exit status, messages and files of a call"])
prop("P25", "Error tolerance drops or defaults exactly what is flawed",
     "With -D a row which cannot be used is dropped together with what depends on it, with -e the value of an optional field is replaced by its default, with -p missing mandatory texts are filled, with -n stops at (0, 0) are errors, with -z feeds in a folder inside of a ZIP file are read, and --fix means all of them. Everything that does not depend on the flaw is written unchanged. Without the option the call fails with a message and writes nothing.",
     IC, "every valid feed with one flaw in any table; every combination of the tolerance options", T0 + "the combination of flaw and options decides.",
     ["gtfstidy.go"], [("parse options, --fix", "gtfstidy.go: main")],
     observe=["exit status, messages and files of a call", "the feed written with -o, read back as CSV"])

prop("P26", "Reclustering only gives stops a common station",
     "With -E stops which are close to each other (75 m) and have similar names get a common station: an existing one, or a new one of the name of one of them at their centre. Stops of the same name within 30 m of each other, with nobody else around, are always joined; stops which are far apart or whose names share no word never are, unless through others. Stops of one station stay together and no stop loses its station; stops otherwise keep all their data, stations which disappear are replaced in transfers and pathways by the one which took over their stops, and nothing else changes.",
     IN, "every valid feed with stations, at any place, of any extent", T0 + "clusters are merged step by step with a priority queue and a grid; every order and extent matters.",
     ["processors/stopreclusterer.go", "processors/stopclusteridx.go", "processors/priorityqueue.go"],
     [("clustering", "processors/stopreclusterer.go: Run"), ("grid", "processors/stopclusteridx.go")])
prop("P27", "What an option removes does not remain in the output",
     "After a whole run with any combination of options the written feed is in the form the options ask for: no orphans with -O (when no later option splits services), no two equal agencies, routes, stops, levels, shapes, services or trips with -A, -R, -P, -S, -C and -I, no overlapping services, no exceptions with --remove-cal-dates, a calendar entry for each service with --explicit-calendar, a station for every stop with --ensure-stop-parents, no platform codes without a station with --drop-platform-for-parentless, no half-measured shapes with -m, no shapes with --drop-shapes.",
     IC, "every list of valid feeds; every combination of options", "Processors undo each other's work if they run in the wrong order or too seldom, which tests of single processors cannot see.",
     ["gtfstidy.go"], [("order and repetition of the processors", "gtfstidy.go: main")])
prop("P28", "Snapping moves a stop time to its place on the shape, and only when it lies off it",
     "With --snap-stops the stop of a stop time which lies more than 100 m away from the shape of its trip is replaced, in this stop time only, by a copy of the stop which lies on the shape: at the measured place if stop time and shape are measured, else at the nearest. The copy has a fresh id and all other data of the stop (additional fields with -F too). Stop times within 100 m, trips without a shape, the stops themselves and all other tables stay as they are.",
     IN, "every valid feed, every shape of a trip, measured or not", T0 + "the search for the place on the shape has border cases at each segment.",
     ["processors/shapesnapper.go"],
     [("snapping", "processors/shapesnapper.go: Run, snapTo")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p, _ in P:
        fh.write(json.dumps(p) + "\n")

LEVEL = ("TLC decides every recorded run of the real program against the TLA+ relation of the "
         "action; inputs are random feeds from VERIF_SEED, thorough explores about ten times as "
         "many. Assumes TLC, the CSV reader and the generators' coverage; judgement is exact "
         "for the explored runs, not a proof for all inputs.")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": "TLA+ specification, TLC trace validation of real runs",
                   "level": "model_checking", "level_note": n or LEVEL} for p, n in P],
       "not_applicable": [],
       "notes": "No hooks: the checks drive the unmodified command line program."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
