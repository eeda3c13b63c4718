------------------------------ MODULE GtfsSpec ------------------------------
(* All actions of the program, by name. *)
EXTENDS Calendar, Trips, Cleanup, Shapes, Ids, Filters, Stations, Recluster, Pipeline, Snap, Cli, Plain, Frames

Identity(f, g) == [ n \in AllTables |-> TableSame(f, g, n) ]

Violated(act, args, f, g) ==
  Failing(CASE act = "Any" -> [any |-> TRUE]          \* judged elsewhere
            [] act = "Identity" -> Identity(f, g)
            [] act = "PlainRun" -> PlainRun(f, g, args)
            [] act = "ServiceMin" -> ServiceMin(f, g)
            [] act = "ServiceDup" -> ServiceDup(f, g)
            [] act = "CalDatesRem" -> CalDatesRem(f, g)
            [] act = "NonOverlap" -> NonOverlap(f, g)
            [] act = "FrequencyMin" -> FrequencyMin(f, g, args.minH, args.maxH)
            [] act = "TripDup" -> TripDup(f, g, args.fuzzy, args.aggressive)
            [] act = "Orphan" -> Orphan(f, g)
            [] act = "Snap" -> Snap(f, g)
            [] act = "Recluster" -> Recluster(f, g, args.words)
            [] act = "AgencyDup" -> AgencyDup(f, g)
            [] act = "RouteDup" -> RouteDup(f, g)
            [] act = "StopDup" -> StopDup(f, g, args.fuzzy)
            [] act = "ShapeMeasure" -> ShapeMeasure(f, g)
            [] act = "ShapeMin" -> ShapeMin(f, g)
            [] act = "ShapeDup" -> ShapeDup(f, g)
            [] act = "StopMeasure" -> StopMeasure(f, g)
            [] act = "IdMin" -> IdMin(f, g, args.base, args.keep)
            [] act = "Merge" -> Merge(f, g, args.others, args.prefix, args.keep, args.base)
            [] act = "TooFast" -> TooFast(f, g)
            [] act = "DateFilter" -> DateFilter(f, g, args.from, args.to)
            [] act = "MotFilter" -> MotFilter(AsRead(f, args.types, FALSE), g,
                                                 Range(args.only), Range(args.not))
            [] act = "GeoFilter" -> GeoFilter(f, g, args.areas)
            [] act = "GeoComplete" -> GeoComplete(f, g, args.areas)
            [] act = "DropShapes" -> DropShapes(f, g)
            [] act = "DropSingle" -> DropSingle(f, g)
            [] act = "EnsureParents" -> EnsureParents(f, g)
            [] act = "PlatformDrop" -> PlatformDrop(f, g, args.fuzzy)
            [] act = "FarParents" -> FarParents(f, g)
            [] act = "RunClean" -> RunClean(g, args)
            [] act = "RunNormal" -> RunNormal(g, args)
            [] act = "RunFrame" -> RunFrame(f, g, args)
            [] act = "Cli" -> Cli(f, g, args)
            [] act = "RunSame" -> RunSame(f, g, args)
            [] act = "GroupAdj" -> GroupAdj(f, g))
=============================================================================
