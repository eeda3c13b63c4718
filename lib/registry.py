"""Which scenarios and models decide which property.

Section kinds:
  ("scope", function, runs quick, runs thorough)  a small scope enumerated by TLC
  ("gen", module, function, quick, thorough)  random scenarios, judged by TLC
  ("model", module, cfg, quick?)              exhaustive model checking of a design
"""

PROPS = {
    "P01": [("gen", "g_rich", "identity", 400, 6000), ("gen", "g_plain", "plain", 800, 10000)],
    "P02": [("gen", "g_pipeline", "sound", 1350, 18000),
            ("scope", "options_sound", 300, 20000),
            ("scope", "shape_options_sound", 100, 20000)],
    "P03": [("gen", "g_pipeline", "frames", 1350, 18000),
            ("scope", "options_frames", 300, 20000),
            ("scope", "shape_options_frames", 150, 20000)],
    "P04": [("model", "Design", "DesignQuick.cfg", ("quick", "thorough")),
            ("model", "Design", "DesignTwo.cfg", ("thorough",)),
            ("model", "Design", "DesignTrips.cfg", ("thorough",)),
            ("gen", "g_pipeline", "offer", 1350, 18000),
            ("scope", "options_offer", 300, 20000),
            ("scope", "tiny_offer", 200, 20000)],
    "P05": [("model", "Design", "Designc.cfg", ("thorough",)),
            ("gen", "g_calendar", "service_min", 600, 8000),
            ("gen", "g_rich", "service_min", 200, 2000),
            ("scope", "service_min", 40, 20000),
            ("scope", "tiny_c", 200, 20000)],
    "P06": [("model", "Design", "DesignC.cfg", ("thorough",)),
            ("gen", "g_rich", "service_dup", 600, 8000),
            ("gen", "g_rich", "service_dup0", 200, 2000),
            ("scope", "service_dup", 40, 20000),
            ("scope", "tiny_C", 200, 20000)],
    "P07": [("model", "Design", "DesignX.cfg", ("thorough",)),
            ("gen", "g_calendar", "cal_dates", 600, 8000),
            ("gen", "g_rich", "cal_dates", 200, 2000),
            ("scope", "cal_dates", 30, 20000),
            ("scope", "tiny_X", 200, 20000)],
    "P08": [("model", "Design", "DesignN.cfg", ("thorough",)),
            ("gen", "g_calendar", "non_overlap", 600, 8000),
            ("gen", "g_rich", "non_overlap", 200, 2000),
            ("scope", "non_overlap", 300, 20000),
            ("scope", "tiny_N", 200, 20000)],
    "P09": [("model", "Design", "DesignT.cfg", ("thorough",)),
            ("gen", "g_trips", "frequency", 800, 10000),
            ("gen", "g_rich", "frequency", 200, 2000),
            ("scope", "frequency", 90, 20000),
            ("scope", "tiny_T", 200, 20000)],
    "P10": [("model", "Design", "DesignI.cfg", ("thorough",)),
            ("gen", "g_trips", "trip_dup", 1000, 10000),
            ("gen", "g_rich", "trip_dup", 200, 2000),
            ("scope", "trip_dup", 80, 20000),
            ("scope", "tiny_I", 200, 20000)],
    "P11": [("model", "Design", "DesignO.cfg", ("thorough",)),
            ("gen", "g_cleanup", "orphan", 1000, 10000),
            ("scope", "orphan", 70, 20000),
            ("scope", "tiny_O", 200, 20000)],
    "P12": [("gen", "g_cleanup", "agency_dup", 600, 8000),
            ("gen", "g_rich", "agency_dup", 200, 2000),
            ("scope", "agency_dup", 10, 20000)],
    "P13": [("model", "Design", "DesignR.cfg", ("thorough",)),
            ("gen", "g_cleanup", "route_dup", 600, 8000),
            ("gen", "g_rich", "route_dup", 200, 2000),
            ("scope", "route_dup", 40, 20000),
            ("scope", "route_rules", 20, 20000),
            ("scope", "tiny_R", 200, 20000)],
    "P14": [("gen", "g_cleanup", "stop_dup", 1000, 10000),
            ("gen", "g_rich", "stop_dup", 200, 2000),
            ("scope", "stop_dup", 50, 20000)],
    "P15": [("gen", "g_shapes", "shape_dup", 600, 6000),
            ("gen", "g_shapes", "shape_dup_long", 300, 3000),
            ("gen", "g_rich", "shape_dup", 200, 2000),
            ("scope", "shape_dup", 40, 20000)],
    "P16": [("gen", "g_shapes", "shape_min", 800, 8000),
            ("gen", "g_rich", "shape_min", 200, 2000),
            ("scope", "shape_min", 40, 20000)],
    "P17": [("gen", "g_shapes", "shape_measure", 600, 6000),
            ("gen", "g_shapes", "stop_measure", 600, 6000),
            ("gen", "g_rich", "shape_measure", 100, 1000),
            ("gen", "g_rich", "stop_measure", 100, 1000),
            ("scope", "shape_measure", 10, 20000),
            ("scope", "stop_measure", 10, 20000)],
    "P18": [("gen", "g_ids", "id_min", 600, 6000)],
    "P19": [("gen", "g_ids", "merge", 600, 6000)],
    "P20": [("gen", "g_stations", "ensure_parents", 400, 4000),
            ("gen", "g_stations", "platform_drop", 400, 4000),
            ("gen", "g_stations", "far_parents", 600, 6000)],
    "P21": [("gen", "g_stations", "group_adj", 800, 8000),
            ("scope", "group_adj", 70, 20000)],
    "P22": [("gen", "g_filters", "date_filter", 500, 5000),
            ("gen", "g_filters", "mot_filter", 400, 4000),
            ("gen", "g_filters", "geo", 800, 8000),
            ("gen", "g_filters", "drops", 300, 3000),
            ("scope", "windows", 140, 20000)],
    "P23": [("gen", "g_filters", "too_fast", 800, 8000)],
    "P24": [("gen", "g_cli", "validate", 1000, 10000),
            ("gen", "g_cli", "misuse", 600, 4000)],
    "P25": [("gen", "g_cli", "tolerate", 1400, 14000)],
    "P26": [("gen", "g_stations", "recluster", 1400, 14000)],
    "P28": [("gen", "g_shapes", "snap", 1000, 10000)],
    "P27": [("gen", "g_pipeline", "normal", 1050, 14000),
            ("scope", "options_normal", 300, 20000)],
}
