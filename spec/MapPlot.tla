--------------------------------- MODULE MapPlot ---------------------------------
(* Drawing a map. A map is a sequence of features [id, kind, type, pts]; drawing gives one line per   *)
(* feature with points, and the points of all features of one style as one cloud.                    *)
EXTENDS VCommon
Polygons == {"crosswalk", "speed_bump", "driveway"}
(* the style of a feature: its name, or "" when it is not drawn *)
LaneStyle == <<"UNKNOWN_FEATURE", "FREEWAY_LANE", "SURFACE_STREET_LANE", "BIKE_LANE">>
LineStyle == <<"UNKNOWN_FEATURE", "BROKEN_SINGLE_WHITE_BOUNDARY", "SOLID_SINGLE_WHITE_BOUNDARY", "SOLID_DOUBLE_WHITE_BOUNDARY",
               "BROKEN_SINGLE_YELLOW_BOUNDARY", "BROKEN_DOUBLE_YELLOW_BOUNDARY", "SOLID_SINGLE_YELLOW_BOUNDARY",
               "SOLID_DOUBLE_YELLOW_BOUNDARY", "PASSING_DOUBLE_YELLOW_BOUNDARY">>
EdgeStyle == <<"UNKNOWN_FEATURE", "ROAD_EDGE_BOUNDARY", "ROAD_EDGE_MEDIAN">>
StyleOf(kind, type) ==
  CASE kind = "lane" -> LaneStyle[type + 1]
    [] kind = "road_line" -> LineStyle[type + 1]
    [] kind = "road_edge" -> EdgeStyle[type + 1]
    [] kind = "stop_sign" -> "STOP_SIGN"
    [] kind = "crosswalk" -> "CROSSWALK"
    [] kind = "speed_bump" -> "SPEED_BUMP"
    [] kind = "driveway" -> "DRIVEWAY"
    [] OTHER -> ""
Styles == {"UNKNOWN_FEATURE", "STOP_SIGN", "CROSSWALK", "SPEED_BUMP", "DRIVEWAY"} \cup SeqToSet(LaneStyle) \cup SeqToSet(LineStyle) \cup SeqToSet(EdgeStyle)
Color(s) ==
  CASE s = "UNKNOWN_FEATURE" -> "black" [] s = "FREEWAY_LANE" -> "white" [] s = "SURFACE_STREET_LANE" -> "royalblue" [] s = "BIKE_LANE" -> "magenta"
    [] s \in {"BROKEN_SINGLE_WHITE_BOUNDARY", "SOLID_SINGLE_WHITE_BOUNDARY", "SOLID_DOUBLE_WHITE_BOUNDARY"} -> "lightgray"
    [] s \in {"BROKEN_SINGLE_YELLOW_BOUNDARY", "BROKEN_DOUBLE_YELLOW_BOUNDARY", "SOLID_SINGLE_YELLOW_BOUNDARY", "SOLID_DOUBLE_YELLOW_BOUNDARY",
              "PASSING_DOUBLE_YELLOW_BOUNDARY"} -> "yellow"
    [] s \in {"ROAD_EDGE_BOUNDARY", "ROAD_EDGE_MEDIAN"} -> "green"
    [] s = "STOP_SIGN" -> "red" [] s = "CROSSWALK" -> "orange" [] s = "SPEED_BUMP" -> "cyan" [] s = "DRIVEWAY" -> "blue"
Dash(s) == IF s \in {"BROKEN_SINGLE_WHITE_BOUNDARY", "BROKEN_SINGLE_YELLOW_BOUNDARY", "BROKEN_DOUBLE_YELLOW_BOUNDARY", "PASSING_DOUBLE_YELLOW_BOUNDARY"}
           THEN "dash" ELSE "solid"
Outline(f) == IF f.kind \in Polygons /\ f.pts # <<>> THEN Append(f.pts, f.pts[1]) ELSE f.pts
Drawn(f) == StyleOf(f.kind, f.type) # "" /\ f.pts # <<>>
LineFor(f) == LET s == StyleOf(f.kind, f.type) IN [pts |-> Outline(f), color |-> Color(s), dash |-> Dash(s)]
Lines(map) == LET d == SelectSeq(map, Drawn) IN [i \in DOMAIN d |-> LineFor(d[i])]
Cloud(map, s) == FoldLeft(LAMBDA acc, f : IF StyleOf(f.kind, f.type) = s THEN acc \o Outline(f) ELSE acc, <<>>, map)
Clouds(map) == {[name |-> s, pts |-> Cloud(map, s)] : s \in {x \in Styles : Cloud(map, x) # <<>>}}
=============================================================================
