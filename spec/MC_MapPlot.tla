------------------------------- MODULE MC_MapPlot --------------------------------
(* A map drawn feature by feature.                                                                   *)
EXTENDS MapPlot, Json
CONSTANTS MaxFeatures, MaxPts, Kinds, Emit
VARIABLES map, lines, clouds
vars == <<map, lines, clouds>>
None == [s \in Styles |-> <<>>]
Init == map = <<>> /\ lines = <<>> /\ clouds = None
Types(k) == CASE k = "lane" -> 0..3 [] k = "road_line" -> 0..8 [] k = "road_edge" -> 0..2 [] OTHER -> {0}
Used == Len(FoldLeft(LAMBDA acc, f : acc \o f.pts, <<>>, map))
Draw(f) == /\ map' = Append(map, f)
           /\ lines' = IF Drawn(f) THEN Append(lines, LineFor(f)) ELSE lines
           /\ clouds' = IF Drawn(f) THEN [clouds EXCEPT ![StyleOf(f.kind, f.type)] = @ \o Outline(f)] ELSE clouds
Next == Len(map) < MaxFeatures /\ \E k \in Kinds : \E t \in Types(k) : \E n \in (IF k = "stop_sign" THEN {1} ELSE IF k = "none" THEN {0} ELSE 0..MaxPts) :
          Draw([id |-> Len(map), kind |-> k, type |-> t, pts |-> [i \in 1..n |-> <<Used + i, i, 0>>]])
Spec == Init /\ [][Next]_vars
Whole == lines = Lines(map) /\ Clouds(map) = {[name |-> s, pts |-> clouds[s]] : s \in {x \in Styles : clouds[x] # <<>>}}
NothingLost == SumSeq([i \in DOMAIN lines |-> Len(lines[i].pts)]) = SumOver(Styles, LAMBDA s : Len(clouds[s]))
OneLineEach == Len(lines) = CountIn(map, LAMBDA f : f.pts # <<>> /\ f.kind # "none")
Closed == \A i \in DOMAIN map : map[i].kind \in Polygons /\ map[i].pts # <<>> => Outline(map[i])[Len(Outline(map[i]))] = map[i].pts[1]
StylesTold == \A i \in DOMAIN lines : lines[i].color # "" /\ lines[i].dash \in {"solid", "dash"}
PrintCase == (Emit /\ Len(map) = MaxFeatures) => PrintT("@@C " \o ToJson([map |-> map]))
=============================================================================
