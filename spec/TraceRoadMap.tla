------------------------------ MODULE TraceRoadMap ------------------------------
(* Events. "edge": edges (points; q a scale in quarters), boxes[o][t], valid, judged; got[e][t] in 1/100, *)
(* refused. "light": lanes, signals[t], xy[o][t], valid, judged; got[e][t]; refused.                     *)
EXTENDS RoadMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Nothing == -1000000000
Judged(e) == SelectSeq([i \in DOMAIN e.valid |-> i], LAMBDA i : e.judged[i])
Shape(e) == Len(e.got) = Len(Judged(e)) /\ \A k \in DOMAIN e.got : Len(e.got[k]) = Len(e.valid[1])
(* ends less than a metre apart are joined; edges of fewer than two points are no edges *)
Closed(p, q) == LET a == p[1] b == p[Len(p)] IN
  ((a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])) * q * q < 16
EdgesOf(e) == LET k == SelectSeq(e.edges, LAMBDA p : Len(p) >= 2) IN [i \in DOMAIN k |-> [pts |-> k[i], closed |-> Closed(k[i], e.q)]]
Edge1(e) ==
  IF e.edges = <<>> THEN Chk(e.refused, "no map is refused")
  ELSE LET J == TLCEval(Judged(e))
           E == TLCEval(EdgesOf(e)) IN
    Chk(~e.refused, "maps are accepted") \cup
    (IF e.refused THEN {} ELSE
     Chk(Shape(e), "one figure per object and step") \cup
     (IF ~Shape(e) THEN {} ELSE
      Chk(\A k \in DOMAIN J : \A t \in DOMAIN e.valid[1] :
            IF e.valid[J[k]][t] THEN Fits(e.got[k][t], e.boxes[J[k]][t], E, 2) ELSE e.got[k][t] = Nothing, "distance to the road edge")))
Light1(e) ==
  IF e.lanes = <<>> \/ e.signals = <<>> THEN Chk(e.refused, "no map is refused")
  ELSE LET J == TLCEval(Judged(e)) IN
    Chk(~e.refused, "maps are accepted") \cup
    (IF e.refused THEN {} ELSE
     Chk(Shape(e), "one figure per object and step") \cup
     (IF ~Shape(e) THEN {} ELSE
      Chk(\A k \in DOMAIN J : \A t \in DOMAIN e.valid[1] :
            LET o == J[k] IN
            IF t = 1 \/ ~e.valid[o][t] THEN ~e.got[k][t]
            ELSE ~e.valid[o][t - 1] \/ e.got[k][t] \in Violations(e.xy[o][t - 1], e.xy[o][t], e.lanes, e.signals[t]), "red light violations")))
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE CASE e.t = "edge" -> Edge1(e) [] e.t = "light" -> Light1(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
