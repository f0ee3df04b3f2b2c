---------------------------- MODULE TraceSegmentation ----------------------------
(* A trace is the history of one evaluator: u (points), r (reset), c (compute), or a merge of       *)
(* measurements, or one run of the command line tool over frames.                                   *)
EXTENDS Segmentation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, st
Same(e, inter, uni, unit) ==
  LET r == Ratios(inter, uni)
  IN Chk(e.inter = inter, "points where prediction and truth agree") \cup
     Chk(e.uni = uni, "points of the class in either") \cup
     Chk(Len(e.iou) = Len(r) /\ \A i \in DOMAIN r : Within(e.iou[i], r[i], 2), "overlap of each class") \cup
     Chk(e.n = Len(r), "one entry per evaluated class") \cup
     Chk(Within(e.miou, MeanOf(r), 3), "mean over the classes")
Judge(e, s) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.k = "u" -> Chk(e.ok = (Len(e.pd) = Len(e.gt)), "lengths must agree")
         [] e.k = "c" -> Same(e, Inters(s.M, s.cls), Unions(s.M, s.cls), 1)
         [] e.k = "merge" -> Same(e, SumOf(e.ins, Len(e.cls)), SumOf(e.uns, Len(e.cls)), 1)
         [] e.k = "tool" ->
              LET M == FoldLeft(LAMBDA acc, f : AddAll(acc, e.cls, f.pd, f.gt), Zero(e.cls), e.frames)
                  r == Ratios(Inters(M, e.cls), Unions(M, e.cls))
              IN Chk(e.iou = [i \in DOMAIN r |-> e.iou[i]] /\ \A i \in DOMAIN r : Within(e.iou[i], r[i], 3), "tool: overlap of each class") \cup
                 Chk(Within(e.miou, MeanOf(r), 4), "tool: mean over the classes")
         [] OTHER -> {}
After(e, s) ==
  CASE e.k = "new" -> [cls |-> e.cls, M |-> Zero(e.cls)]
    [] e.k = "r" -> [s EXCEPT !.M = Zero(s.cls)]
    [] e.k = "u" -> IF Len(e.pd) = Len(e.gt) THEN [s EXCEPT !.M = AddAll(s.M, s.cls, e.pd, e.gt)] ELSE s
    [] OTHER -> s
Init == l = 1 /\ bad = <<>> /\ st = [cls |-> <<>>, M |-> Zero(<<>>)]
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l], st)
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ st' = After(Trace[l], st)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad, st>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
