-------------------------------- MODULE TraceLet ---------------------------------
(* "let": one prediction/ground truth pair about a sensor, evaluated by the code in a placement.    *)
(* The reported aligned box was brought back to the lattice frame (centre in 1/1000 units).         *)
EXTENDS LetAlign, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
LetV(e) ==
  LET want == Affinity(e.P, e.G, e.pct, e.least)
      al == Aligned(e.mode, e.P, e.G)
      gb == At(e.gb, e.G)
  IN Chk(Within(e.aff, want, 5), "affinity") \cup
     Chk(e.aff2 = e.aff, "affinity function agrees") \cup
     Chk(\A i \in 1..3 : Within(e.al[i], al[i], 2), "aligned centre") \cup
     Chk(e.samebox, "size and heading are left alone") \cup
     Chk(Within(e.iou, e.plain, 3) /\ Within(e.iou2, e.iou, 0), "tolerant overlap is the overlap of the aligned prediction") \cup
     Chk(e.mode = "NOT" => Within(e.iou, e.unaligned, 3), "no alignment: plain overlap") \cup
     Chk(OnLattice(e.mode, e.P, e.G) =>
           Within(e.iou, IoU(e.kind, At(e.pb, AlignedPoint(e.mode, e.P, e.G)), gb), 25), "overlap at the aligned place")
Verdict(e) == IF e.crash # "" THEN {"no crash or hang"} ELSE LetV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
