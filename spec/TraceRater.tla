------------------------------- MODULE TraceRater --------------------------------
(* Events: score - one scene of a batch; fix - rated trajectories brought to their size; bad - inputs *)
(* that must be rejected; speed - thresholds over increasing speeds.                                 *)
EXTENDS Rater, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
AngleOk(got, d) == LET n == Len2(d) IN AbsI(got[1] * n - 10000 * d[1]) <= 3 * n /\ AbsI(got[2] * n - 10000 * d[2]) <= 3 * n
Close(a, b) == Within(a, b, 900)
Verdict(e) ==
  CASE e.k = "bad" -> Chk(e.exc = "ValueError", "inputs that do not fit are rejected")
    [] e.exc # "" -> {"accepted"}
    [] e.k = "score" ->
         LET s == e.s  rr == Rated(s)
         IN Chk(e.paths = [i \in 1..s.slots |-> rr[i].path] /\ e.labels = [i \in 1..s.slots |-> rr[i].label],
                "rated trajectories cut or padded with their last element") \cup
            Chk(Len(e.inside) = Len(s.preds), "one flag per prediction") \cup
            Chk(\A i \in 1..MinI(Len(e.inside), Len(s.preds)) : e.inside[i] = FullyInside(s, rr, s.preds[i]), "inside means both times inside one trajectory's region") \cup
            Chk(Close(e.score, Whole1(s, rr)), "best decayed rating, averaged over both times, floored outside, weighted by probability") \cup
            (IF ~e.vis THEN {} ELSE
              Chk(\A i \in 1..s.slots, k \in 1..2 : e.center[i][k] = rr[i].path[AtStep(k, s.freq)], "regions are centred on the rated waypoints") \cup
              Chk(\A k \in 1..2 : Within(e.width[k], 2 * Thresh(k, s.lng, s.speed), 2) /\ Within(e.height[k], 2 * Thresh(k, s.lat, s.speed), 2), "regions have their size") \cup
              Chk(\A i \in 1..s.slots, k \in 1..2 : AngleOk(e.angle[i][k], HeadingAt(rr[i].path, AtStep(k, s.freq))), "regions are turned along the heading"))
    [] e.k = "fix" -> Chk(e.paths = [i \in 1..e.slots |-> Fix(Slots(e.rated, e.slots)[i].path, e.n)]
                          /\ e.labels = [i \in 1..e.slots |-> Slots(e.rated, e.slots)[i].label], "rated trajectories cut or padded with their last element")
    [] e.k = "speed" -> Chk(\A i \in DOMAIN e.speeds, k \in 1..2 :
                               LET n == MaxI(4800, MinI(9600, 4800 + (e.speeds[i] - 1400) \div 2)) IN      \* of 9600, to 1/2
                               /\ AbsI(e.got[i].lat[k] - (Base(k) * e.lat * n) \div 960) <= 2 + (Base(k) * e.lat) \div 960
                               /\ AbsI(e.got[i].lng[k] - (Base(k) * e.lng * n) \div 960) <= 2 + (Base(k) * e.lng) \div 960, "thresholds grow with the initial speed between their bounds") \cup
                        Chk(\A i \in 2..Len(e.got), k \in 1..2 : e.got[i].lat[k] >= e.got[i - 1].lat[k] /\ e.got[i].lng[k] >= e.got[i - 1].lng[k], "monotone in the speed")
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
