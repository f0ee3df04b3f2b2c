--------------------------- MODULE TraceLatencyCheck ---------------------------
(* Events: the two object lists (in file order), thr, min and rc: accepted, rejected or neither;      *)
(* readable is FALSE when one of the files cannot be read.                                           *)
EXTENDS LatencyCheck, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) == IF ~e.readable THEN Chk(~e.accepted, "unreadable results are not accepted")
              ELSE LET o == Outcome(e.lat, e.full, e.thr, e.min)
                   IN Chk(~(e.accepted /\ o = {FALSE}), "differing results are rejected") \cup
                      Chk(~(~e.accepted /\ o = {TRUE}), "matching results are accepted")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
