---------------------------- MODULE TraceConvertV2 ----------------------------
(* Events: kind; src - the fields set in the source row; got - "row", "nothing" or "refused"; count -  *)
(* rows made; row - the columns of the row; crash - another end.                                       *)
EXTENDS ConvertV2, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) ==
  LET o == Outcome(e.kind, e.src) IN
  Chk(e.crash = "", "no other end: " \o e.crash) \cup
  (IF e.got = "crash" THEN {} ELSE
  IF e.got = "row" THEN
       Chk(o # "nothing", "no row without the item") \cup Chk(o # "refused", "incomplete items are refused") \cup Chk(e.count = 1, "one row per item") \cup
       (IF o # "row" THEN {} ELSE
          LET w == Row(e.kind, e.src) IN
          Chk(DOMAIN w = DOMAIN e.row, "all columns") \cup
          Chk(\A c \in DOMAIN w \cap DOMAIN e.row : w[c] = e.row[c], "every column has the value of its field"))
  ELSE Chk(o = e.got, IF o = "row" THEN "a complete item gives a row" ELSE IF o = "refused" THEN "incomplete items are refused" ELSE "an item that is not there is skipped"))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
