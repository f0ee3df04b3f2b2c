------------------------------ MODULE TraceJoin ------------------------------
(* Events: merge - tables a, b merged under opt; rows, cols: the table that came out; types: of shared  *)
(* number keys, as they were and as they came out.                                                       *)
EXTENDS Join, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) ==
  CASE e.k = "merge" ->
         LET m == Merge(e.a, e.b, e.opt)
         IN Chk(e.a1 = e.a /\ e.b1 = e.b, "the tables are left alone") \cup
            IF m.keys = <<>> THEN {}                       \* nothing shared: not a join this serves
            ELSE IF e.exc # "" THEN {"tables with a shared key are joined"}
            ELSE Chk(SameBag(e.cols, m.keys \o m.rest), "the columns of both tables") \cup
                 Chk(\A p \in SeqToSet(e.types) : p[1] = p[2], "shared keys keep their type") \cup
                 Chk(SeqToSet(e.rows) \subseteq SeqToSet(m.rows), "only rows of the join") \cup
                 Chk(SeqToSet(m.rows) \subseteq SeqToSet(e.rows), "all rows of the join") \cup
                 Chk(~(SeqToSet(m.rows) = SeqToSet(e.rows)) \/ SameBag(e.rows, m.rows), "as many rows as the join has")
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
