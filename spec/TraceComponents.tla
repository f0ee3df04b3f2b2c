-------------------------- MODULE TraceComponents --------------------------
(* Events: one value x of type T; schema and cols as the code gives them; row: a row holding them among *)
(* other columns in some order; back: what is read from row; exc/rexc: exceptions ("" for none).       *)
EXTENDS Components, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) ==
  CASE e.k = "value" ->
         IF e.exc # "" THEN {"a component becomes columns"}
         ELSE Chk(e.schema = Schema(e.T), "the schema lists the columns and their types") \cup
              Chk(e.cols = Flatten(e.T, e.x), "the columns of a value") \cup
              Chk(e.after = e.x, "the value is left alone") \cup
              (IF Readable(e.T, e.row)
               THEN IF e.rexc # "" THEN {"a row with all columns is read"}
                    ELSE Chk(SameValue(e.T, e.back, Read(e.T, "", e.row)), "a row gives back the value")
               ELSE Chk(e.rexc # "", "a row without one of the columns is refused"))
    [] e.k = "kinds" ->                 \* declared columns of the dataset's own components
         Chk(e.exc = "", "declared types are readable") \cup
         Chk(\A i \in DOMAIN e.leaves : e.leaves[i].arrow # "None", "every column has a stored type") \cup
         Chk(\A i \in DOMAIN e.leaves : e.leaves[i].want = "" \/ e.leaves[i].want = e.leaves[i].kind, "stored types fit the declared ones")
    [] e.k = "set" -> Chk(Distinct(e.names), "no two components share a name") \cup
                      Chk(\A i, j \in DOMAIN e.cols : i # j => \A n \in SeqToSet(e.cols[i].own) : n \notin SeqToSet(e.cols[j].own), "own columns of a component are its own") \cup
                      Chk(\A i \in DOMAIN e.cols : SeqToSet(e.cols[i].key) # {}, "every component has a key")
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
