----------------------------- MODULE TracePackaging -----------------------------
(* Events: q - the request (files, n, template, output, meta), ok - exit status 0, shards - the files  *)
(* written in order, names - they are named output0 .. output(n-1) and nothing else was written.       *)
EXTENDS Packaging, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Good(e) == IF ~e.ok THEN {"a valid request is packaged"}
           ELSE Chk(e.names /\ Len(e.shards) = e.q.n, "as many shards as requested") \cup
                Chk(Conserved(e.q.files, e.shards), "every kept prediction exactly once, unchanged") \cup
                Chk(Ordered(e.q.files, e.shards), "predictions stay in order") \cup
                Chk(Even(e.q.files, e.shards), "predictions are spread over the shards") \cup
                Chk(Labelled(e.q, e.shards), "every shard carries the metadata")
Verdict(e) == IF Accepts(e.q) THEN Good(e) ELSE Chk(~e.ok, "an invalid request is refused")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
