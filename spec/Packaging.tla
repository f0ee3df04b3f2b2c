------------------------------- MODULE Packaging -------------------------------
(* Packaging predictions for submission. A prediction is [sc, nan, dims, rest]: score in millionths,  *)
(* how many of its seven box numbers are not numbers, length/width/height in 10^-7 m, and every other  *)
(* field (a token). A request has files (sequences of predictions, or readable = FALSE), n shards, a   *)
(* template with the metadata token meta and named = method and account are given.                     *)
EXTENDS VCommon
MinScore == 30000
MinDim == 10
Keeps(o) == o.sc >= MinScore /\ o.nan = 0
Drops(o) == o.sc < MinScore \/ o.nan > 0
Packaged(o) == [rest |-> o.rest, sc |-> o.sc, dims |-> [i \in 1..3 |-> MaxI(o.dims[i], MinDim)]]
AllOf(files) == FlattenSeq([i \in DOMAIN files |-> files[i].objs])
KeptOf(files) == LET a == SelectSeq(AllOf(files), Keeps) IN [i \in DOMAIN a |-> Packaged(a[i])]
Accepts(q) == /\ Len(q.files) > 0 /\ \A i \in DOMAIN q.files : q.files[i].readable
              /\ q.output /\ q.n >= 1 /\ q.template = "good"
Ceil(a, b) == (a + b - 1) \div b
(* no shard gets more than its share of the files' predictions *)
Share(files, n) == SumSeq([i \in DOMAIN files |-> Ceil(Len(files[i].objs), n)])
IsSubseq(s, t) ==  \* s in the order of t, everything in t distinct up to equality
   FoldLeft(LAMBDA at, x : IF at < 0 THEN at
                           ELSE LET c == {j \in (at + 1)..Len(t) : t[j] = x} IN IF c = {} THEN -1 ELSE Min(c), 0, s) >= 0
(* shards: what was written, each [meta, objs] *)
Conserved(files, shards) == SameBag(FlattenSeq([i \in DOMAIN shards |-> shards[i].objs]), KeptOf(files))
Even(files, shards) == \A i \in DOMAIN shards : Len(shards[i].objs) <= Share(files, Len(shards))
Ordered(files, shards) == \A i \in DOMAIN shards : IsSubseq(shards[i].objs, KeptOf(files))
Labelled(q, shards) == \A i \in DOMAIN shards : shards[i].meta = q.meta
=============================================================================
