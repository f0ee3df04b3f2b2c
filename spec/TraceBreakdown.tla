----------------------------- MODULE TraceBreakdown -----------------------------
(* Events: "shards" (what each generator says about an object), "info" (a generator's shard      *)
(* count and names), "names" (C++ and Python names of a configuration), "subsets".               *)
EXTENDS Breakdown, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

ShardsV(e) ==
  Chk(e.shard = Shard(e.g, e.o), "shard of the object") \cup
  Chk(SeqToSet(e.match) = MatchShards(e.g, e.o) \/ (~GroundTruthOnly(e.g) /\ e.match = <<Shard(e.g, e.o)>>),
      "shards for matching") \cup
  Chk(Distinct(e.match), "shards for matching are distinct") \cup
  Chk(SeqToSet(e.inb) = {Shard(e.g, e.o)} \ {NONE} /\ Distinct(e.inb), "membership agrees with the shard")
InfoV(e) ==
  Chk(e.n = NumShards(e.g), "number of shards") \cup
  Chk(e.names = [s \in 1..NumShards(e.g) |-> ShardName(e.g, s - 1)], "shard names") \cup
  Chk(e.gtonly = GroundTruthOnly(e.g), "ground-truth-only flag") \cup Chk(e.id = e.g, "generator id")
NamesV(e) == Chk(e.cc = Names(e.cfg), "C++ names") \cup Chk(e.py = Names(e.cfg), "Python names")
SubsetsV(e) ==
  LET cut == IF e.gt THEN <<NONE>> ELSE e.cuts
      want == FlattenSeq([k \in DOMAIN e.gens |-> [s \in 1..NumShards(e.gens[k]) |->
                [g |-> k - 1, s |-> s - 1,
                 idx |-> [c \in DOMAIN cut |->
                    LET q == Subset(e.gens[k], s - 1, e.objs, e.det, cut[c])
                    IN [i \in DOMAIN q |-> q[i] - 1]]]]])
  IN Chk(Len(e.r) = Len(want), "one subset per shard") \cup
     Chk(Len(e.r) = Len(want) => \A i \in DOMAIN want : e.r[i].g = want[i].g /\ e.r[i].s = want[i].s,
         "subsets in generator and shard order") \cup
     Chk(Len(e.r) = Len(want) => \A i \in DOMAIN want : e.r[i].idx = want[i].idx,
         "subset has exactly the shard's objects above the cutoff, in order")
ResultsV(e) ==       \* breakdowns attached to the results of a metric computation
  LET sl == Slots(e.cfg)
  IN Chk(e.got = [i \in DOMAIN sl |-> <<sl[i].g, sl[i].s, sl[i].d>>], "results line up with names")
Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.ev = "shards" -> ShardsV(e) [] e.ev = "info" -> InfoV(e) [] e.ev = "names" -> NamesV(e)
         [] e.ev = "subsets" -> SubsetsV(e) [] e.ev = "results" -> ResultsV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
