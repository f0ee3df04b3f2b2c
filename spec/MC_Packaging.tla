------------------------------ MODULE MC_Packaging ------------------------------
(* The tool as a machine that takes one prediction at a time from the current file.                   *)
EXTENDS Packaging, Json
CONSTANTS MaxObjs, MaxFiles, Shards, Kinds, Emit
VARIABLES files, n, done, f, i, shards
vars == <<files, n, done, f, i, shards>>
Kind == [ok |-> [sc |-> 500000, nan |-> 0, dims |-> <<20000000, 3, 10>>], edge |-> [sc |-> 31000, nan |-> 0, dims |-> <<0, 0, 0>>],
         low |-> [sc |-> 29000, nan |-> 0, dims |-> <<1, 1, 1>>], nan |-> [sc |-> 900000, nan |-> 1, dims |-> <<5, 5, 5>>]]
Init == files = <<>> /\ n \in Shards /\ done = FALSE /\ f = 1 /\ i = 0 /\ shards = [s \in 1..n |-> [meta |-> "m", objs |-> <<>>]]
Total == Len(AllOf(files))
NewFile == ~done /\ Len(files) < MaxFiles /\ files' = Append(files, [readable |-> TRUE, objs |-> <<>>]) /\ UNCHANGED <<n, done, f, i, shards>>
NewObj(k) == /\ ~done /\ files # <<>> /\ Total < MaxObjs
             /\ files' = [files EXCEPT ![Len(files)].objs = Append(@, [rest |-> ToString(Total), sc |-> Kind[k].sc, nan |-> Kind[k].nan, dims |-> Kind[k].dims])]
             /\ UNCHANGED <<n, done, f, i, shards>>
Close == ~done /\ files # <<>> /\ done' = TRUE /\ UNCHANGED <<files, n, f, i, shards>>
Take == /\ done /\ f <= Len(files)
        /\ IF i >= Len(files[f].objs) THEN f' = f + 1 /\ i' = 0 /\ UNCHANGED shards
           ELSE /\ i' = i + 1 /\ f' = f
                /\ LET o == files[f].objs[i + 1] s == (i % n) + 1
                   IN shards' = IF Drops(o) THEN shards ELSE [shards EXCEPT ![s].objs = Append(@, Packaged(o))]
        /\ UNCHANGED <<files, n, done>>
Next == NewFile \/ (\E k \in Kinds : NewObj(k)) \/ Close \/ Take
Spec == Init /\ [][Next]_vars
Finished == done /\ f > Len(files)
ConservedAtEnd == Finished => Conserved(files, shards) /\ Ordered(files, shards)
EvenAlways == done => Even(files, shards)
NeverInvents == \A s \in 1..n : \A k \in DOMAIN shards[s].objs : shards[s].objs[k] \in SeqToSet(KeptOf(files))
EveryPredictionIsDecided == \A k \in DOMAIN AllOf(files) : Keeps(AllOf(files)[k]) = ~Drops(AllOf(files)[k])
GrowsOnly == [][\A s \in 1..n : IsPrefix(shards[s].objs, shards'[s].objs)]_vars
PrintCase == (Emit /\ done /\ f = 1 /\ i = 0) => PrintT("@@C " \o ToJson([files |-> files, n |-> n]))
=============================================================================
