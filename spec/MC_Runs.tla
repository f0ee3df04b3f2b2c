------------------------------ MODULE MC_Runs ------------------------------
(* Runs of models one after the other over parts of a small data set, frame by frame in any order,  *)
(* each of which may be given up at any point.                                                      *)
EXTENDS Runs, Json
CONSTANTS Contexts, Times_, MaxRuns, Emit
VARIABLES done, now, left, res, took
AllKeys == Contexts \X Times_
Objs(m, k) == IF m = 1 THEN <<[box |-> <<0, 0, 0, 1000, 1000, 1000, 0>>, cls |-> 1, score |-> 500]>>
              ELSE IF m = 2 THEN << >>
              ELSE <<[box |-> <<0, 0, 0, 1000, 5, 1000, 0>>, cls |-> 1, score |-> 500], [box |-> <<0, 0, 0, 2000, 50, 1000, 0>>, cls |-> 2, score |-> 31]>>
Entry(m, k) == [objs |-> Objs(m, k), fields |-> <<"POSE">>, two |-> FALSE]
Init == done = << >> /\ now = 0 /\ left = {} /\ res = NoResults /\ took = 0
Start == /\ now = 0 /\ Len(done) < MaxRuns
         /\ \E m \in 1 .. 3, ks \in SUBSET AllKeys : now' = m /\ left' = ks /\ took' = 0 /\ done' = Append(done, [m |-> m, keys |-> ks, all |-> TRUE])
         /\ UNCHANGED res
Process == /\ now > 0
           /\ \E k \in left : left' = left \ {k} /\ res' = [j \in DOMAIN res \cup {k} |-> IF j = k THEN Entry(now, k) ELSE res[j]]
           /\ took' = took + 1 /\ UNCHANGED <<now, done>>
(* the run ends; one that is given up has only done the frames it got to *)
End == /\ now > 0 /\ now' = 0 /\ left' = {}
       /\ done' = [done EXCEPT ![Len(done)] = [@ EXCEPT !.keys = @ \ left, !.all = left = {}]]
       /\ UNCHANGED <<res, took>>
Next == Start \/ Process \/ End
Spec == Init /\ [][Next]_<<done, now, left, res, took>>
RECURSIVE Listed(_, _)
Listed(ks, m) == IF ks = {} THEN << >> ELSE LET k == CHOOSE x \in ks : TRUE IN <<[c |-> k[1], ts |-> k[2], objs |-> Objs(m, k)]>> \o Listed(ks \ {k}, m)
Runs_ == [i \in DOMAIN done |-> [frames |-> Listed(IF i = Len(done) THEN done[i].keys \ left ELSE done[i].keys, done[i].m), fields |-> <<"POSE">>, two |-> FALSE]]
Folds == res = AfterAll(Runs_, Len(Runs_))
OneEach == now = 0 /\ done # << >> => took = Cardinality(done[Len(done)].keys)
OwnFrames == \A row \in Rows(res) : <<row[1], row[2]>> \in DOMAIN res /\ Times(res, row) > 0
LastWins == \A k \in DOMAIN res : \E i \in DOMAIN done : res[k] = Entry(done[i].m, k) /\ \A j \in i + 1 .. Len(done) : k \notin (IF j = Len(done) THEN done[j].keys \ left ELSE done[j].keys)
PrintCase == (Emit /\ now = 0 /\ Len(done) = MaxRuns /\ took = Cardinality(done[Len(done)].keys)) => PrintT("@@C " \o ToJson([runs |-> [i \in DOMAIN done |-> [m |-> done[i].m, keys |-> done[i].keys]]]))
=============================================================================
