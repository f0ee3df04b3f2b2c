----------------------------- MODULE MC_MotionBatch -----------------------------
(* The index arithmetic of motion batches: which agents have states, who is asked for, and the tracks  *)
(* the code builds while going through the agents.                                                   *)
EXTENDS Batch, Json
CONSTANTS A, M, N, Emit
VARIABLES valid, mask, index, at, ids, map, done
vars == <<valid, mask, index, at, ids, map, done>>
X == [valid |-> [a \in 1..A |-> <<valid[a]>>], mask |-> mask, index |-> index, id |-> [a \in 1..A |-> 100 * a], type |-> [a \in 1..A |-> 1],
      gt |-> [a \in 1..A |-> <<a>>], score |-> [m \in 1..M |-> <<m>>], pred |-> [m \in 1..M |-> <<[n \in 1..N |-> 10 * m + n]>>]]
Init == /\ valid \in [1..A -> BOOLEAN] /\ mask \in [1..M -> [1..N -> BOOLEAN]] /\ index \in [1..M -> [1..N -> 0..(A - 1)]]
        /\ at = 0 /\ ids = <<>> /\ map = [a \in 1..A |-> 0] /\ done = FALSE
Visit == /\ at < A /\ at' = at + 1
         /\ IF valid[at + 1] THEN ids' = Append(ids, 100 * (at + 1)) /\ map' = [map EXCEPT ![at + 1] = Len(ids) + 1] ELSE UNCHANGED <<ids, map>>
         /\ UNCHANGED <<valid, mask, index, done>>
Finish == at = A /\ ~done /\ done' = TRUE /\ UNCHANGED <<valid, mask, index, at, ids, map>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
SameTracks == done => ids = [i \in DOMAIN Tracks(X) |-> Tracks(X)[i].id]
SameMap == (done /\ Covered(X)) => \A i \in DOMAIN Asked(X) : map[AgentOf(X, Asked(X)[i])] = Required(X)[i] + 1
PredictionsKeepTheirAgents == (done /\ Covered(X)) => \A g \in DOMAIN Predictions(X) : \A k \in DOMAIN Predictions(X)[g] :
   \A j \in DOMAIN Predictions(X)[g][k].of : Predictions(X)[g][k].of[j].id \in SeqToSet(ids)
AsManyAsAsked == done => Len(Asked(X)) = SumSeq([g \in DOMAIN Predictions(X) |-> Len(Predictions(X)[g][1].of)])
PrintCase == (Emit /\ at = 0) => PrintT("@@C " \o ToJson([valid |-> valid, mask |-> mask, index |-> index]))
=============================================================================
