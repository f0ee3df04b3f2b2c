------------------------------- MODULE MC_Tracking -------------------------------
(* Scenes' counters are added one scene and one cutoff at a time, then cutoffs are walked to find  *)
(* the operating point. Any walk order of scenes gives the same result.                            *)
EXTENDS Tracking, Json
CONSTANTS NS, NC, Top, Emit
VARIABLES scenes, todo, sum, at, best
vars == <<scenes, todo, sum, at, best>>
Cs == {[miss |-> a, fp |-> b, mm |-> d, match |-> m, gt |-> a + m, cost |-> m * 250000] :
        a \in 0..Top, b \in 0..Top, d \in 0..(Top - 1), m \in 0..Top}
Init == /\ scenes \in [1..NS -> [1..NC -> Cs]]
        /\ todo = 1..NS /\ sum = [c \in 1..NC |-> Zero] /\ at = 0 /\ best = 0
Add(s) == /\ s \in todo /\ todo' = todo \ {s}
          /\ sum' = [c \in 1..NC |-> AddC(sum[c], scenes[s][c])]
          /\ UNCHANGED <<scenes, at, best>>
Walk == /\ todo = {} /\ at < NC /\ at' = at + 1
        /\ best' = IF /\ sum[at + 1].gt > 0 /\ Good(sum[at + 1]) > 0
                      /\ (best = 0 \/ Better(sum[at + 1], sum[best])) THEN at + 1 ELSE best
        /\ UNCHANGED <<scenes, todo, sum>>
Next == Walk \/ \E s \in todo : Add(s)
Spec == Init /\ [][Next]_vars
OrderFree == todo = {} => \A c \in 1..NC, k \in DOMAIN Zero :
                sum[c][k] = SumOver(1..NS, LAMBDA s : scenes[s][c][k])
Conserved == \A c \in 1..NC : sum[c].gt = sum[c].match + sum[c].miss
WalkFindsPoint == at = NC => PointOk(sum, best)
LowestOnTies == (at = NC /\ best # 0) => best = Min(BestPoints(sum))
AtMostOne == at = NC /\ best # 0 => Good(sum[best]) <= sum[best].gt
PrintCase == (Emit /\ at = 0 /\ todo = 1..NS) => PrintT("@@C " \o ToJson(scenes))
=============================================================================
