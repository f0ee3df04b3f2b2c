------------------------------- MODULE MC_Greedy -------------------------------
(* The score-first rule as a transition system: one action per prediction considered. Checks   *)
(* one-to-one, that a processed prediction never loses its match, that GreedyExplains accepts   *)
(* exactly what the rule can produce (both directions), and prints every case with ties.        *)
EXTENDS Matching, Json
CONSTANTS N, M, Vals, Scores, Thr, Emit
VARIABLES w, sc, st
vars == <<w, sc, st>>
Init == /\ w \in [1..N -> [1..M -> Vals]]
        /\ sc \in [1..N -> Scores]
        /\ st = GreedyInit(N)
Ok == [i \in 1..N |-> [j \in 1..M |-> w[i][j] >= Thr]]
Consider(i) == /\ i \in GreedyTop(st.left, sc)
               /\ \E j \in GreedyChoices(i, st.m, M, Ok, w) :
                     st' = [m |-> [st.m EXCEPT ![i] = j], left |-> st.left \ {i}]
               /\ UNCHANGED <<w, sc>>
Next == \E i \in 1..N : Consider(i)
Spec == Init /\ [][Next]_vars

OneToOne == IsAssignment(st.m, N, M)
(* the reported result of every complete run is explained *)
Complete == st.left = {} => GreedyExplains(GreedyInit(N), st.m, M, Ok, w, sc)
(* a higher-scored prediction is never left with a worse free choice than a lower-scored one took *)
Priority == \A i, k \in (1..N) \ st.left :
   (sc[i] > sc[k] /\ st.m[k] # 0 /\ Ok[i][st.m[k]]) =>
       (st.m[i] # 0 /\ w[i][st.m[i]] >= w[i][st.m[k]])
Stable == [][\A i \in (1..N) \ st.left : st'.m[i] = st.m[i]]_vars
(* conversely, nothing else is explained: at the end, compare with all assignments *)
Tight == st.left = 1..N =>
   \A x \in {y \in [1..N -> 0..M] : IsAssignment(y, N, M)} :
      GreedyExplains(GreedyInit(N), x, M, Ok, w, sc) =>
         /\ \A i \in 1..N : x[i] # 0 => Ok[i][x[i]]
         /\ \A i, k \in 1..N : (sc[i] > sc[k] /\ x[k] # 0 /\ Ok[i][x[k]]) =>
               (x[i] # 0 /\ w[i][x[i]] >= w[i][x[k]])
         /\ \A i \in 1..N : x[i] = 0 => \A j \in 1..M : Ok[i][j] => j \in GreedyTaken(x)
PrintCase == Emit /\ st.left = 1..N => PrintT("@@C " \o ToJson([w |-> w, s |-> sc]))
=============================================================================
