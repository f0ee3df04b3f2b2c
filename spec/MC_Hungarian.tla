----------------------------- MODULE MC_Hungarian -----------------------------
(* Every weight matrix of a small shape; an assignment is improved by exchanges along one      *)
(* connected alternating path or cycle until none helps. Checks that this can only stop at a   *)
(* maximum (so "maximum weight" is what a local-exchange argument gives), that every state is  *)
(* a one-to-one assignment, and that weak duality holds. Prints every matrix for replay.       *)
EXTENDS Matching, Json
CONSTANTS N, M, Vals, Exchange, Emit
VARIABLES w, a
vars == <<w, a>>

Rows == [1..M -> Vals]
Init == /\ w \in [1..N -> Rows]
        /\ a = [i \in 1..N |-> 0]

Assignments == {x \in [1..N -> 0..M] : IsAssignment(x, N, M)}
Changed(x, y) == {i \in 1..N : x[i] # y[i]}
(* rows touched by one exchange form one chain: each shares a column with another *)
Connected(x, y) ==
  LET C == Changed(x, y)
      Cols(i) == ({x[i], y[i]} \ {0})
      Reach[S \in SUBSET C] ==
         LET T == S \cup {i \in C : \E k \in S : Cols(i) \cap Cols(k) # {}}
         IN IF T = S THEN S ELSE Reach[T]
  IN C # {} /\ Reach[{CHOOSE i \in C : TRUE}] = C

Improve == /\ Exchange
           /\ \E b \in Assignments : /\ Total(b, w) > Total(a, w)
                                     /\ Connected(a, b)
                                     /\ a' = b
           /\ UNCHANGED w
Next == Improve
Spec == Init /\ [][Next]_vars

OneToOne == IsAssignment(a, N, M)
Bounded == Total(a, w) <= Best(N, M, w)
OnlyStopsAtBest == Exchange => (~ENABLED Improve => Total(a, w) = Best(N, M, w))
PrintCase == Emit /\ (\A i \in 1..N : a[i] = 0) => PrintT("@@C " \o ToJson(w))
=============================================================================
