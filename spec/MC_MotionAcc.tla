------------------------------ MODULE MC_MotionAcc ------------------------------
(* Partial results of N scenarios are merged pairwise in any order. Each scenario contributes (sum,    *)
(* count) to some object types; whatever the order, what is left is the sum over all of them.          *)
EXTENDS VCommon, Json
CONSTANTS N, Emit
VARIABLES item, slot, dead, plan
Types == 0..4
Contribs == {[t \in Types |-> IF t = a THEN <<v, n>> ELSE IF t = b THEN <<5, 1>> ELSE <<0, 0>>] :
               a \in {1, 3}, b \in {1, 2}, v \in {0, 4}, n \in {0, 1}}
Plus(f, g) == [t \in Types |-> <<f[t][1] + g[t][1], f[t][2] + g[t][2]>>]
Init == item \in [1..N -> {CHOOSE c \in Contribs : TRUE}] /\ slot = item /\ dead = {} /\ plan = <<>>
Place == /\ plan = <<>> /\ dead = {} /\ slot = item
         /\ item' \in [1..N -> Contribs] /\ slot' = item' /\ UNCHANGED <<dead, plan>>
Merge(a, b) == /\ a # b /\ a \notin dead /\ b \notin dead
               /\ slot' = [slot EXCEPT ![b] = Plus(@, slot[a])]
               /\ dead' = dead \cup {a}
               /\ plan' = Append(plan, <<a, b>>)
               /\ UNCHANGED item
Next == Place \/ \E a, b \in 1..N : Merge(a, b)
Spec == Init /\ [][Next]_<<item, slot, dead, plan>>
Whole == FoldFunction(LAMBDA f, acc : Plus(f, acc), [t \in Types |-> <<0, 0>>], item)
Kept == SumOver(1..N \ dead, LAMBDA i : slot[i][1][1]) = SumOver(1..N, LAMBDA i : item[i][1][1])
Result == Len(plan) = N - 1 => \A i \in 1..N \ dead : slot[i] = Whole
PrintCase == (Emit /\ Len(plan) = N - 1 /\ \A i, k \in 1..N : item[i] = item[k]) => PrintT("@@C " \o ToJson(plan))
=============================================================================
