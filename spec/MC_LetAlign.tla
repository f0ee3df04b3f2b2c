------------------------------- MODULE MC_LetAlign -------------------------------
(* A prediction that drifts about a ground truth: every alignment mode and the affinity, at every   *)
(* relative position on a small lattice.                                                            *)
EXTENDS LetAlign, Json
CONSTANTS Reach, Emit
VARIABLES p, g, moves
vars == <<p, g, moves>>
Truths == {<<3, 0, 0>>, <<0, -2, 0>>, <<3, 4, 0>>, <<-4, 3, 0>>, <<1, 2, 2>>, <<2, -3, 6>>}
Tols == {<<100, 500>>, <<500, 0>>, <<1000, 3000>>}
Init == g \in Truths /\ p = g /\ moves = 0
Step(i, s) == p' = [p EXCEPT ![i] = @ + s]
Near == \A i \in 1..3 : AbsI(p'[i] - g[i]) <= Reach
Next == /\ \/ \E i \in 1..3, s \in {-1, 1} : Step(i, s)
           \/ p' = [i \in 1..3 |-> 2 * p[i]]
           \/ p' = [i \in 1..3 |-> -p[i]]
           \/ p' = <<0, 0, 0>>
        /\ moves' = MinI(moves + 1, 3) /\ UNCHANGED g
        /\ (Near \/ (moves < 2 /\ \A i \in 1..3 : AbsI(p'[i]) <= 9))
Spec == Init /\ [][Next]_vars
View == <<p, g>>
Dist2(a, b) == Dot3([i \in 1..3 |-> a[i] - b[i]], [i \in 1..3 |-> a[i] - b[i]])
Al(mode) == Aligned(mode, p, g)
Mid(m) == [i \in 1..3 |-> 1000 * m[i]]
OnSight == \A mode \in Modes \ {"CENTER"} : \A i, j \in 1..3 :
             Within(Al(mode)[i] * p[j], Al(mode)[j] * p[i], 2 * (AbsI(p[i]) + AbsI(p[j])))
(* no other point of the line of sight is closer to the ground truth than the range-aligned one *)
Closest == Dot3(p, p) # 0 =>
  LET k == Multiple("RANGE", p, g)
      d(num, den) == num * num * Dot3(p, p) - 2 * num * den * Dot3(p, g)   \* den^2 (|kP - G|^2 - |G|^2)
  IN \A n \in -6..6, q \in {1, 2} : d(k[1], k[2]) * q * q <= d(n, q) * k[2] * k[2]
Toward == LET k == Multiple("FURTHER", p, g) IN k[1] <= k[2] /\ k[1] >= 0
Outward == LET k == Multiple("BETWEEN", p, g) IN k[1] >= k[2]
NotInward == LET k == Multiple("ANY_CLOSER", p, g) IN k[1] >= k[2] \/ k[1] < 0
Covered == \A mode \in {"FURTHER", "ANY_CLOSER"} : Multiple(mode, p, g) \in {<<1, 1>>, Multiple("RANGE", p, g)}
AffRange == \A t \in Tols : Affinity(p, g, t[1], t[2]) \in 0..1000000
AffOne == \A t \in Tols : (Affinity(p, g, t[1], t[2]) = 1000000) <=> Dot3(p, g) = Dot3(g, g)
AffWider == Affinity(p, g, 500, 0) <= Affinity(p, g, 500, 4000) /\ Affinity(p, g, 500, 0) <= Affinity(p, g, 900, 0)
(* moving across the line of sight does not change the affinity, moving away from it lowers it *)
AffAlong == [][\A t \in Tols : (LongErr(p', g) >= LongErr(p, g)) => Affinity(p', g, t[1], t[2]) <= Affinity(p, g, t[1], t[2])]_vars
PrintCase == Emit => PrintT("@@C " \o ToJson([p |-> p, g |-> g]))
=============================================================================
