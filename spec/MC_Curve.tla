-------------------------------- MODULE MC_Curve --------------------------------
(* A list of operating points under reordering, duplication and improvement.                      *)
EXTENDS Curve, Json
CONSTANTS RU, PU, N, Steps, Emit
VARIABLES pts, step, act
vars == <<pts, step, act>>
Init == /\ pts \in UNION {[1..k -> (0..RU) \X (0..PU)] : k \in 0..N}
        /\ step \in Steps /\ act = "init"
Swap == \E i \in DOMAIN pts : i < Len(pts) /\
          pts' = [pts EXCEPT ![i] = pts[i + 1], ![i + 1] = pts[i]] /\ act' = "swap" /\ UNCHANGED step
Repeat == \E i \in DOMAIN pts : Len(pts) < N /\ pts' = Append(pts, pts[i]) /\ act' = "repeat" /\ UNCHANGED step
Improve == \E i \in DOMAIN pts : pts[i][2] < PU /\ pts' = [pts EXCEPT ![i][2] = @ + 1]
             /\ act' = "improve" /\ UNCHANGED step
Next == Swap \/ Repeat \/ Improve
Spec == Init /\ [][Next]_vars
View == <<pts, step>>

A(p, s) == AP2(p, s)
Unit == A(pts, step) \in 0..(2 * RU * PU)
OrderFree == [][(act' \in {"swap", "repeat"}) => A(pts', step') = A(pts, step)]_vars
Monotone == [][act' = "improve" => A(pts', step') >= A(pts, step)]_vars
(* with every step allowed the curve is the plain trapezoid envelope, which filling never lowers *)
FillConservative == A(pts, step) <= A(pts, RU)
(* full precision at full recall is a perfect score *)
Perfect == ((\E i \in DOMAIN pts : pts[i] = <<RU, PU>>) => A(pts, step) = 2 * RU * PU)
Bounded == A(pts, step) <= 2 * Max(Recalls(pts)) * PU
PrintCase == Emit /\ act = "init" => PrintT("@@C " \o ToJson([p |-> pts, s |-> step]))

(* even splits *)
ASSUME \A n \in 1..12 : \A k \in 1..n : \A i \in 0..(k - 1) :
   LET z == (IF i = k - 1 THEN n ELSE BucketStart(n, k, i + 1)) - BucketStart(n, k, i)
   IN z \in {n \div k, (n \div k) + 1} /\ (i = 0 => BucketStart(n, k, 0) = 0)
=============================================================================
