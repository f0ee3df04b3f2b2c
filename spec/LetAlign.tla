-------------------------------- MODULE LetAlign ---------------------------------
(* Longitudinal-error-tolerant matching in the sensor's frame. P, G: centres of the prediction and  *)
(* of the ground truth, <<x, y, z>> integers; |G| is an integer. Tolerances: pct in 1/1000 of the    *)
(* range, least in 1/1000 length units.                                                             *)
EXTENDS Geometry
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Root(n) == CHOOSE k \in 0..n : k * k = n
IsSquare(n) == \E k \in 0..200 : k * k = n
RangeOf(G) == CHOOSE k \in 0..200 : k * k = Dot3(G, G)
Tolerance(G, pct, least) == MaxI(pct * RangeOf(G), least)              \* 1/1000 units
(* error along the ground truth's line of sight, times the range *)
LongErr(P, G) == AbsI(Dot3(P, G) - Dot3(G, G))
(* 10^6 at no error, falling linearly to 0 at the tolerance *)
Affinity(P, G, pct, least) ==
  LET r == RangeOf(G)
      T == Tolerance(G, pct, least)
  IN IF r = 0 THEN 1000000
     ELSE IF LongErr(P, G) * 1000 >= r * T THEN 0
     ELSE 1000000 - Ppm(LongErr(P, G) * 1000, r * T)
Modes == {"NOT", "RANGE", "CENTER", "FURTHER", "ANY_CLOSER", "BETWEEN"}
(* the multiple <<num, den>> of the prediction's centre that a mode moves it to; 1 = stays *)
Multiple(mode, P, G) ==
  LET n == Dot3(P, G)  d == Dot3(P, P)
      k == IF d = 0 THEN <<1, 1>> ELSE <<n, d>>      \* a prediction at the sensor stays there
      pulls == k[1] >= 0 /\ k[1] < k[2]               \* projection between sensor and prediction
  IN CASE mode = "RANGE" -> k
       [] mode = "FURTHER" -> IF pulls THEN k ELSE <<1, 1>>
       [] mode = "ANY_CLOSER" -> IF pulls THEN <<1, 1>> ELSE k
       [] mode = "BETWEEN" -> IF k[1] > k[2] THEN k ELSE <<1, 1>>
       [] mode = "NOT" -> <<1, 1>>
(* the aligned centre, in 1/1000 units (rounded down) *)
Aligned(mode, P, G) ==
  IF mode = "CENTER" THEN [i \in 1..3 |-> 1000 * G[i]]
  ELSE LET k == Multiple(mode, P, G) IN [i \in 1..3 |-> (1000 * P[i] * k[1]) \div k[2]]
(* aligned centre on the lattice? *)
OnLattice(mode, P, G) == mode = "CENTER" \/ LET k == Multiple(mode, P, G) IN \A i \in 1..3 : (P[i] * k[1]) % k[2] = 0
AlignedPoint(mode, P, G) == IF mode = "CENTER" THEN G ELSE LET k == Multiple(mode, P, G) IN [i \in 1..3 |-> (P[i] * k[1]) \div k[2]]
(* box b (as in Geometry) with its centre at p *)
At(b, p) == [b EXCEPT !.cx = p[1], !.cy = p[2], !.zc = 2 * p[3]]
=============================================================================
