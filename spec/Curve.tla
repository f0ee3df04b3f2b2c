--------------------------------- MODULE Curve ---------------------------------
(* Precision, recall, average precision and score cutoffs.                                        *)
EXTENDS VCommon

(* ---- average precision ------------------------------------------------------------------- *)
(* pts: sequence of <<recall, precision>>; recall in 1/ru, precision in 1/pu, step in 1/ru.       *)
(* The curve: at each recall the best precision there or at any higher recall; two neighbouring   *)
(* recalls further apart than the step get intermediate points (stepping down from the higher)    *)
(* that repeat the higher one's precision; below the lowest positive recall precision is flat.    *)
Recalls(pts) == {pts[i][1] : i \in DOMAIN pts} \cup {0}
Envelope(pts, r) == LET ps == {pts[i][2] : i \in {k \in DOMAIN pts : pts[k][1] >= r}}
                    IN IF ps = {} THEN 0 ELSE Max(ps \cup {0})
(* number of intermediate points between recalls hi > lo *)
Fill(hi, lo, step) == IF hi - lo > step THEN ((hi - lo - 1) \div step) ELSE 0
(* twice the area between lo and hi in 1/(ru*pu): flat at the envelope of hi over the filled part, *)
(* then a straight line to the envelope of lo                                                      *)
Piece(pts, hi, lo, step) ==
  LET ph == Envelope(pts, hi)
      pl == IF lo = 0 THEN ph ELSE Envelope(pts, lo)
      mid == hi - Fill(hi, lo, step) * step
  IN 2 * (hi - mid) * ph + (mid - lo) * (ph + pl)
AP2(pts, step) ==
  LET rs == SetToSortSeq(Recalls(pts), LAMBDA a, b : a > b)
  IN SumOver(1..(Len(rs) - 1), LAMBDA i : Piece(pts, rs[i], rs[i + 1], step))

(* ---- precision and recall from counts, in ppm; 0/0 is 0, no recall means full precision -------- *)
Ratio(a, b) == IF b <= 0 THEN 0 ELSE ((a * 1000) \div b) * 1000 + ((((a * 1000) % b) * 1000) \div b)
Recall(m) == Ratio(m.tp, m.tp + m.fn)
PlainPrecision(m, minp) == LET p == Ratio(m.tp, m.tp + m.fp)
                           IN IF m.tp = 0 THEN 1000000 ELSE IF p < minp THEN 0 ELSE p

(* ---- score cutoffs ---------------------------------------------------------------------------- *)
(* Even split: k buckets over n sorted scores, sizes differ by at most one, smaller ones first.    *)
BucketStart(n, k, i) ==     \* 0-based position of the first score of bucket i (0-based)
  LET q == n \div k  r == n % k IN i * q + MaxI(0, i - (k - r))
Clamp01(x) == MaxI(0, MinI(1000000, x))
Cutoffs(scores, n) ==
  IF n = 1 THEN <<0>>
  ELSE IF n >= Len(scores) THEN [i \in 1..n |-> ((i - 1) * 1000000) \div (n - 1)]
  ELSE [i \in 1..n |-> IF i = 1 THEN scores[1] ELSE IF i = n THEN 1000000
                       ELSE Clamp01(scores[BucketStart(Len(scores), n - 1, i - 1) + 1])]
=============================================================================
