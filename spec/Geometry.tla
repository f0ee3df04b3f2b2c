-------------------------------- MODULE Geometry --------------------------------
(* Overlap of convex polygons and boxes, in exact arithmetic on a small lattice.                  *)
(* A point is <<x, y>>; a polygon a sequence of corners counter-clockwise.                         *)
(* A box b: centre cx, cy; axis direction (p, q); half axes m*(p,q) and n*(-q,p); zc = twice the   *)
(* centre height, h = height.                                                                      *)
EXTENDS VCommon

Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Nxt(P, i) == P[(i % Len(P)) + 1]
EdgeOf(P, i) == Sub2(Nxt(P, i), P[i])
Twice(P) == SumOver(DOMAIN P, LAMBDA i : Cross2(P[i], Nxt(P, i)))        \* twice the area

Corners(b) ==
  LET a == <<b.m * b.p, b.m * b.q>>  w == <<-(b.n * b.q), b.n * b.p>>
  IN << <<b.cx - a[1] - w[1], b.cy - a[2] - w[2]>>, <<b.cx + a[1] - w[1], b.cy + a[2] - w[2]>>,
        <<b.cx + a[1] + w[1], b.cy + a[2] + w[2]>>, <<b.cx - a[1] + w[1], b.cy - a[2] + w[2]>> >>
(* the axis-aligned reading ignores the direction *)
Upright(b) == [b EXCEPT !.p = 1, !.q = 0]

(* ---- closed convex polygon membership -------------------------------------------------------- *)
Side(Q, j, x) == Cross2(EdgeOf(Q, j), Sub2(x, Q[j]))
InsideClosed(Q, x) == \A j \in DOMAIN Q : Side(Q, j, x) >= 0
InsideOpen(Q, x) == \A j \in DOMAIN Q : Side(Q, j, x) > 0

(* ---- the part of edge i of P inside Q, as parameters lo <= hi in [0, 1] (fractions <<n, d>>) -- *)
FLe(a, b) == a[1] * b[2] <= b[1] * a[2]
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
(* own: the polygon that also owns shared boundary pieces running the same way *)
ClipEdge(P, i, Q, own) ==
  LET e == EdgeOf(P, i)
      step(acc, j) ==
        LET f == EdgeOf(Q, j)
            c0 == Cross2(f, Sub2(P[i], Q[j]))
            ce == Cross2(f, e)
        IN IF ce = 0 THEN (IF c0 < 0 \/ (c0 = 0 /\ (~own \/ Dot2(e, f) < 0)) THEN [acc EXCEPT !.out = TRUE] ELSE acc)
           ELSE IF ce > 0 THEN [acc EXCEPT !.lo = FMax(@, <<-c0, ce>>)]
           ELSE [acc EXCEPT !.hi = FMin(@, <<c0, -ce>>)]
      r == FoldLeft(step, [lo |-> <<0, 1>>, hi |-> <<1, 1>>, out |-> FALSE], [j \in DOMAIN Q |-> j])
  IN IF r.out \/ FLe(r.hi, r.lo) THEN [lo |-> <<0, 1>>, hi |-> <<0, 1>>] ELSE [lo |-> r.lo, hi |-> r.hi]
(* (num/den) in 1/10000, rounded down, without overflow for |num| < 2^31/1 and den < 2*10^5 *)
Scaled(num, den) == (num \div den) * 10000 + (((num % den) * 1000) \div den) * 10
                      + ((((num % den) * 1000) % den) * 10) \div den
Piece(P, i, Q, own) ==
  LET c == ClipEdge(P, i, Q, own)
      n == c.hi[1] * c.lo[2] - c.lo[1] * c.hi[2]
      d == c.hi[2] * c.lo[2]
  IN IF n = 0 THEN 0 ELSE Scaled(Cross2(P[i], EdgeOf(P, i)) * n, d)
(* twice the area of the intersection of two convex polygons in 1/10000 (boundary integral) *)
Shift(P, o) == [i \in DOMAIN P |-> Sub2(P[i], o)]
Inter2(P0, Q0) ==
  LET P == Shift(P0, P0[1])  Q == Shift(Q0, P0[1])
  IN MaxI(0, SumOver(DOMAIN P, LAMBDA i : Piece(P, i, Q, TRUE)) + SumOver(DOMAIN Q, LAMBDA j : Piece(Q, j, P, FALSE)))
(* do the interiors meet? exact: no separating edge line *)
Separated(P, Q) == \/ \E i \in DOMAIN P : \A j \in DOMAIN Q : Side(P, i, Q[j]) <= 0
                   \/ \E j \in DOMAIN Q : \A i \in DOMAIN P : Side(Q, j, P[i]) <= 0
Covers(P, Q) == \A j \in DOMAIN Q : InsideClosed(P, Q[j])

(* ---- overlap ratio in ppm: long division, a <= b < 2*10^8 ------------------------------------- *)
RECURSIVE Digits(_, _, _)
Digits(a, b, k) == IF k = 0 THEN 0
                   ELSE ((a * 10) \div b) * (10 ^ (k - 1)) + Digits((a * 10) % b, b, k - 1)
Ppm(a, b) == IF b <= 0 THEN 0 ELSE IF a >= b THEN 1000000 ELSE Digits(a, b, 6)

ZSpan(a, b) == MaxI(0, MinI(a.zc + a.h, b.zc + b.h) - MaxI(a.zc - a.h, b.zc - b.h))    \* twice
FlatIoU(P, Q) == IF Separated(P, Q) THEN 0
                 ELSE LET i == Inter2(P, Q) IN Ppm(i, (Twice(P) + Twice(Q)) * 10000 - i)
SolidIoU(P, a, Q, b) ==
  IF Separated(P, Q) \/ ZSpan(a, b) = 0 THEN 0
  ELSE LET i == Inter2(P, Q) * ZSpan(a, b)
       IN Ppm(i \div 10, (2 * a.h * Twice(P) + 2 * b.h * Twice(Q)) * 1000 - i \div 10)
Degenerate(b) == b.odd           \* a dimension at most a centimetre or at least 10^6 m
IoU(kind, a, b) ==
  IF Degenerate(a) \/ Degenerate(b) THEN 0
  ELSE CASE kind = "2D" -> FlatIoU(Corners(a), Corners(b))
         [] kind = "AA" -> FlatIoU(Corners(Upright(a)), Corners(Upright(b)))
         [] kind = "3D" -> SolidIoU(Corners(a), a, Corners(b), b)
SameShape(kind, a, b) ==
  LET U(x) == IF kind = "AA" THEN Upright(x) ELSE x
  IN SeqToSet(Corners(U(a))) = SeqToSet(Corners(U(b))) /\ (kind = "3D" => a.zc = b.zc /\ a.h = b.h)
Disjoint(kind, a, b) ==
  LET U(x) == IF kind = "AA" THEN Upright(x) ELSE x
  IN Separated(Corners(U(a)), Corners(U(b))) \/ (kind = "3D" /\ ZSpan(a, b) = 0)
=============================================================================
