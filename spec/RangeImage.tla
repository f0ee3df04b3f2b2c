------------------------------- MODULE RangeImage -------------------------------
(* Range images of lidars and the points they stand for. Lengths are integers in 1/10000 m, angles of    *)
(* pixels are multiples of 15 degrees (1 means 15), turns are <<c, s>>, cosine and sine in fifths. A pose *)
(* [y, p, r, t] turns about x by r, then about y by p, then about z by y, and moves by t.                 *)
EXTENDS VCommon

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == TLCEval((lo + hi) \div 2) IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == LET k == TLCEval(n) IN ISqrtIn(k, 0, 46341)
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Rd(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))
(* cosine of k times 15 degrees in 1/10000 *)
C15 == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
Cos15(k) ==
  LET m == ((k % 24) + 24) % 24
      h == IF m > 12 THEN 24 - m ELSE m IN
  IF h <= 6 THEN C15[h + 1] ELSE -C15[13 - h]
Sin15(k) == Cos15(k - 6)

(* ---- poses ---------------------------------------------------------------------------------------- *)
Flip(a) == <<a[1], -a[2]>>
TurnZ(a, v) == <<Rd(a[1] * v[1] - a[2] * v[2], 5), Rd(a[2] * v[1] + a[1] * v[2], 5), v[3]>>
TurnY(a, v) == <<Rd(a[1] * v[1] + a[2] * v[3], 5), v[2], Rd(a[1] * v[3] - a[2] * v[1], 5)>>
TurnX(a, v) == <<v[1], Rd(a[1] * v[2] - a[2] * v[3], 5), Rd(a[2] * v[2] + a[1] * v[3], 5)>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Out(q, v) == Add(TurnZ(q.y, TurnY(q.p, TurnX(q.r, v))), q.t)                    \* from the frame of q
In(q, v) == TurnX(Flip(q.r), TurnY(Flip(q.p), TurnZ(Flip(q.y), Minus(v, q.t))))   \* to the frame of q

(* ---- pixels --------------------------------------------------------------------------------------- *)
(* columns go from behind, over the left, to behind, in the frame of the vehicle; the mount's heading is  *)
(* that of its x axis                                                                                    *)
Heading(q) == <<Sign(q.p[1]) * q.y[1], Sign(q.p[1]) * q.y[2]>>
ColumnAngle(c, W) == ((W - 2 * c + 1) * 12) \div W             \* c from 1; W divides 12
(* the unit vector of a column and an inclination, in the frame of the sensor *)
Ray(q, c, W, incl) ==
  LET a == ColumnAngle(c, W)
      h == Heading(q)
      x == Rd(Cos15(a) * h[1] + Sin15(a) * h[2], 5)
      y == Rd(Sin15(a) * h[1] - Cos15(a) * h[2], 5) IN
  <<Rd(x * Cos15(incl), 10000), Rd(y * Cos15(incl), 10000), Sin15(incl)>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
(* the point of a pixel in the vehicle's frame *)
Point(q, c, W, incl, range) == Out(q, Scale(range, Ray(q, c, W, incl)))
(* ... when the vehicle moved during the sweep: the pixel has its own pose in the world *)
PointMoved(q, c, W, incl, range, pix, veh) == In(veh, Out(pix, Point(q, c, W, incl, range)))
(* inclinations are listed from the lowest; rows go from the highest *)
RowIncl(incls, r) == incls[Len(incls) + 1 - r]

(* ---- the pixel of a point --------------------------------------------------------------------------- *)
(* columns (from 1) a vector with the vehicle's heading in sensor frame may be in: on a border, either    *)
OctantOf(x, y) ==      \* from the angle 180 downwards
  {k \in 1..8 :
     CASE k = 1 -> y >= 0 /\ x <= 0 /\ y <= -x
       [] k = 2 -> y >= 0 /\ x <= 0 /\ y >= -x
       [] k = 3 -> y >= 0 /\ x >= 0 /\ y >= x
       [] k = 4 -> y >= 0 /\ x >= 0 /\ y <= x
       [] k = 5 -> y <= 0 /\ x >= 0 /\ -y <= x
       [] k = 6 -> y <= 0 /\ x >= 0 /\ -y >= x
       [] k = 7 -> y <= 0 /\ x <= 0 /\ y <= x
       [] k = 8 -> y <= 0 /\ x <= 0 /\ y >= x}
Columns(q, p, W) ==      \* p in the sensor's frame; W divides 8
  LET h == Heading(q)
      x == h[1] * p[1] - h[2] * p[2]
      y == h[2] * p[1] + h[1] * p[2] IN
  {1 + ((k - 1) * W) \div 8 : k \in OctantOf(x, y)}
(* rows whose inclinations have their midpoints at 45, 0 and -45 degrees *)
Rows(kind, p) ==
  LET n2 == p[1] * p[1] + p[2] * p[2]
      z2 == p[3] * p[3]
      z == p[3] IN
  CASE kind = 1 -> {1}
    [] kind = 2 -> (IF z >= 0 THEN {1} ELSE {}) \cup (IF z <= 0 THEN {2} ELSE {})
    [] kind = 3 -> (IF z >= 0 /\ z2 >= n2 THEN {1} ELSE {}) \cup (IF z2 <= n2 THEN {2} ELSE {}) \cup (IF z <= 0 /\ z2 >= n2 THEN {3} ELSE {})
    [] kind = 4 -> (IF z >= 0 /\ z2 >= n2 THEN {1} ELSE {}) \cup (IF z >= 0 /\ z2 <= n2 THEN {2} ELSE {})
                   \cup (IF z <= 0 /\ z2 <= n2 THEN {3} ELSE {}) \cup (IF z <= 0 /\ z2 >= n2 THEN {4} ELSE {})
Norm2(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
=============================================================================
