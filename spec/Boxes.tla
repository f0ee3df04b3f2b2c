-------------------------------- MODULE Boxes --------------------------------
(* Upright boxes, the points in them, the frames they are seen from, and the rays that hit them.   *)
(* Lengths are integers (1/8 m). A turn is <<cos, sin>> in fifths; a box is [c, s, h]: centre,     *)
(* size (length, width, height) and heading. A pose is [r, d, t]: a rotation matrix in d-ths and a *)
(* place. Two numbers instead of three are boxes seen from above.                                  *)
EXTENDS VCommon
Deg0 == <<5, 0>>
(* a point in the frame of a box, in fifths of the unit *)
Local(b, p) ==
  LET dx == p[1] - b.c[1]
      dy == p[2] - b.c[2]
      at == <<b.h[1] * dx + b.h[2] * dy, b.h[1] * dy - b.h[2] * dx>> IN
  IF Len(p) = 2 THEN at ELSE at \o <<5 * (p[3] - b.c[3])>>
(* and back *)
World(b, q) ==
  LET at == <<b.h[1] * q[1] - b.h[2] * q[2] + 5 * b.c[1], b.h[1] * q[2] + b.h[2] * q[1] + 5 * b.c[2]>> IN
  IF Len(q) = 2 THEN at ELSE at \o <<5 * (q[3] + b.c[3])>>
(* the border belongs to a box; a box without an extent has no inside; slack in tenths of the unit *)
Solid(b) == \A i \in DOMAIN b.s : b.s[i] # 0
Within3(b, p, slack) == Solid(b) /\ LET q == Local(b, p) IN \A i \in DOMAIN q : 2 * AbsI(q[i]) <= 5 * b.s[i] + slack
Inside(b, p) == Within3(b, p, 0)
(* bottom before top; each from the front left counter-clockwise; in tenths of the unit *)
Signs == << <<1, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>> >>
Corner(b, k) ==
  LET g == Signs[((k - 1) % 4) + 1]
      x == g[1] * b.s[1]
      y == g[2] * b.s[2] IN
  <<10 * b.c[1] + b.h[1] * x - b.h[2] * y, 10 * b.c[2] + b.h[2] * x + b.h[1] * y, 10 * b.c[3] + (IF k <= 4 THEN -5 ELSE 5) * b.s[3]>>
(* matrices *)
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Mul(a, b) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> Dot3(a[i], Col(b, j))]]
App(m, p) == [i \in 1 .. 3 |-> Dot3(m[i], p)]
Turned3(m) == [i \in 1 .. 3 |-> Col(m, i)]
Plus3(a, b) == [i \in 1 .. 3 |-> a[i] + b[i]]
Times(k, a) == [i \in 1 .. 3 |-> k * a[i]]
RotX(h) == << <<5, 0, 0>>, <<0, h[1], -h[2]>>, <<0, h[2], h[1]>> >>
RotY(h) == << <<h[1], 0, h[2]>>, <<0, 5, 0>>, <<-h[2], 0, h[1]>> >>
RotZ(h) == << <<h[1], -h[2], 0>>, <<h[2], h[1], 0>>, <<0, 0, 5>> >>
(* roll first, then pitch, then yaw; in 125ths *)
RollPitchYaw(r, p, y) == Mul(RotZ(y), Mul(RotY(p), RotX(r)))
(* out of a frame, in d-ths; from one frame to another, in (from.d * to.d)-ths *)
Out(f, p) == Plus3(App(f.r, p), Times(f.d, f.t))
Across(f, t, p) == App(Turned3(t.r), Plus3(Out(f, p), Times(-f.d, t.t)))
AcrossTurn(f, t) == LET m == Mul(Turned3(t.r), f.r) IN <<m[1][1], m[2][1]>>
TurnBy(h, w) == <<h[1] * w[1] - h[2] * w[2], h[1] * w[2] + h[2] * w[1]>>
(* rays: place o, direction d, box of size s around the origin; times are fractions with a positive denominator *)
Frac(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
FLess(a, b) == a[1] * b[2] < b[1] * a[2]
Moving(d) == {i \in 1 .. 3 : d[i] # 0}
EnterAt(o, d, s, i) == IF d[i] > 0 THEN Frac(-s[i] - 2 * o[i], 2 * d[i]) ELSE Frac(s[i] - 2 * o[i], 2 * d[i])
LeaveAt(o, d, s, i) == IF d[i] > 0 THEN Frac(s[i] - 2 * o[i], 2 * d[i]) ELSE Frac(-s[i] - 2 * o[i], 2 * d[i])
Greatest(F) == CHOOSE f \in F : \A g \in F : ~FLess(f, g)
Smallest(F) == CHOOSE f \in F : \A g \in F : ~FLess(g, f)
Enter(o, d, s) == Greatest({EnterAt(o, d, s, i) : i \in Moving(d)})
Leave(o, d, s) == Smallest({LeaveAt(o, d, s, i) : i \in Moving(d)})
Beside(o, d, s) == \E i \in (1 .. 3) \ Moving(d) : 2 * AbsI(o[i]) > s[i]
Hits(o, d, s) == ~Beside(o, d, s) /\ LET e == Enter(o, d, s)
                                        v == Leave(o, d, s) IN ~FLess(v, e) /\ v[1] > 0
(* what rounding may decide: rays along a side, through an edge, or away from the surface they start at *)
Grazes(o, d, s) == (\E i \in (1 .. 3) \ Moving(d) : 2 * AbsI(o[i]) = s[i])
                   \/ LET e == Enter(o, d, s)
                          v == Leave(o, d, s) IN (~FLess(v, e) /\ ~FLess(e, v)) \/ v[1] = 0
=============================================================================
