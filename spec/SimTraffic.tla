------------------------------ MODULE SimTraffic ------------------------------
(* What the simulated agents metrics measure of the motion of objects and of objects about each other.  *)
(* Lengths are integers in tenths of a metre. A heading is an index into Dirs, unit vectors <<c, s>>/n. *)
(* A box: [x, y, l, w (half sizes), d]. An object has its box at every step.                            *)
EXTENDS VCommon

Dirs == <<<<5, 0, 5>>, <<0, 5, 5>>, <<-5, 0, 5>>, <<0, -5, 5>>, <<4, 3, 5>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<-3, -4, 5>>, <<4, -3, 5>>,
          <<84, 13, 85>>, <<84, -13, 85>>, <<-84, 13, 85>>, <<-84, -13, 85>>, <<13, 84, 85>>>>
Near == 1..9      \* directions of thirds: distances between boxes are worked out for these
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == TLCEval((lo + hi) \div 2) IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == LET k == TLCEval(n) IN ISqrtIn(k, 0, 46341)      \* whole part of the square root

(* ---- the distance between boxes with rounded corners, in units of 1/25: negative when they overlap -- *)
Radius25(b, factor) == (25 * factor * MinI(b.l, b.w)) \div 10
CoreL(b, factor) == 25 * b.l - Radius25(b, factor)
CoreW(b, factor) == 25 * b.w - Radius25(b, factor)
Vec(d) == <<Dirs[d][1], Dirs[d][2]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
(* corners of the core, in units of 1/25; lengths of cores are multiples of 5 of them *)
Corners(b, f) ==
  LET u == Vec(b.d)
      cl == TLCEval(CoreL(b, f))
      cw == TLCEval(CoreW(b, f))
      at(i, j) == <<25 * b.x + (i * cl * u[1] - j * cw * u[2]) \div 5, 25 * b.y + (i * cl * u[2] + j * cw * u[1]) \div 5>> IN
  <<at(1, 1), at(-1, 1), at(-1, -1), at(1, -1)>>
(* squared distance of a corner from the core of b *)
FromCore2(p, b, f) ==
  LET u == TLCEval(Vec(b.d))
      r == TLCEval(<<p[1] - 25 * b.x, p[2] - 25 * b.y>>)
      dx == MaxI(0, AbsI(Dot(u, r)) \div 5 - CoreL(b, f))
      dy == MaxI(0, AbsI(Cross(u, r)) \div 5 - CoreW(b, f)) IN
  dx * dx + dy * dy
(* the separation of the cores along the axes of a, positive when an axis keeps them apart *)
AxisGap(a, b, f) ==
  LET u == Vec(a.d)
      v == Vec(b.d)
      dot == AbsI(Dot(u, v))
      crs == AbsI(Cross(u, v))
      r == <<b.x - a.x, b.y - a.y>>
      l == CoreL(b, f)
      w == CoreW(b, f) IN
  MaxI(5 * AbsI(Dot(u, r)) - CoreL(a, f) - (l * dot + w * crs) \div 25,
       5 * AbsI(Cross(u, r)) - CoreW(a, f) - (l * crs + w * dot) \div 25)
Gap(a, b, f) == MaxI(AxisGap(a, b, f), AxisGap(b, a, f))
Apart(a, b, f) ==
  LET p == TLCEval(Corners(a, f))
      q == TLCEval(Corners(b, f)) IN
  ISqrt(Min({FromCore2(p[i], b, f) : i \in 1..4} \cup {FromCore2(q[i], a, f) : i \in 1..4}))
Distance(a, b, f) ==
  LET g == TLCEval(Gap(a, b, f)) IN
  (IF g <= 0 THEN g ELSE Apart(a, b, f)) - Radius25(a, f) - Radius25(b, f)

(* ---- motion: central differences over two steps; T the steps, dt in tenths of a second -------------- *)
(* Norms in hundredths; valid from the second to the last step but one *)
Move(p, t) == <<p.x[t + 1] - p.x[t - 1], p.y[t + 1] - p.y[t - 1], p.z[t + 1] - p.z[t - 1]>>
Norm100(v) == ISqrt((v[1] * v[1] + v[2] * v[2] + v[3] * v[3]) * 10000)
Flat(v) == <<v[1], v[2], 0>>
(* degrees, wrapped to the smaller turn *)
Wrap(a) == ((a + 180) % 360) - 180
Turn2(h, t) == Wrap(h[t + 1] - h[t - 1])                      \* twice the turn of a step
Turn4(h, t) == Turn2(h, t + 1) - Turn2(h, t - 1)               \* four times its change

(* which steps have them, of the steps the object is seen at *)
SpeedOk(v) == {t \in DOMAIN v : t > 1 /\ t < Len(v) /\ v[t - 1] /\ v[t + 1]}
AccelOk(v) == {t \in DOMAIN v : t - 1 \in SpeedOk(v) /\ t + 1 \in SpeedOk(v)}

(* ---- time to collision with the object in front -------------------------------------------------- *)
(* distances times n1*n2: how far the other's rear is ahead of the front, and its overlap with the trail *)
Ahead(e, o) ==
  LET u == Vec(e.d)
      v == Vec(o.d)
      n1 == Dirs[e.d][3]
      n2 == Dirs[o.d][3]
      r == <<o.x - e.x, o.y - e.y>>
      dot == Dot(u, v)
      crs == Cross(u, v) IN
  [nn |-> n1 * n2, long |-> n2 * Dot(r, u) - n1 * n2 * e.l - (o.l * AbsI(dot) + o.w * AbsI(crs)),
   lat |-> n2 * AbsI(Cross(u, r)) - n1 * n2 * e.w - (o.l * AbsI(crs) + o.w * AbsI(dot)), dot |-> dot]
(* an angle of at most 75, or 10, degrees *)
Within75(a) == a.dot * 10000 >= 2588 * a.nn
Within10(a) == a.dot * 10000 >= 9848 * a.nn
Follows(a) == a.long > 0 /\ Within75(a) /\ a.lat < 0 /\ (a.lat < -5 * a.nn \/ Within10(a))
(* too close to a boundary for single precision *)
Edge(a) == 100 * AbsI(a.long) <= a.nn \/ 100 * AbsI(a.lat) <= a.nn \/ 100 * AbsI(a.lat + 5 * a.nn) <= a.nn
Far == 5000
(* milliseconds; [lo, hi] admitted. boxes: object -> box; speed: object -> hundredths per two steps *)
Ttc(boxes, speed, ok, i, dt) ==
  LET A == TLCEval([j \in DOMAIN boxes |-> Ahead(boxes[i], boxes[j])])
      cand == {j \in DOMAIN boxes : ok[j] /\ j # i /\ Follows(A[j])}
      unsure == \E j \in DOMAIN boxes : ok[j] /\ j # i /\ Edge(A[j])
      dist(j) == (A[j].long * 20) \div A[j].nn
      close == {j \in cand : \A k \in cand : dist(j) <= dist(k) + 1}
      of(j) == LET rel == speed[i] - speed[j] IN
               IF rel <= 1 THEN IF rel < -1 THEN <<Far, Far>> ELSE <<MinI(Far, dist(j) * 100), Far>>
               ELSE LET v == (dist(j) * 1000 * dt) \div rel
                        slack == 4 + (1000 * dt) \div rel + 3 * (v \div rel) IN
                    <<MinI(Far, v - slack), MinI(Far, v + slack)>> IN
  IF unsure THEN <<0, Far>>
  ELSE IF cand = {} THEN <<Far, Far>>
  ELSE <<Min({of(j)[1] : j \in close}), Max({of(j)[2] : j \in close})>>
=============================================================================
