------------------------------ MODULE MC_Boxes ------------------------------
(* A box and a point, carried from one frame to another; and a ray from the point.                 *)
EXTENDS Boxes, Json
CONSTANTS Sizes, Places, Steps, Emit
VARIABLES b, p, f, t, d
Axes == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>}
Vec(S) == {<<x, y, z>> : x \in S, y \in S, z \in S}
Unit(h) == LET m == RotZ(h) IN [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> m[i][j] \div 5]]
Init == /\ b \in [c : {<<0, 0, 0>>, <<4, -2, 1>>}, s : {<<x, y, z>> : x \in Sizes, y \in Sizes, z \in {4}}, h : Axes]
        /\ p \in {<<x, y, z>> : x \in Places, y \in Places, z \in {0, 3}}
        /\ f \in {[r |-> Unit(h), d |-> 1, t |-> <<3, 1, 0>>] : h \in Axes}
        /\ t \in {[r |-> Unit(h), d |-> 1, t |-> x] : h \in {<<5, 0>>, <<0, -5>>}, x \in {<<0, 0, 0>>, <<-2, 5, 3>>}}
        /\ d = <<0, 0, 0>>
Next == /\ d = <<0, 0, 0>>
        /\ d' \in {<<x, y, z>> : x \in Steps, y \in Steps, z \in {0, 1}} \ {<<0, 0, 0>>}
        /\ UNCHANGED <<b, p, f, t>>
Spec == Init /\ [][Next]_<<b, p, f, t, d>>
Moved == [c |-> Across(f, t, b.c), s |-> b.s, h |-> TurnBy(b.h, AcrossTurn(f, t))]
Still == d # <<0, 0, 0>>
Middle == Inside(b, b.c) = Solid(b)
Rigid == Still \/ Inside(b, p) = Inside(Moved, Across(f, t, p))
Back == Still \/ (Across(t, f, Across(f, t, p)) = p /\ World([b EXCEPT !.c = Times(5, b.c)], Local(b, p)) = Times(25, p))
(* the corners are the farthest points of a box: as far from its centre, and each in it *)
Cornered == Still \/ \A k \in 1 .. 8 :
  LET q == Corner(b, k)
      ten == [c |-> Times(10, b.c), s |-> Times(10, b.s), h |-> b.h] IN
  (Solid(b) => Inside(ten, q)) /\ (\A i \in 1 .. 3 : 2 * AbsI(Local(ten, q)[i]) = 50 * b.s[i])
Around == Still \/ \A k \in 1 .. 4 :     \* counter-clockwise, the top above the bottom
  LET q == Corner(b, k)
      r == Corner(b, (k % 4) + 1)
      u == Corner(b, k + 4) IN
  /\ (q[1] - 10 * b.c[1]) * (r[2] - 10 * b.c[2]) - (q[2] - 10 * b.c[2]) * (r[1] - 10 * b.c[1]) >= 0
  /\ u[1] = q[1] /\ u[2] = q[2] /\ u[3] - q[3] = 10 * b.s[3]
(* a ray that hits is in the box half way between; one with a point in the box hits; one from inside hits *)
At(o, n, k) == [i \in 1 .. 3 |-> k * o[i] + n * d[i]]
InSize(q, k) == \A i \in 1 .. 3 : 2 * AbsI(q[i]) <= k * b.s[i]
Half == (Still /\ Hits(p, d, b.s)) =>
  LET e == Enter(p, d, b.s)
      v == Leave(p, d, b.s)
      n == e[1] * v[2] + v[1] * e[2]
      k == 2 * e[2] * v[2] IN InSize(At(p, n, k), k)
Ahead == Still => \A n \in 1 .. 6 : (\A i \in 1 .. 3 : 2 * AbsI(2 * p[i] + n * d[i]) < 2 * b.s[i]) => Hits(p, d, b.s)
From == (Still /\ \A i \in 1 .. 3 : 2 * AbsI(p[i]) < b.s[i]) => (Hits(p, d, b.s) /\ Enter(p, d, b.s)[1] < 0)
Opposite == (Still /\ ~Grazes(p, d, b.s) /\ ~InSize(p, 1)) => ~(Hits(p, d, b.s) /\ Hits(p, Times(-1, d), b.s))
PrintCase == (Emit /\ Still) => PrintT("@@C " \o ToJson([b |-> b, p |-> p, f |-> f, t |-> t, d |-> d]))
=============================================================================
