----------------------------- MODULE MC_RangeImage -----------------------------
(* One pixel of a lidar, mounted any way, becomes a point.                                               *)
EXTENDS RangeImage, Json
CONSTANTS Ws, Incls, Turns, Tilts, Rolls, Moves, Emit
VARIABLES w, c, incl, q, pix, veh
vars == <<w, c, incl, q, pix, veh>>
CS(k) == <<<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<4, 3>>, <<-3, 4>>, <<-4, -3>>, <<3, -4>>>>[k]
Pose(y, p, r, t) == [y |-> CS(y), p |-> CS(p), r |-> CS(r), t |-> <<t * 10000, -2 * t * 10000, t * 5000>>]
Init == /\ w \in Ws /\ c \in 1..12 /\ c <= w /\ incl \in Incls
        /\ \E y \in Turns : \E p \in Tilts : \E r \in Rolls : \E t \in {0, 3} : q = Pose(y, p, r, t)
        /\ \E y \in Moves : \E p \in Moves : \E t \in {0, 2} : pix = Pose(y, p, 1, t)
        /\ \E y \in Moves : \E t \in {0, 2} : veh = Pose(y, 1, 1, t)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
R == 10
P == Point(q, c, w, incl, R)
V == Minus(P, q.t)
M == PointMoved(q, c, w, incl, R, pix, veh)
Far(v) == ISqrt(Norm2(<<Rd(v[1], 10), Rd(v[2], 10), Rd(v[3], 10)>>))       \* in mm
AtRange == Within(Far(V), 10000, 12)
(* a level mount: the column is a direction of the vehicle, whatever the mount's heading *)
Level == (q.p = <<5, 0>> /\ q.r = <<5, 0>>) =>
  /\ Within(Rd(V[1], 10), Rd(Cos15(ColumnAngle(c, w)) * Cos15(incl), 10000), 5)
  /\ Within(Rd(V[2], 10), Rd(Sin15(ColumnAngle(c, w)) * Cos15(incl), 10000), 5)
  /\ Within(Rd(V[3], 10), Sin15(incl), 5)
(* and the pixel of the point is the one it came from *)
Back == (w \in {1, 2, 4} /\ AbsI(incl) < 6) => c \in Columns(q, In([q EXCEPT !.t = <<0, 0, 0>>], Scale(1, <<Rd(V[1], 10), Rd(V[2], 10), Rd(V[3], 10)>>)), w)
(* a vehicle that stood still moves no point; one that moved moves all rigidly *)
Still == pix = veh => \A k \in 1..3 : Within(M[k], P[k], 10)
Undone == \A k \in 1..3 : Within(In(pix, Out(pix, P))[k], P[k], 10)
PrintCase == Emit => PrintT("@@C " \o ToJson([w |-> w, c |-> c, incl |-> incl, q |-> q, pix |-> pix, veh |-> veh]))
=============================================================================
