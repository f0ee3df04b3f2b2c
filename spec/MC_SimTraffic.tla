----------------------------- MODULE MC_SimTraffic -----------------------------
(* Two objects moving at constant speeds, each keeping its heading, seen by the distance and the time   *)
(* to collision.                                                                                        *)
EXTENDS SimTraffic, Json
CONSTANTS Xs, Ys, Vs, DirsUsed, Sizes, Factor, MaxT, Emit
VARIABLES ba, bb, va, vb, t
vars == <<ba, bb, va, vb, t>>
Boxes(X, Y) == [x : X, y : Y, l : Sizes, w : {10}, d : DirsUsed]
Init == /\ ba \in Boxes({0}, {0}) /\ bb \in Boxes(Xs, Ys)
        /\ va \in Vs /\ vb \in Vs /\ t = 1
(* along the heading for the four cardinal headings *)
Unit(d) == IF d <= 4 THEN <<Dirs[d][1] \div 5, Dirs[d][2] \div 5>> ELSE <<1, 0>>
Advance(k, v) == [k EXCEPT !.x = @ + v * Unit(k.d)[1], !.y = @ + v * Unit(k.d)[2]]
Tick == t < MaxT /\ t' = t + 1 /\ ba' = Advance(ba, va) /\ bb' = Advance(bb, vb) /\ UNCHANGED <<va, vb>>
Next == Tick
Spec == Init /\ [][Next]_vars
D == Distance(ba, bb, Factor)
Symmetric == Distance(bb, ba, Factor) = D
(* a quarter turn of everything *)
QuarterDir(d) == IF d <= 4 THEN (d % 4) + 1 ELSE d
Quarter(k) == [k EXCEPT !.x = -k.y, !.y = k.x, !.d = QuarterDir(k.d)]
TurnsAlong == (ba.d <= 4 /\ bb.d <= 4) => Distance(Quarter(ba), Quarter(bb), Factor) = D
(* ba box moved by v comes at most |v| nearer or further; rounding is below the cores' size *)
Steady == \A d \in {D} : \A e \in {Distance(Advance(ba, va), Advance(bb, vb), Factor)} : AbsI(e - d) <= 25 * (AbsI(va) + AbsI(vb)) + 2
(* rounding the corners never brings boxes nearer *)
SharperIsNearer == Distance(ba, bb, 0) <= D + 2
(* boxes whose centres coincide overlap *)
Inside == (ba.x = bb.x /\ ba.y = bb.y) => D < 0
(* at constant speeds the time counts down *)
TtcOf(p, q) == Ttc(<<p, q>>, <<200 * va, 200 * vb>>, <<TRUE, TRUE>>, 1, 1)
Ms == TtcOf(ba, bb)
CountsDown == \A m \in {Ms} : \A n \in {TtcOf(Advance(ba, va), Advance(bb, vb))} :
  (ba.d = bb.d /\ ba.d <= 4 /\ m[1] > 170 /\ m[2] < Far /\ n[1] > 0) => n[2] <= m[2] - 100 + 60 /\ n[1] >= m[1] - 100 - 60
OnlyFaster == Ms[2] < Far => va >= vb
MirrorY(k) == [k EXCEPT !.y = -k.y]
Mirrored == (ba.d \in {1, 3} /\ bb.d \in {1, 3}) => TtcOf(MirrorY(ba), MirrorY(bb)) = Ms
PrintCase == (Emit /\ t = 1) => PrintT("@@C " \o ToJson([a |-> ba, b |-> bb, va |-> va, vb |-> vb, f |-> Factor]))
=============================================================================
