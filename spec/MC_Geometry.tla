------------------------------- MODULE MC_Geometry -------------------------------
(* Two boxes that are moved together (translation, quarter turns, mirror image), swapped, or moved  *)
(* relative to each other. Overlap depends only on the relative placement and obeys its bounds.     *)
EXTENDS Geometry, Json
CONSTANTS Sizes, Reach, Heights, Emit
Dirs == {<<1, 0>>, <<1, 1>>, <<-1, 2>>}
VARIABLES a, b, moved, act
vars == <<a, b, moved, act>>
Boxes(c) == [cx : c[1], cy : c[2], p : {d[1] : d \in Dirs}, q : {d[2] : d \in Dirs}, m : Sizes, n : Sizes,
             zc : {0}, h : {2}, odd : {FALSE}]
Fixed == {x \in Boxes(<<{0}, {0}>>) : <<x.p, x.q>> \in Dirs}
Init == a \in Fixed /\ b = a /\ moved = -1 /\ act = "init"
Place == /\ moved = -1 /\ moved' = 0 /\ act' = "place" /\ UNCHANGED a
         /\ \E x \in -Reach..Reach, y \in -Reach..Reach, d \in Dirs, m \in Sizes, n \in Sizes, z \in Heights :
              b' = [cx |-> x, cy |-> y, p |-> d[1], q |-> d[2], m |-> m, n |-> n, zc |-> z, h |-> 2, odd |-> FALSE]
Both(f(_), name) == /\ a' = f(a) /\ b' = f(b) /\ moved' = moved + 1 /\ act' = name
Turn(x) == [x EXCEPT !.cx = -x.cy, !.cy = x.cx, !.p = -x.q, !.q = x.p]
Mirror(x) == [x EXCEPT !.cy = -x.cy, !.q = -x.q]
Relabel(x) == [x EXCEPT !.p = -x.q, !.q = x.p, !.m = x.n, !.n = x.m]        \* the same box, described differently
Next == Place \/
        /\ moved = 0
        /\ \/ Both(LAMBDA x : [x EXCEPT !.cx = x.cx + 5, !.cy = x.cy - 3], "translate")
           \/ Both(Turn, "turn") \/ Both(Mirror, "mirror") \/ Both(Relabel, "relabel")
           \/ a' = b /\ b' = a /\ moved' = moved + 1 /\ act' = "swap"
Spec == Init /\ [][Next]_vars
View == <<a, b, moved>>
KA == Corners(a)  KB == Corners(b)
I == Inter2(KA, KB)
Bounds == I <= 10000 * MinI(Twice(KA), Twice(KB)) + 8 /\ IoU("3D", a, b) \in 0..1000000
ZeroIffApart == Separated(KA, KB) <=> I <= 8
OneIffSame == (IoU("2D", a, b) = 1000000) <=> SameShape("2D", a, b)
CoveredWhole == Covers(KA, KB) => Within(I, 10000 * Twice(KB), 8)
(* cutting b in two along its axis cuts the overlap in two *)
Half(x, s) == [x EXCEPT !.cx = 2 * x.cx + s * x.m * x.p, !.cy = 2 * x.cy + s * x.m * x.q, !.n = 2 * x.n]
Double(x) == [x EXCEPT !.cx = 2 * x.cx, !.cy = 2 * x.cy, !.m = 2 * x.m, !.n = 2 * x.n]
Additive == LET D == Corners(Double(a))
            IN Within(Inter2(D, Corners(Half(b, 1))) + Inter2(D, Corners(Half(b, -1))), 4 * I, 60)
MotionFree == [][moved = 0 => Within(IoU("2D", a', b'), IoU("2D", a, b), 8)
                     /\ Within(IoU("3D", a', b'), IoU("3D", a, b), 12)]_vars
PrintCase == (Emit /\ moved = 0) => PrintT("@@C " \o ToJson([a |-> a, b |-> b]))
=============================================================================
