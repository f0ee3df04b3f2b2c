------------------------------ MODULE MC_Roadgraph ------------------------------
(* The sampler as a machine: features in priority order, one sample at a time, until full.           *)
EXTENDS Roadgraph, Json
CONSTANTS Emit, Paths
VARIABLES map, cfg, phase, q, out
vars == <<map, cfg, phase, q, out>>
P1(x) == <<x, 0, 0>>
P2(x, y) == <<x, y, 0>>
Line3 == << <<P1(0)>>, <<P1(0), P1(2)>>, <<P1(0), P1(2), P1(4)>>, <<P1(0), P1(2), P1(4), P1(6), P1(8)>>,
            <<P1(0), P2(2, 0), P2(2, 2), P2(4, 2), P2(4, 4), P2(6, 4)>>, <<P1(3), P1(3), P1(3)>> >>
Area3 == << <<>>, <<P1(1)>>, <<P1(0), P1(3)>>, <<P1(0), P1(8), P2(8, 4)>>, <<P1(0), P2(4, 0), P2(4, 4), P2(0, 4)>> >>
Init == map = <<>> /\ cfg = [max |-> -1] /\ phase = "map" /\ q = <<>> /\ out = <<>>
AddLine == \E k \in {"lane", "edge"}, i \in DOMAIN Line3 : map' = Append(map, [id |-> 10 + Len(map), kind |-> k, sub |-> 1, pts |-> Line3[i]])
AddArea == \E k \in {"walk", "drive"}, i \in DOMAIN Area3 : map' = Append(map, [id |-> 10 + Len(map), kind |-> k, sub |-> 0, pts |-> Area3[i]])
Grow == phase = "map" /\ Len(map) < Paths /\ (AddLine \/ AddArea) /\ UNCHANGED <<cfg, phase, q, out>>
Start == /\ phase = "map" /\ map # <<>>
         /\ \E max \in {0, 1, 3, 6, 40}, src \in {2, 4}, smp \in {0, 3, 8}, poly \in {0, 2, 3} :
              cfg' = [max |-> max, src |-> src, smp |-> smp, poly |-> poly]
         /\ phase' = "run" /\ q' = InOrder(map) /\ UNCHANGED <<map, out>>
(* one feature, appended sample by sample while there is room *)
Take == /\ phase = "run" /\ q # <<>>
        /\ LET s == FeatureSamples(Head(q), cfg)  room == cfg.max - Len(out)  n == MinI(room, Len(s))
           IN out' = out \o [i \in 1..n |-> IF i = n /\ n < Len(s) THEN [s[i] EXCEPT !.dir = Zero3] ELSE s[i]]
        /\ q' = Tail(q) /\ UNCHANGED <<map, cfg, phase>>
Done == phase = "run" /\ q = <<>> /\ phase' = "done" /\ UNCHANGED <<map, cfg, q, out>>
Next == Grow \/ Start \/ Take \/ Done
Spec == Init /\ [][Next]_vars
Fin == phase = "done"
Room == phase # "map" => Len(out) <= cfg.max
AsWhole == Fin => out = Samples(map, cfg)
Of(ft) == SelectSeq(out, LAMBDA s : s.id = ft.id)
At(s, p) == s.num = V(LAMBDA k : p[k] * s.den)
(* features with points that are not cut off start at their first point, and lines end at their last *)
Ends == Fin => \A i \in DOMAIN map : LET ft == map[i]  s == Of(ft)
   IN (s # <<>> /\ ft.pts # <<>>) =>
        /\ At(s[1], ft.pts[1])
        /\ Len(out) < cfg.max => IF IsLine(ft) THEN ~Apart(s[Len(s)].num, V(LAMBDA k : ft.pts[Len(ft.pts)][k] * s[Len(s)].den), s[Len(s)].den)
                                 ELSE At(s[Len(s)], ft.pts[1])
(* nothing is missing while there is room, and every vertex of a polygon is a sample *)
NoneLost == (Fin /\ Len(out) < cfg.max) => \A i \in DOMAIN map : LET ft == map[i] IN
   /\ ft.pts # <<>> => Of(ft) # <<>>
   /\ IsArea(ft) => \A v \in SeqToSet(ft.pts) : \E k \in DOMAIN Of(ft) : At(Of(ft)[k], v)
(* contiguous, and lanes before areas before edges before driveways *)
Contiguous == Fin => \A i, k \in DOMAIN out : (i < k /\ out[i].id = out[k].id) => \A m \in i..k : out[m].id = out[i].id
Ranked == Fin => \A i, k \in DOMAIN out : i < k =>
   LET r(s) == CASE s.type < 5 -> 1 [] s.type = 18 -> 2 [] s.type \in 14..16 -> 3 [] OTHER -> 4 IN r(out[i]) <= r(out[k])
(* on a polygon side neighbouring samples are at least the spacing apart and less than twice, unless the side is short *)
SideSpacing == (Fin /\ cfg.poly > 0) => \A i \in DOMAIN out : (out[i].type \in {18, 20} /\ Sq(out[i].dir) > 0) =>
   LET l2 == Sq(out[i].dir)  k == out[i].den
   IN /\ k > 1 => l2 >= k * k * cfg.poly * cfg.poly
      /\ l2 < (k + 1) * (k + 1) * cfg.poly * cfg.poly
PrintCase == (Emit /\ Fin) => PrintT("@@C " \o ToJson([map |-> map, cfg |-> cfg]))
=============================================================================
