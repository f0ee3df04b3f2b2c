------------------------------- MODULE Roadgraph -------------------------------
(* Sampling the map into road graph features (C18).                                                *)
(* Coordinates are integers in grid units (1/4 m). A sample is [id, type, num, den, dir]: the point *)
(* num/den in grid units and the vector to the next sample of its feature (any length).             *)
(*   cfg = [max, src, smp (in 1/8 m; smp <= 0: as src), poly (grid units; <= 0: vertices only)]     *)
(*   feature = [id, kind, sub, pts]                                                                 *)
EXTENDS VCommon

Zero3 == <<0, 0, 0>>
V(f(_)) == <<f(1), f(2), f(3)>>
Minus(a, b) == V(LAMBDA k : a[k] - b[k])
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]

TypeOf(ft) ==
  CASE ft.kind = "lane" -> IF ft.sub \in 0..3 THEN ft.sub ELSE -1
    [] ft.kind = "line" -> IF ft.sub \in 0..8 THEN ft.sub + 5 ELSE -1
    [] ft.kind = "edge" -> IF ft.sub \in 0..2 THEN ft.sub + 14 ELSE -1
    [] ft.kind = "stop" -> 17 [] ft.kind = "walk" -> 18 [] ft.kind = "bump" -> 19 [] ft.kind = "drive" -> 20
    [] OTHER -> -1
IsLine(ft) == ft.kind \in {"lane", "line", "edge", "stop"}
IsArea(ft) == ft.kind \in {"walk", "bump", "drive"}

(* ---- a polyline whose points are src apart, sampled every smp ---- *)
Den(src) == 2 * src * src * src
Straight(p, q, n, src) == V(LAMBDA k : Den(src) * p[k] + 2 * src * src * n * (q[k] - p[k]))
Spline(p0, p1, p2, p3, n, s) ==
  V(LAMBDA k : 2 * s * s * s * p1[k] + n * s * s * (p2[k] - p0[k])
               + n * n * s * (2 * p0[k] - 5 * p1[k] + 4 * p2[k] - p3[k])
               + n * n * n * (3 * p1[k] - p0[k] - 3 * p2[k] + p3[k]))
LineAt(pts, src, d) ==       \* at distance d from the start, before the last point
  LET L == d \div src  n == d % src  N == Len(pts)
  IN IF L < 1 \/ L > N - 3 THEN Straight(pts[L + 1], pts[L + 2], n, src)
     ELSE Spline(pts[L], pts[L + 1], pts[L + 2], pts[L + 3], n, src)
(* farther than a centimetre, i.e. 0.04 grid units *)
Apart(a, b, den) == LET d == Minus(a, b)
                    IN (\E k \in 1..3 : AbsI(d[k]) > den) \/ 625 * Sq(d) > den * den
LinePoints(pts, cfg) ==
  IF pts = <<>> THEN <<>>
  ELSE LET src == cfg.src  smp == IF cfg.smp > 0 THEN cfg.smp ELSE src
           len == (Len(pts) - 1) * src
           n == IF len = 0 THEN 0 ELSE (len - 1) \div smp + 1     \* distances 0, smp, .. below len
           ps == [i \in 1..n |-> LineAt(pts, src, (i - 1) * smp)]
           last == V(LAMBDA k : Den(src) * pts[Len(pts)][k])
       IN IF ps = <<>> \/ Apart(last, ps[Len(ps)], Den(src)) THEN Append(ps, last) ELSE ps
LineSamples(ft, cfg) ==
  LET ps == LinePoints(ft.pts, cfg)
  IN [i \in DOMAIN ps |-> [id |-> ft.id, type |-> TypeOf(ft), num |-> ps[i], den |-> Den(cfg.src),
                           dir |-> IF i = Len(ps) THEN Zero3 ELSE Minus(ps[i + 1], ps[i])]]

(* ---- a polygon, walked around once and closed ---- *)
RECURSIVE Pieces(_, _, _)
Pieces(len2, s, q) == IF (q + 1) * (q + 1) * s * s > len2 THEN q ELSE Pieces(len2, s, q + 1)
SideSamples(ft, p, q, s) ==
  LET ray == Minus(q, p)  k == IF s <= 0 THEN 1 ELSE MaxI(Pieces(Sq(ray), s, 0), 1)
  IN [j \in 1..k |-> [id |-> ft.id, type |-> TypeOf(ft), num |-> V(LAMBDA c : p[c] * k + ray[c] * (j - 1)), den |-> k, dir |-> ray]]
AreaSamples(ft, cfg) ==
  LET n == Len(ft.pts)
  IN IF n = 0 THEN <<>>
     ELSE FoldLeft(LAMBDA acc, i : acc \o SideSamples(ft, ft.pts[i], ft.pts[IF i = n THEN 1 ELSE i + 1], cfg.poly), <<>>, [i \in 1..n |-> i])
          \o << [id |-> ft.id, type |-> TypeOf(ft), num |-> ft.pts[1], den |-> 1, dir |-> Zero3] >>

FeatureSamples(ft, cfg) == IF IsLine(ft) THEN LineSamples(ft, cfg) ELSE IF IsArea(ft) THEN AreaSamples(ft, cfg) ELSE <<>>

(* ---- order and truncation ---- *)
Priority == <<"lane", "line", "stop", "walk", "bump", "edge", "drive">>
InOrder(map) == FoldLeft(LAMBDA acc, k : acc \o SelectSeq(map, LAMBDA ft : ft.kind = k), <<>>, Priority)
Everything(map, cfg) == FoldLeft(LAMBDA acc, ft : acc \o FeatureSamples(ft, cfg), <<>>, InOrder(map))
(* what is cut off leaves the last kept sample without a next one *)
Cut(all, max) == IF Len(all) <= max THEN all
                 ELSE [i \in 1..max |-> IF i = max THEN [all[i] EXCEPT !.dir = Zero3] ELSE all[i]]
Samples(map, cfg) == Cut(Everything(map, cfg), MaxI(cfg.max, 0))
=============================================================================
