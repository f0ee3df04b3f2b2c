------------------------------- MODULE Detection -------------------------------
(* From one frame's objects to detection measurements, and from measurements to the merged       *)
(* totals. cfg = [gens, lv, cuts, kind, thr, minha, let, det]:                                    *)
(*   kind "H" optimal, "S" score-first, "L"/"M" the same with longitudinal tolerance;             *)
(*   minha: minimum heading accuracy in ppm; let = [pct10, mint]: tolerance pct10/10 of the       *)
(*   range, at least mint (1/64 m); objects of LET cases lie on the sensor's x axis.              *)
(* P, G: sequences of objects (Breakdown's fields plus id, nlz, dd, hd degrees); iou ppm table.   *)
EXTENDS Breakdown, Matching

IsLetKind(k) == k \in {"L", "M"}
(* ---- matching quantities over subsets ps, gs (1-based positions) -------------------------- *)
IoUOf(P, G, iou, p, g) == IF P[p].ty = G[g].ty THEN iou[p][g] ELSE 0
(* affinity in 1e-4: linear in the error along the line of sight *)
LetTol(let, g) == MaxI(let.pct10 * g.x, 10 * let.mint)      \* in 1/640 m
Aff4(let, p, g) == MaxI(0, 10000 - (AbsI(p.x - g.x) * 100000) \div LetTol(let, g))
InTol(let, p, g) == AbsI(p.x - g.x) * 10 < LetTol(let, g)
PairAllowed(cfg, P, G, iou, p, g) ==
  /\ IoUOf(P, G, iou, p, g) >= cfg.thr[P[p].ty + 1]
  /\ IsLetKind(cfg.kind) => (P[p].ty = G[g].ty /\ InTol(cfg.let, P[p], G[g]))
PairWeight(cfg, P, G, iou, p, g) ==
  IF IsLetKind(cfg.kind)
  THEN ((IoUOf(P, G, iou, p, g) \div 10) * (IF P[p].ty = G[g].ty THEN Aff4(cfg.let, P[p], G[g]) ELSE 0)) \div 1000
  ELSE IoUOf(P, G, iou, p, g)
Slack(cfg, n) == IF IsLetKind(cfg.kind) THEN 300 * n ELSE 0
OkM(cfg, P, G, iou, ps, gs) == [i \in DOMAIN ps |-> [j \in DOMAIN gs |-> PairAllowed(cfg, P, G, iou, ps[i], gs[j])]]
WM(cfg, P, G, iou, ps, gs) == [i \in DOMAIN ps |-> [j \in DOMAIN gs |->
     IF PairAllowed(cfg, P, G, iou, ps[i], gs[j]) THEN PairWeight(cfg, P, G, iou, ps[i], gs[j]) ELSE 0]]

(* ---- every matching the configured rule allows ---------------------------------------------- *)
RECURSIVE AllOpt(_, _, _, _, _, _)
AllOpt(i, n, avail, ok, w, need) ==
  IF i > n THEN (IF need <= 0 THEN {<<>>} ELSE {})
  ELSE IF need > BestFrom(i, n, avail, w) THEN {}
  ELSE UNION {{<<j>> \o r : r \in AllOpt(i + 1, n, avail \ {j}, ok, w, IF j = 0 THEN need ELSE need - w[i][j])}
              : j \in {0} \cup {j \in avail : ok[i][j]}}
RECURSIVE AllGreedy(_, _, _, _, _, _)
AllGreedy(st, m, ok, w, sc, slack) ==
  IF st.left = {} THEN {st.m}
  ELSE UNION {LET free == {j \in 1..m : j \notin GreedyTaken(st.m) /\ ok[i][j]}
                  ch == IF free = {} THEN {0}
                        ELSE {j \in free : \A k \in free : w[i][k] <= w[i][j] + slack}
              IN UNION {AllGreedy([m |-> [st.m EXCEPT ![i] = j], left |-> st.left \ {i}], m, ok, w, sc, slack)
                        : j \in ch}
              : i \in GreedyTop(st.left, sc)}
Matchings(cfg, P, G, iou, ps, gs) ==
  LET ok == OkM(cfg, P, G, iou, ps, gs)  w == WM(cfg, P, G, iou, ps, gs)
      n == Len(ps)  m == Len(gs)
  IN IF n = 0 THEN {<<>>}
     ELSE IF cfg.kind \in {"H", "L"}
     THEN AllOpt(1, n, 1..m, ok, w, Best(n, m, w) - Slack(cfg, n))
     ELSE AllGreedy(GreedyInit(n), m, ok, w, [i \in 1..n |-> P[ps[i]].sc], Slack(cfg, 1))

(* ---- classification -------------------------------------------------------------------------- *)
NormDeg(d) == (((d % 360) + 540) % 360) - 180
HeadDiff(a, b) == LET d == AbsI(NormDeg(a) - NormDeg(b)) IN IF d > 180 THEN 360 - d ELSE d
HeadAcc(p, g) == ((180 - HeadDiff(p.hd, g.hd)) * 1000000) \div 180
HeadOk(cfg, p, g) == HeadAcc(p, g) > cfg.minha
InShard(sl, o) == Shard(sl.g, o) = sl.s

(* a: matching over ps, gs. slot sl = [g, s, d]. Positions below are positions in ps / gs. *)
TPs(cfg, P, G, ps, gs, a, sl) ==
  {i \in DOMAIN ps : /\ a[i] # 0
                     /\ GroundTruthOnly(sl.g) => InShard(sl, G[gs[a[i]]])
                     /\ HeadOk(cfg, P[ps[i]], G[gs[a[i]]])}
Unmatched(P, ps, a) == {i \in DOMAIN ps : a[i] = 0 /\ ~P[ps[i]].nlz}
(* ground truths of largest overlap, if that overlap is worth mentioning (one percent) *)
Nearest(P, G, iou, ps, gs, i) ==
  {j \in DOMAIN gs : /\ IoUOf(P, G, iou, ps[i], gs[j]) >= 10000
                     /\ \A k \in DOMAIN gs : IoUOf(P, G, iou, ps[i], gs[k]) <= IoUOf(P, G, iou, ps[i], gs[j])}
(* false positives for certain, and those that depend on which of several equally near ground *)
(* truths counts as the nearest *)
MustFP(P, G, iou, ps, gs, a, sl) ==
  {i \in Unmatched(P, ps, a) : GroundTruthOnly(sl.g) =>
       \A j \in Nearest(P, G, iou, ps, gs, i) : InShard(sl, G[gs[j]])}
MayFP(P, G, iou, ps, gs, a, sl) ==
  {i \in Unmatched(P, ps, a) : GroundTruthOnly(sl.g) =>
       LET n == Nearest(P, G, iou, ps, gs, i) IN n = {} \/ \E j \in n : InShard(sl, G[gs[j]])}
FNs(G, gs, a, sl) ==
  {j \in DOMAIN gs : /\ \A i \in DOMAIN a : a[i] # j
                     /\ G[gs[j]].dd <= sl.d
                     /\ GroundTruthOnly(sl.g) => InShard(sl, G[gs[j]])}
SumHA(P, G, ps, gs, a, tp) == SumOver(tp, LAMBDA i : HeadAcc(P[ps[i]], G[gs[a[i]]]))
PairLA(cfg, p, g) == IF IsLetKind(cfg.kind) THEN Aff4(cfg.let, p, g) * 100 ELSE 1000000
SumLA(cfg, P, G, ps, gs, a, tp) == SumOver(tp, LAMBDA i : PairLA(cfg, P[ps[i]], G[gs[a[i]]]))

(* ---- merging (C07): measurements as records of integers, details as sequences of frames ------ *)
MergeM(x, y) == [tp |-> x.tp + y.tp, fp |-> x.fp + y.fp, fn |-> x.fn + y.fn,
                 ha |-> x.ha + y.ha, la |-> x.la + y.la, cut |-> x.cut, det |-> x.det \o y.det]
=============================================================================
