-------------------------------- MODULE Tracking --------------------------------
(* From scenes (sequences of frames) to tracking measurements per breakdown, level and cutoff,   *)
(* and from merged measurements to the reported operating point.                                 *)
(* cfg = [gens, lv, cuts, kind, thr, det]; a frame is [P, G] of Breakdown objects plus id, nlz,   *)
(* td. Boxes are axis aligned: positions multiples of 1/2 m, dimensions multiples of 1 m, so      *)
(* overlaps are exact fractions of small integers.                                               *)
EXTENDS Breakdown, MOT

(* ---- overlap of axis-aligned boxes ---------------------------------------------------------- *)
Span(ca, da, cb, db) ==      \* common length along one axis in half metres
  MaxI(0, (MinI(2 * ca + da, 2 * cb + db) - MaxI(2 * ca - da, 2 * cb - db)) \div 64)
Overlap2(a, b) == Span(a.x, a.dl, b.x, b.dl) * Span(a.y, a.dw, b.y, b.dw)
Area2(a) == (a.dl \div 32) * (a.dw \div 32)
BoxIoU(a, b) == LET i == Overlap2(a, b) IN (i * 1000000) \div (Area2(a) + Area2(b) - i)

(* ---- speeds of predictions, borrowed from the nearest ground truth ---------------------------- *)
Dist2(a, b) == LET dx == a.x - b.x  dy == a.y - b.y  dz == a.z - b.z IN dx * dx + dy * dy + dz * dz
NearestGt(p, G) == CHOOSE j \in DOMAIN G : \A k \in DOMAIN G :
                       Dist2(p, G[j]) < Dist2(p, G[k]) \/ (Dist2(p, G[j]) = Dist2(p, G[k]) /\ j <= k)
Borrow(p, G) == IF G = <<>> THEN [p EXCEPT !.hx = TRUE, !.hy = TRUE, !.vx = 0, !.vy = 0]
                ELSE LET g == G[NearestGt(p, G)]
                     IN [p EXCEPT !.hx = TRUE, !.hy = TRUE, !.vx = IF g.hx THEN g.vx ELSE 0,
                                  !.vy = IF g.hy THEN g.vy ELSE 0]
NeedsSpeed(cfg, fr) == /\ VELOCITY \in SeqToSet(cfg.gens)
                       /\ \E i \in DOMAIN fr : \E k \in DOMAIN fr[i].P : ~fr[i].P[k].hx
WithSpeed(cfg, fr) == IF NeedsSpeed(cfg, fr)
                      THEN [i \in DOMAIN fr |-> [fr[i] EXCEPT !.P = [k \in DOMAIN @ |-> Borrow(@[k], fr[i].G)]]]
                      ELSE fr

(* ---- the frames one accounting run sees --------------------------------------------------------- *)
MotFrame(f, g, s, cut) ==
  LET ps == Subset(g, s, f.P, FALSE, cut)  gs == Subset(g, s, f.G, FALSE, NONE)
  IN [g |-> [i \in DOMAIN gs |-> f.G[gs[i]]], p |-> [i \in DOMAIN ps |-> f.P[ps[i]]],
      iou |-> [i \in DOMAIN ps |-> [j \in DOMAIN gs |-> BoxIoU(f.P[ps[i]], f.G[gs[j]])]]]
MotFrames(fr, g, s, cut) == [i \in DOMAIN fr |-> MotFrame(fr[i], g, s, cut)]
MotCfg(cfg, level) == [kind |-> cfg.kind, thr |-> cfg.thr, level |-> level, slack |-> 12]

(* every outcome <<mapping, counters>> after all frames (used when pairs are not reported) *)
Outcomes(mc, frames) ==
  FoldLeft(LAMBDA S, f :
     UNION {{LET now == Kept(mc, x[1], f) \cup new
             IN <<NextMap(x[1], now), Count(mc, x[2], x[1], f, now)>>
               : new \in NewChoices(mc, f, Kept(mc, x[1], f))} : x \in S},
     {<<{}, Zero>>}, frames)

(* ---- scenes add up ------------------------------------------------------------------------------- *)
AddC(a, b) == [k \in DOMAIN Zero |-> a[k] + b[k]]

(* ---- the operating point: ms = sequence of counters per cutoff ----------------------------------- *)
Counted(ms) == {i \in DOMAIN ms : ms[i].gt > 0}
Good(m) == m.gt - (m.miss + m.fp + m.mm)            \* accuracy * gt
Better(a, b) == Good(a) * b.gt > Good(b) * a.gt
SameAcc(a, b) == Good(a) * b.gt = Good(b) * a.gt
BestPoints(ms) == {i \in Counted(ms) : Good(ms[i]) > 0 /\ \A k \in Counted(ms) : ~Better(ms[k], ms[i])}
(* accuracies that are equal as fractions of different counts may come out a rounding apart; a     *)
(* point whose accuracy is the same sum of the same ratios is preferred at the lowest cutoff       *)
PointOk(ms, r) ==
  IF BestPoints(ms) = {} THEN r = 0
  ELSE r \in BestPoints(ms) /\ \A i \in BestPoints(ms) : i < r => ms[i] # ms[r]
P6(a, b) == ((a * 1000) \div b) * 1000 + ((((a * 1000) % b) * 1000) \div b)
=============================================================================
