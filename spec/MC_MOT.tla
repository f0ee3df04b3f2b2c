--------------------------------- MODULE MC_MOT ---------------------------------
(* Every history of frames over a few objects, each present or absent, each pair with one of a  *)
(* few overlaps. Invariants of the accounting; `hist` is printed for replay (simulation).        *)
EXTENDS MOT, Json
CONSTANTS NG, NP, Overlaps, Frames, Kinds, Emit
VARIABLES map, c, n, last, hist, gone, ever, cfg
vars == <<map, c, n, last, hist, gone, ever, cfg>>

Thr == <<500000, 500000, 500000, 500000, 500000>>
Gts == [i \in 1..NG |-> [id |-> "g" \o ToString(i), ty |-> 1, td |-> IF i = NG THEN 2 ELSE 1]]
Pds == [i \in 1..NP |-> [id |-> "p" \o ToString(i), ty |-> 1, nlz |-> i = NP, sc |-> 500000]]
Sub(s, S) == LET k == SetToSortSeq(S, LAMBDA a, b : a < b) IN [i \in DOMAIN k |-> s[k[i]]]
NoFrame == [g |-> <<>>, p |-> <<>>, iou |-> <<>>]

Init == /\ map = {} /\ c = Zero /\ n = 0 /\ last = [f |-> NoFrame, now |-> {}, kept |-> {}]
        /\ hist = <<>> /\ gone = 0 /\ ever = {}
        /\ cfg \in {[kind |-> k, thr |-> Thr, level |-> lv] : k \in Kinds, lv \in {1, 2}}
Frame(f) ==
  LET kept == Kept(cfg, map, f)
  IN \E new \in NewChoices(cfg, f, kept) :
       LET now == kept \cup new
       IN /\ map' = NextMap(map, now)
          /\ c' = Count(cfg, c, map, f, now)
          /\ last' = [f |-> f, now |-> now, kept |-> kept]
          /\ ever' = ever \cup now
          /\ gone' = gone + Cardinality(Excluded(cfg, f, now))
          /\ hist' = IF Emit THEN Append(hist, f) ELSE hist
          /\ n' = n + 1
          /\ UNCHANGED cfg
Next == /\ n < Frames
        /\ \E SG \in SUBSET (1..NG), SP \in SUBSET (1..NP) :
             \E iou \in [1..Cardinality(SP) -> [1..Cardinality(SG) -> Overlaps]] :
                Frame([g |-> Sub(Gts, SG), p |-> Sub(Pds, SP), iou |-> iou])
Spec == Init /\ [][Next]_vars

OneToOne == OneToOneMap(map) /\ OneToOneMap(last.now)
(* every ground truth of the frame is matched, missed or excluded; every prediction matched, *)
(* false positive or in a no-label zone *)
Partition ==
  /\ Len(last.f.g) = Cardinality(last.now) + Cardinality(Missed(cfg, last.f, last.now))
                     + Cardinality(Excluded(cfg, last.f, last.now))
  /\ Cardinality({i \in DOMAIN last.f.p : ~last.f.p[i].nlz /\ GtOf(last.now, last.f.p[i].id) = {}})
        = Cardinality(FalsePos(last.f, last.now))
Conservation == c.gt = c.match + c.miss
Recorded == last.now \subseteq map
(* objects that never changed partner were never counted as mismatched *)
Stable == (\A x, y \in ever : (x[1] = y[1] \/ x[2] = y[2]) => x = y) => c.mm = 0
Bounds == c.mm <= 2 * c.match /\ c.cost >= 0 /\ c.cost <= 500000 * c.match
Maximal == \A i \in DOMAIN last.f.g, k \in FirstIdx(last.f.p) :
   FOk(cfg, last.f, k, i) =>
      (PdOf(last.now, last.f.g[i].id) # {} \/ GtOf(last.now, last.f.p[k].id) # {})
(* identity continuity *)
Continuity == [][\A x \in map :
    (/\ x[1] \in Ids(last'.f.g) /\ x[2] \in Ids(last'.f.p)
     /\ FOk(cfg, last'.f, IdxOf(last'.f.p, x[2]), IdxOf(last'.f.g, x[1]))) => x \in map' /\ x \in last'.now]_vars
View == <<map, c, n, last, gone, ever, cfg>>
SmallView == <<map, n, last, cfg, c.mm, ever, c.gt - c.match - c.miss>>
PrintCase == (Emit /\ n = Frames) =>
     PrintT("@@C " \o ToJson([kind |-> cfg.kind, level |-> cfg.level, frames |-> hist]))
=============================================================================
