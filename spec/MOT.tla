---------------------------------- MODULE MOT ----------------------------------
(* Multi-object tracking accounting: the mapping procedure of CLEAR-MOT as a state machine.     *)
(* A frame f: f.g, f.p sequences of objects in the evaluated subset,                             *)
(*   f.g[i] = [id, ty, td], f.p[i] = [id, ty, nlz, sc], f.iou[p][g] in ppm.                      *)
(* A mapping is a set of pairs <<gt id, pd id>>.  cfg = [kind, thr, level].                      *)
EXTENDS Matching

GtOf(m, p) == {x[1] : x \in {y \in m : y[2] = p}}
PdOf(m, g) == {x[2] : x \in {y \in m : y[1] = g}}
OneToOneMap(m) == \A x, y \in m : (x[1] = y[1] \/ x[2] = y[2]) => x = y

(* later predictions that repeat an id are ignored *)
FirstIdx(s) == {i \in DOMAIN s : \A k \in 1..(i - 1) : s[k].id # s[i].id}
Ids(s) == {s[i].id : i \in DOMAIN s}
IdxOf(s, id) == CHOOSE i \in FirstIdx(s) : s[i].id = id

FIoU(f, p, g) == IF f.p[p].ty = f.g[g].ty THEN f.iou[p][g] ELSE 0
FOk(cfg, f, p, g) == FIoU(f, p, g) >= cfg.thr[f.p[p].ty + 1]

(* Step 1: correspondences of the previous frame that are still valid are kept. *)
Kept(cfg, m, f) ==
  {x \in m : /\ x[1] \in Ids(f.g) /\ x[2] \in Ids(f.p)
             /\ FOk(cfg, f, IdxOf(f.p, x[2]), IdxOf(f.g, x[1]))}

(* Step 2: the remaining objects; `new` is a set of <<gt id, pd id>>. *)
RestG(f, kept) == {i \in DOMAIN f.g : PdOf(kept, f.g[i].id) = {}}
RestP(f, kept) == {i \in FirstIdx(f.p) : GtOf(kept, f.p[i].id) = {}}
EligibleNew(cfg, f, kept, new) ==
  \A x \in new : \E i \in RestG(f, kept), k \in RestP(f, kept) :
        f.g[i].id = x[1] /\ f.p[k].id = x[2] /\ FOk(cfg, f, k, i)
(* cfg.slack (optional): rounding of overlaps that are not whole parts per million *)
SlackOf(cfg) == IF "slack" \in DOMAIN cfg THEN cfg.slack ELSE 0
OptimalNew(cfg, f, kept, new) ==
  LET rp == SetToSeq(RestP(f, kept))  rg == SetToSeq(RestG(f, kept))
      ok == [i \in DOMAIN rp |-> [j \in DOMAIN rg |-> FOk(cfg, f, rp[i], rg[j])]]
      w == [i \in DOMAIN rp |-> [j \in DOMAIN rg |-> IF ok[i][j] THEN FIoU(f, rp[i], rg[j]) ELSE 0]]
      a == [i \in DOMAIN rp |-> LET s == {j \in DOMAIN rg : <<f.g[rg[j]].id, f.p[rp[i]].id>> \in new}
                                IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE]
  IN IF cfg.kind = "H" THEN Total(a, w) >= Best(Len(rp), Len(rg), w) - SlackOf(cfg)
     ELSE GreedyExplains(GreedyInit(Len(rp)), a, Len(rg), ok, w, [i \in DOMAIN rp |-> f.p[rp[i]].sc])
(* every set of new correspondences the rule allows *)
NewChoices(cfg, f, kept) ==
  LET rp == SetToSeq(RestP(f, kept))  rg == SetToSeq(RestG(f, kept))
      n == Len(rp)  m == Len(rg)
      as == {x \in [1..n -> 0..m] :
               /\ \A i \in 1..n : x[i] # 0 => FOk(cfg, f, rp[i], rg[x[i]])
               /\ IsAssignment(x, n, m)}
      pairs(x) == {<<f.g[rg[x[i]]].id, f.p[rp[i]].id>> : i \in {k \in 1..n : x[k] # 0}}
  IN {s \in {pairs(x) : x \in as} : OptimalNew(cfg, f, kept, s)}

(* A mismatch is counted for a pair whose ground truth was last mapped to another prediction,  *)
(* and for a pair whose prediction was last mapped to a ground truth that is gone.               *)
Mismatches(m, f, now) ==
  SumOver(now, LAMBDA x :
      (IF PdOf(m, x[1]) # {} /\ x[2] \notin PdOf(m, x[1]) THEN 1 ELSE 0)
    + (IF \E g \in GtOf(m, x[2]) : g \notin Ids(f.g) THEN 1 ELSE 0))

(* Step 5: the mapping forgets nothing except what the new pairs contradict. *)
NextMap(m, now) ==
  now \cup {x \in m : PdOf(now, x[1]) = {} /\ GtOf(now, x[2]) = {}}

Matched(now, i, f) == PdOf(now, f.g[i].id) # {}
Missed(cfg, f, now) == {i \in DOMAIN f.g : ~Matched(now, i, f) /\ f.g[i].td <= cfg.level}
Excluded(cfg, f, now) == {i \in DOMAIN f.g : ~Matched(now, i, f) /\ f.g[i].td > cfg.level}
FalsePos(f, now) == {i \in FirstIdx(f.p) : GtOf(now, f.p[i].id) = {} /\ ~f.p[i].nlz}
FrameCost(f, now) == SumOver(now, LAMBDA x : 1000000 - FIoU(f, IdxOf(f.p, x[2]), IdxOf(f.g, x[1])))

Zero == [miss |-> 0, fp |-> 0, mm |-> 0, match |-> 0, gt |-> 0, cost |-> 0]
Count(cfg, c, m, f, now) ==
  [miss |-> c.miss + Cardinality(Missed(cfg, f, now)),
   fp |-> c.fp + Cardinality(FalsePos(f, now)),
   mm |-> c.mm + Mismatches(m, f, now),
   match |-> c.match + Cardinality(now),
   gt |-> c.gt + Len(f.g) - Cardinality(Excluded(cfg, f, now)),
   cost |-> c.cost + FrameCost(f, now)]
=============================================================================
