------------------------------- MODULE TraceMotion -------------------------------
(* Checks recorded calls of the motion metrics library. e.only names the property being decided.      *)
EXTENDS Motion, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Types == <<"UNSET", "VEHICLE", "PEDESTRIAN", "CYCLIST", "OTHER">>       \* by number, from 0
Rank(t) == CASE t = 0 -> 0 [] t = 4 -> 1 [] t = 1 -> 2 [] t = 2 -> 3 [] t = 3 -> 4
Scored(pr) == SelectSeq(pr.mm, LAMBDA mm : mm # <<>> /\ mm[1].t # <<>>)
TypeOf(sc, mm) == LET ts == {TrackOf(sc, mm[1].t[k].id).type : k \in DOMAIN mm[1].t}
                  IN CHOOSE t \in ts : \A u \in ts : Rank(u) <= Rank(t)

(* ---- C12: accepted exactly when well formed ---------------------------------------------------- *)
AcceptV(e) ==
  LET want == Accept(e.cfg, e.sc, e.pr)
      speeds == BadSpeeds(e.cfg)
      (* the speed bounds are looked at where a considered trajectory has ground truth *)
      looked == want /\ \E m \in DOMAIN e.pr.mm, n \in DOMAIN e.cfg.steps : \E i \in Considered(e.cfg, e.pr.mm[m]) :
                  e.pr.mm[m][i].t # <<>> /\ \A k \in DOMAIN e.pr.mm[m][i].t :
                     Valid(Gt(e.cfg, TrackOf(e.sc, e.pr.mm[m][i].t[k].id), e.cfg.steps[n].step))
  IN Chk(~want => ~e.ok, "an ill-formed submission is rejected") \cup
     Chk((want /\ ~speeds) => e.ok, "a well-formed submission is accepted") \cup
     Chk((looked /\ speeds) => ~e.ok, "inconsistent speed bounds are rejected") \cup
     Chk(e.ok2 = e.ok, "the batch call accepts the same submissions")
(* challenge rules: single predictions have one trajectory, joint ones two and come alone *)
ChallengeOk(kind, pr) ==
  /\ kind \in {1, 2}
  /\ kind = 2 => Len(pr.mm) <= 1
  /\ \A i \in DOMAIN pr.mm : \A k \in DOMAIN pr.mm[i] : Len(pr.mm[i][k].t) = kind
ChallengeV(e) == Chk(ChallengeOk(e.kind, e.pr) = e.ok, "challenge rules on the number of predicted objects")
(* conversion of a challenge submission: src is a pred record plus its shape *)
ConvertV(e) ==
  LET same == \A i \in DOMAIN e.pr.mm : \A k \in DOMAIN e.pr.mm[i] :
                 \A t \in DOMAIN e.pr.mm[i][k].t : Len(e.pr.mm[i][k].t[t].x) = Len(e.pr.mm[i][k].t[t].y)
      want == e.shape # "none" /\ same /\
              (e.shape = "joint" => \A k \in DOMAIN e.pr.mm[1] : Len(e.pr.mm[1][k].t) = 2)
  IN Chk(want = e.ok, "conversion refuses exactly the malformed") \cup
     Chk((want /\ e.ok) => e.out = e.pr, "conversion keeps ids, confidences and positions")

(* ---- what the harness reports for one (type, step) cell:                                          *)
(* ade fde miss ov: <<total, count>>; hard soft: per bucket [n, s: <<conf, tp>>...]                   *)
Cells(e) == {<<TypeOf(e.sc, mm), s>> : mm \in SeqToSet(Scored(e.pr)), s \in {e.cfg.steps[i].step : i \in DOMAIN e.cfg.steps}}
Cell(e, t, s) == LET i == CHOOSE i \in DOMAIN e.r : e.r[i].type = t /\ e.r[i].step = s IN e.r[i]
KeysV(e) == Chk({<<e.r[i].type, e.r[i].step>> : i \in DOMAIN e.r} = Cells(e) /\ Len(e.r) = Cardinality(Cells(e)),
                "results exactly for the object types predicted and steps measured")
StepCfg(e, s) == CHOOSE i \in DOMAIN e.cfg.steps : e.cfg.steps[i].step = s
Of(e, t) == SelectSeq(Scored(e.pr), LAMBDA mm : TypeOf(e.sc, mm) = t)
Vals(e, t, f(_)) == LET ms == Of(e, t) IN SelectSeq([i \in DOMAIN ms |-> f(ms[i])], LAMBDA v : v # -1)
AccV(got, vals, slack, name) ==
  Chk(got[2] = Len(vals), "number of measurements: " \o name) \cup
  Chk(Within(got[1], SumSeq(vals), slack * Len(vals)), "value: " \o name)

CellV13(e, t, s) ==
  LET c == Cell(e, t, s)
      sp == e.cfg.steps[StepCfg(e, s)]
      out(mm) == Matches(e.cfg, e.sc, mm, sp)
      edgy == \E i \in DOMAIN Of(e, t) : Edgy(out(Of(e, t)[i]))
      ov == [i \in DOMAIN Of(e, t) |-> Overlaps(e.cfg, e.sc, Of(e, t)[i], s)]
      lo == SumOver(DOMAIN ov, LAMBDA i : Min(ov[i]))
      hi == SumOver(DOMAIN ov, LAMBDA i : Max(ov[i]))
  IN AccV(c.ade, Vals(e, t, LAMBDA mm : MinAde(e.cfg, e.sc, mm, s)), 25, "minimum average displacement") \cup
     AccV(c.fde, Vals(e, t, LAMBDA mm : MinFde(e.cfg, e.sc, mm, s)), 25, "minimum final displacement") \cup
     (IF edgy THEN Chk(c.miss[2] = Len(Vals(e, t, LAMBDA mm : IF Miss(out(mm)) = -1 /\ ~Edgy(out(mm)) THEN -1 ELSE 0)),
                       "number of measurements: miss")
      ELSE AccV(c.miss, Vals(e, t, LAMBDA mm : LET v == Miss(out(mm)) IN IF v = -1 THEN -1 ELSE v * 1000), 0, "miss")) \cup
     Chk(c.ov[2] = Len(Of(e, t)), "number of measurements: overlap") \cup
     Chk(lo * 1000 <= c.ov[1] /\ c.ov[1] <= hi * 1000, "value: overlap")

CellV14(e, t, s) ==
  LET c == Cell(e, t, s)
      sp == e.cfg.steps[StepCfg(e, s)]
      out(mm) == Matches(e.cfg, e.sc, mm, sp)
      ms == Of(e, t)
      bk == [i \in DOMAIN ms |-> Bucket(e.cfg, e.sc, ms[i])]
      unsure == \E i \in DOMAIN ms : bk[i] = "edge" \/ Edgy(out(ms[i]))
      all(b, soft) == FlattenSeq([i \in DOMAIN ms |-> IF bk[i] = b THEN Samples(ms[i], out(ms[i]), soft) ELSE <<>>])
      num(b) == Cardinality({i \in DOMAIN ms : bk[i] = b /\ Samples(ms[i], out(ms[i]), FALSE) # <<>>})
      bucket(rep, b, soft, name) ==
        Chk(SameBag(rep.s, all(b, soft)), "samples of the bucket (" \o name \o ")") \cup
        Chk(rep.n = num(b), "ground truths of the bucket (" \o name \o ")") \cup
        Chk(rep.ap = -1 \/ Within(rep.ap, Area(all(b, soft), MaxI(1, num(b))), 3 + Len(all(b, soft))),
            "average precision of the bucket (" \o name \o ")")
      used == SelectSeq(Order8, LAMBDA b : num(b) > 0)
      mean(soft) == IF used = <<>> THEN 0
                    ELSE SumSeq([i \in DOMAIN used |-> Area(all(used[i], soft), num(used[i]))]) \div Len(used)
  IN IF unsure THEN {}
     ELSE UNION {bucket(c.hard[i], Order8[i], FALSE, "hard") : i \in DOMAIN c.hard} \cup
          UNION {bucket(c.soft[i], Order8[i], TRUE, "soft") : i \in DOMAIN c.soft} \cup
          Chk(used # <<>> => Len(c.hard) = 8 /\ Len(c.soft) = 8, "one bucket per trajectory shape") \cup
          Chk(Within(c.map, mean(FALSE), 10), "mean over the buckets with ground truth") \cup
          Chk(Within(c.smap, mean(TRUE), 10), "soft mean over the buckets with ground truth")
EvalV(e, cell(_, _, _)) ==
  LET k == KeysV(e)
  IN IF ~e.ok THEN {"a well-formed submission is evaluated"}
     ELSE IF k # {} THEN k ELSE UNION {cell(e, c[1], c[2]) : c \in Cells(e)}

(* ---- the curve alone: samples and total -> curve and area ------------------------------------- *)
CurveV(e) ==
  LET r == SortSeq(e.s, Before)
      tp(i) == Cardinality({k \in 1..i : r[k][2]})
  IN Chk(Len(e.curve) = Len(r), "one curve point per sample") \cup
     Chk(Len(e.curve) = Len(r) => \A i \in DOMAIN r : /\ Within(e.curve[i][1], (tp(i) * 1000000) \div e.n, 2)
                                                      /\ Within(e.curve[i][2], (tp(i) * 1000000) \div i, 2),
         "recall and precision after each sample") \cup
     Chk(Within(e.ap, Area(e.s, e.n), 3 + Len(e.s)), "area under the curve")

(* ---- C15: accumulation over the reported per-scenario cells ------------------------------------- *)
(* items: the per-scenario cells; b: bundles after merging in some order; a: across types            *)
AllCells(e) == FlattenSeq(e.items)
Cs(e, t, s) == SelectSeq(AllCells(e), LAMBDA c : c.type = t /\ c.step = s)
Plus2(cs, f(_)) == <<SumSeq([i \in DOMAIN cs |-> f(cs[i])[1]]), SumSeq([i \in DOMAIN cs |-> f(cs[i])[2]])>>
MeanIs(got, acc, name) ==
  Chk(IF acc[2] = 0 THEN got = 0 ELSE Within(got, acc[1] \div acc[2], 3), "mean: " \o name)
ApOf(cs, f(_)) ==
  LET n(b) == SumSeq([i \in DOMAIN cs |-> IF b <= Len(f(cs[i])) THEN f(cs[i])[b].n ELSE 0])
      s(b) == FlattenSeq([i \in DOMAIN cs |-> IF b <= Len(f(cs[i])) THEN f(cs[i])[b].s ELSE <<>>])
      used == SelectSeq([b \in 1..8 |-> b], LAMBDA b : n(b) > 0)
  IN IF used = <<>> THEN 0 ELSE SumSeq([i \in DOMAIN used |-> Area(s(used[i]), n(used[i]))]) \div Len(used)
BundleV(e, cs, b) ==
  MeanIs(b.ade, Plus2(cs, LAMBDA c : c.ade), "minimum average displacement") \cup
  MeanIs(b.fde, Plus2(cs, LAMBDA c : c.fde), "minimum final displacement") \cup
  MeanIs(b.miss, Plus2(cs, LAMBDA c : <<c.miss[1] * 1000, c.miss[2]>>), "miss rate") \cup
  MeanIs(b.ov, Plus2(cs, LAMBDA c : <<c.ov[1] * 1000, c.ov[2]>>), "overlap rate") \cup
  MeanIs(b.probe, Plus2(cs, LAMBDA c : c.probe), "custom metric") \cup
  Chk(Within(b.map, ApOf(cs, LAMBDA c : c.hard), 10), "mean average precision over all samples") \cup
  Chk(Within(b.smap, ApOf(cs, LAMBDA c : c.soft), 10), "soft mean average precision over all samples")
KeyLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MergeV(e) ==
  LET keys == SetToSortSeq({<<c.type, c.step>> : c \in SeqToSet(AllCells(e))}, KeyLess)
      steps == SetToSortSeq({c.step : c \in SeqToSet(AllCells(e))}, LAMBDA a, b : a < b)
      one(bs) == IF [i \in DOMAIN bs |-> <<bs[i].type, bs[i].step>>] # keys THEN {"bundles by object type, then horizon"}
                 ELSE UNION {BundleV(e, Cs(e, keys[i][1], keys[i][2]), bs[i]) : i \in DOMAIN keys}
      anyt(s) == SelectSeq(AllCells(e), LAMBDA c : c.step = s)
  IN IF ~e.ok THEN {"the merge succeeds"}
     ELSE one(e.b) \cup
          (IF e.batch = <<>> THEN {} ELSE {"batch call: " \o x : x \in one(e.batch)}) \cup
          (IF [i \in DOMAIN e.a |-> e.a[i].step] # steps THEN {"across types: one result per horizon"}
           ELSE {"across types: " \o x : x \in UNION {BundleV(e, anyt(steps[i]), e.a[i]) : i \in DOMAIN steps}})
NamesV(e) ==
  LET want == FlattenSeq([t \in 1..3 |-> [i \in DOMAIN e.steps |-> "TYPE_" \o Types[t + 1] \o "_" \o ToString(e.steps[i])]])
  IN Chk(e.cc = want, "breakdown names (C++)") \cup Chk(e.py = want, "breakdown names (Python)")

(* ---- C16 ---------------------------------------------------------------------------------------- *)
ShapeV(e) ==
  LET tr == [st |-> e.st]
      w == Shapes(e.cur + 1, tr)
  IN IF w = {} THEN Chk(e.got = "none", "no class without enough valid future")
     ELSE Chk(e.got # "none", "an observed future has a class") \cup
          Chk(e.got \in w \cup {"none"}, "the class follows displacement, turn and offset") \cup
          Chk(e.shift = e.got, "shifting the track changes nothing") \cup
          (IF ~Clear(e.cur + 1, tr) THEN {}
           ELSE Chk(\A i \in DOMAIN e.rot : e.rot[i] = e.got, "turning the track changes nothing") \cup
                Chk(e.mir = Mirror(e.got), "mirroring the track swaps left and right"))

Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.ev = "accept" -> AcceptV(e) [] e.ev = "challenge" -> ChallengeV(e) [] e.ev = "convert" -> ConvertV(e)
         [] e.ev = "eval13" -> EvalV(e, CellV13) [] e.ev = "eval14" -> EvalV(e, CellV14) [] e.ev = "curve" -> CurveV(e)
         [] e.ev = "merge" -> MergeV(e) [] e.ev = "names" -> NamesV(e) [] e.ev = "shape" -> ShapeV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
