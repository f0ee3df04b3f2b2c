------------------------------ MODULE TraceTracking ------------------------------
(* Events: "again" repeated runs of one scene; "meas" one scene's ComputeTrackingMeasurements; "sum" merged totals and metrics.        *)
EXTENDS Tracking, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
CostOk(a, b) == Within(a, b, 400)

(* ---- one scene ------------------------------------------------------------------------------ *)
Pairs(o) == {<<o.tg[i], o.tp[i]>> : i \in DOMAIN o.tg}
(* walks the reported pairs through the accounting; st = [m, c, v] *)
Walk(mc, st, f, o) ==
  LET now == Pairs(o)
      kept == Kept(mc, st.m, f)
      new == now \ kept
      shape == /\ Len(o.tg) = Len(o.tp) /\ Distinct(o.tg) /\ Distinct(o.tp)
               /\ SeqToSet(o.tg) \subseteq Ids(f.g) /\ SeqToSet(o.tp) \subseteq Ids(f.p)
      v == IF ~shape THEN {"reported pairs are one-to-one over the shard's objects above the cutoff"}
           ELSE IF ~(kept \subseteq now) THEN {"still-valid correspondences are kept"}
           ELSE IF ~EligibleNew(mc, f, kept, new) THEN {"new pairs are free and eligible"}
           ELSE Chk(OptimalNew(mc, f, kept, new), "new pairs follow the matcher") \cup
                Chk(SeqToSet(o.fn) = {f.g[i].id : i \in {k \in DOMAIN f.g : ~Matched(now, k, f)}}
                      /\ Distinct(o.fn), "reported misses") \cup
                Chk(SeqToSet(o.fpi) = {f.p[i].id : i \in {k \in FirstIdx(f.p) : GtOf(now, f.p[k].id) = {}}},
                    "reported false positives")
  IN IF st.v # {} \/ v # {} THEN [st EXCEPT !.v = @ \cup v]
     ELSE [m |-> NextMap(st.m, now), c |-> Count(mc, st.c, st.m, f, now), v |-> {}]
CountV(c, m) ==
  Chk(m.match = c.match, "matches") \cup Chk(m.miss = c.miss, "misses") \cup
  Chk(m.fp = c.fp, "false positives") \cup Chk(m.mm = c.mm, "identity switches") \cup
  Chk(m.gt = c.gt, "ground truth count") \cup Chk(CostOk(m.cost, c.cost), "matching cost")
MeasV(mc, frames, m) ==
  IF Len(m.det) # Len(frames) THEN {"one detail record per frame"}
  ELSE LET st == FoldLeft(LAMBDA s, i : Walk(mc, s, frames[i], m.det[i]),
                          [m |-> {}, c |-> Zero, v |-> {}], [i \in DOMAIN frames |-> i])
       IN IF st.v # {} THEN st.v ELSE CountV(st.c, m)
NoDetV(mc, frames, m) ==
  Chk(m.det = <<>>, "no details unless asked") \cup
  Chk(\E x \in Outcomes(mc, frames) : CountV(x[2], m) = {}, "some allowed run explains the counts")
SceneV(e) ==
  LET fr == WithSpeed(e.cfg, e.fr)
      sl == Slots(e.cfg)
  IN IF fr = <<>> THEN Chk(e.r = <<>>, "no frames, no measurements")
     ELSE IF Len(e.r) # Len(sl) THEN {"one result per breakdown"}
     ELSE UNION {
       LET r == e.r[i]  s == sl[i]
       IN IF r.b # <<s.g, s.s, s.d>> THEN {"breakdowns in order"}
          ELSE IF Len(r.ms) # Len(e.cfg.cuts) THEN {"one measurement per cutoff"}
          ELSE UNION {
             Chk(r.ms[c].cut = e.cfg.cuts[c], "score cutoffs") \cup
             (LET frames == MotFrames(fr, s.g, s.s, e.cfg.cuts[c])
              IN IF e.cfg.det THEN MeasV(MotCfg(e.cfg, s.d), frames, r.ms[c])
                 ELSE NoDetV(MotCfg(e.cfg, s.d), frames, r.ms[c])) : c \in DOMAIN e.cfg.cuts}
       : i \in DOMAIN sl}

(* ---- totals of scenes (e.parts, each <<b -> [b, ms]>>) and the metrics derived --------------- *)
(* e.out[b] = [b, ms, mota, motp, miss, mm, fp, gt, cut]                                           *)
(* within a frame the order of the pairs is not defined *)
Norm(det) == [i \in DOMAIN det |-> <<Pairs(det[i]), SeqToSet(det[i].fn), SeqToSet(det[i].fpi),
                                     Len(det[i].tg), Len(det[i].tp), Len(det[i].fn), Len(det[i].fpi)>>]
SumV(e) ==
  LET K == {k \in DOMAIN e.parts : e.parts[k] # <<>>}
      first == Min(K)
      tot(b, c, f) == SumOver(K, LAMBDA k : e.parts[k][b].ms[c][f])
      okb(b) ==
        LET o == e.out[b]
            ms == [c \in DOMAIN o.ms |-> [f \in DOMAIN Zero |-> o.ms[c][f]]]
            okc(c) ==
              UNION {Chk(o.ms[c][f] = tot(b, c, f), "scenes add up: " \o f) : f \in DOMAIN Zero \ {"cost"}} \cup
              Chk(Within(o.ms[c].cost, tot(b, c, "cost"), 3 + Cardinality(K)), "costs add up") \cup
              Chk(Norm(o.ms[c].det) = FlattenSeq([k \in DOMAIN e.parts |->
                     IF e.parts[k] = <<>> THEN <<>> ELSE Norm(e.parts[k][b].ms[c].det)]), "details of every scene kept") \cup
              Chk(o.ms[c].cut = e.parts[first][b].ms[c].cut, "cutoff kept")
            cand == {c \in DOMAIN ms : PointOk(ms, c) /\ o.ms[c].cut = o.cut}
            pv(c) == Chk(Within(o.mota, P6(Good(ms[c]), ms[c].gt), 2), "accuracy at the operating point") \cup
                     Chk(Within(o.miss, P6(ms[c].miss, ms[c].gt), 2), "miss ratio") \cup
                     Chk(Within(o.fp, P6(ms[c].fp, ms[c].gt), 2), "false positive ratio") \cup
                     Chk(Within(o.mm, P6(ms[c].mm, ms[c].gt), 2), "mismatch ratio") \cup
                     Chk(Within(o.motp, IF ms[c].match = 0 THEN 0 ELSE o.ms[c].cost \div ms[c].match, 3),
                         "precision is the cost per match")
        IN UNION {okc(c) : c \in DOMAIN o.ms} \cup
           (IF Counted(ms) = {} THEN Chk(o.gt = 0, "no ground truths") ELSE Chk(o.gt = ms[Max(Counted(ms))].gt, "number of ground truths")) \cup
           (IF BestPoints(ms) = {}
            \* an accuracy of exactly zero may come out a rounding above it
            THEN Chk((\E c \in DOMAIN ms : ms[c].gt > 0 /\ Good(ms[c]) = 0 /\ o.ms[c].cut = o.cut /\ pv(c) = {}) \/
                     (o.mota = 0 /\ o.motp = 0 /\ o.miss = 0 /\ o.fp = 0 /\ o.mm = 0 /\ o.cut = 0),
                     "no operating point with positive accuracy")
            ELSE IF cand = {} THEN {"the operating point has the highest accuracy"}
            ELSE IF \E c \in cand : pv(c) = {} THEN {} ELSE pv(Min(cand)))
  IN IF K = {} THEN Chk(e.out = <<>>, "nothing from nothing")
     ELSE IF Len(e.out) # Len(e.parts[first]) THEN {"one metric per breakdown"}
     ELSE IF \E b \in DOMAIN e.out : e.out[b].b # e.parts[first][b].b \/ Len(e.out[b].ms) # Len(e.parts[first][b].ms)
          THEN {"breakdowns kept"}
     ELSE UNION {okb(b) : b \in DOMAIN e.out}

(* ---- the same scene evaluated again, by another process -------------------------------------- *)
SameM(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a :
   (\A f \in DOMAIN Zero \ {"cost"} : a[i][f] = b[i][f]) /\ Within(a[i].cost, b[i].cost, 3) /\ Norm(a[i].det) = Norm(b[i].det)
AgainV(e) == Chk(\A k \in DOMAIN e.again : Len(e.again[k]) = Len(e.r) /\
                    \A b \in DOMAIN e.r : e.again[k][b].b = e.r[b].b /\ SameM(e.r[b].ms, e.again[k][b].ms),
                 "evaluated again, a scene gives the same measurements")

Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.ev = "meas" -> SceneV(e) [] e.ev = "sum" -> SumV(e) [] e.ev = "again" -> AgainV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
