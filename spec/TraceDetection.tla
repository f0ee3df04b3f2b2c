----------------------------- MODULE TraceDetection -----------------------------
(* One event = one ComputeDetectionMeasurements call with its complete result. Shards, cutoffs   *)
(* and levels are checked against the classification; all levels of a shard and cutoff must be    *)
(* explained by one and the same allowed matching.                                                *)
EXTENDS Detection, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

IdxOfId(objs, ix, id) == CHOOSE i \in DOMAIN ix : objs[ix[i]].id = id
HasId(objs, ix, id) == \E i \in DOMAIN ix : objs[ix[i]].id = id

DetailV(e, ps, gs, a, sl, tp, m) ==
  LET d == m.det[1]
      n == Len(d.tpp)
  IN IF Len(m.det) # 1 THEN {"one detail record"}
     ELSE IF ~(Len(d.tpg) = n /\ Len(d.iou) = n /\ Len(d.ha) = n /\ Len(d.la) = n)
          THEN {"detail lists have equal length"}
     ELSE IF ~(\A k \in 1..n : HasId(e.P, ps, d.tpp[k]) /\ HasId(e.G, gs, d.tpg[k]))
          THEN {"details name the shard's objects"}
     ELSE LET ii == [k \in 1..n |-> IdxOfId(e.P, ps, d.tpp[k])]
              jj == [k \in 1..n |-> IdxOfId(e.G, gs, d.tpg[k])]
          IN Chk(SeqToSet(ii) = tp /\ Distinct(ii) /\ \A k \in 1..n : a[ii[k]] = jj[k],
                 "details list the true positive pairs") \cup
             Chk(\A k \in 1..n : Within(d.iou[k], IoUOf(e.P, e.G, e.iou, ps[ii[k]], gs[jj[k]]), 1),
                 "details' overlaps") \cup
             Chk(\A k \in 1..n : Within(d.ha[k], HeadAcc(e.P[ps[ii[k]]], e.G[gs[jj[k]]]), 2),
                 "details' heading accuracies") \cup
             Chk(\A k \in 1..n : Within(d.la[k], PairLA(e.cfg, e.P[ps[ii[k]]], e.G[gs[jj[k]]]), 150),
                 "details' longitudinal affinities") \cup
             LET fpi == {i \in DOMAIN ps : e.P[ps[i]].id \in SeqToSet(d.fp)}
             IN Chk(/\ Distinct(d.fp) /\ Len(d.fp) = Cardinality(fpi) /\ m.fp = Len(d.fp)
                    /\ MustFP(e.P, e.G, e.iou, ps, gs, a, sl) \subseteq fpi
                    /\ fpi \subseteq MayFP(e.P, e.G, e.iou, ps, gs, a, sl), "details list the false positives") \cup
             Chk(SeqToSet(d.fn) = {e.G[gs[j]].id : j \in FNs(e.G, gs, a, sl)} /\ Distinct(d.fn),
                 "details list the false negatives")

MeasV(e, ps, gs, a, sl, m) ==
  LET tp == TPs(e.cfg, e.P, e.G, ps, gs, a, sl)
  IN Chk(m.tp = Cardinality(tp), "true positives") \cup
     Chk(/\ Cardinality(MustFP(e.P, e.G, e.iou, ps, gs, a, sl)) <= m.fp
         /\ m.fp <= Cardinality(MayFP(e.P, e.G, e.iou, ps, gs, a, sl)), "false positives") \cup
     Chk(m.fn = Cardinality(FNs(e.G, gs, a, sl)), "false negatives") \cup
     Chk(Within(m.ha, SumHA(e.P, e.G, ps, gs, a, tp), 2 + 2 * Len(ps)), "summed heading accuracy") \cup
     Chk(Within(m.la, SumLA(e.cfg, e.P, e.G, ps, gs, a, tp), 2 + 150 * Len(ps)), "summed longitudinal affinity") \cup
     (IF e.cfg.det THEN DetailV(e, ps, gs, a, sl, tp, m) ELSE Chk(m.det = <<>>, "no details unless asked"))

(* all levels of one shard, at cutoff position c; rows: slot positions *)
ShardV(e, sl, rows, c) ==
  LET g == sl[rows[1]].g  s == sl[rows[1]].s
      ps == Subset(g, s, e.P, TRUE, e.cfg.cuts[c])
      gs == Subset(g, s, e.G, TRUE, NONE)
      all == Matchings(e.cfg, e.P, e.G, e.iou, ps, gs)
      vs(a) == UNION {MeasV(e, ps, gs, a, sl[r], e.r[r].ms[c]) : r \in SeqToSet(rows)}
  IN IF \E a \in all : vs(a) = {} THEN {}
     ELSE IF Cardinality(all) = 1 THEN vs(CHOOSE a \in all : TRUE)
     ELSE {"some allowed matching explains the counts"} \cup vs(CHOOSE a \in all : TRUE)

DetV(e) ==
  LET sl == Slots(e.cfg)
  IN IF Len(e.r) # Len(sl) THEN {"one result per breakdown"}
     ELSE IF ~(\A i \in DOMAIN sl : e.r[i].b = <<sl[i].g, sl[i].s, sl[i].d>>) THEN {"results in breakdown order"}
     ELSE IF ~(\A i \in DOMAIN sl : Len(e.r[i].ms) = Len(e.cfg.cuts)
                   /\ \A c \in DOMAIN e.cfg.cuts : Within(e.r[i].ms[c].cut, e.cfg.cuts[c], 0))
          THEN {"one measurement per cutoff"}
     ELSE LET keys == {<<sl[i].k, sl[i].s>> : i \in DOMAIN sl}
              rows(k) == SelectSeq([i \in DOMAIN sl |-> i], LAMBDA i : <<sl[i].k, sl[i].s>> = k)
          IN UNION {ShardV(e, sl, rows(k), c) : k \in keys, c \in DOMAIN e.cfg.cuts}

Verdict(e) == IF e.crash # "" THEN {"no crash or hang"} ELSE DetV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
