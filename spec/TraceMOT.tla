-------------------------------- MODULE TraceMOT --------------------------------
(* Replays recorded tracking evaluations through the specification. Events: "start", "frame".   *)
(* When the per-frame pairs were not recorded (details off) the specification keeps the set of  *)
(* all mappings that explain the counters so far.                                                *)
EXTENDS MOT, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, cfg, H, c, ok, nfr
vars == <<l, bad, cfg, H, c, ok, nfr>>

CostOk(a, b) == Within(a, b.cost, 2 + b.match \div 4)
SameCounters(m, d) == /\ m.miss = d.miss /\ m.fp = d.fp /\ m.mm = d.mm
                      /\ m.match = d.match /\ m.gt = d.gt /\ CostOk(m.cost, d)

Pairs(o) == {<<o.tg[i], o.tp[i]>> : i \in DOMAIN o.tg}
DetailVerdict(m0, f, o) ==
  LET now == Pairs(o)
      kept == Kept(cfg, m0, f)
      shape == /\ Len(o.tg) = Len(o.tp) /\ Distinct(o.tg) /\ Distinct(o.tp)
               /\ SeqToSet(o.tg) \subseteq Ids(f.g) /\ SeqToSet(o.tp) \subseteq Ids(f.p)
  IN IF ~shape THEN {"reported pairs are one-to-one over the frame's objects"}
     ELSE LET d == Count(cfg, c, m0, f, now)
              new == now \ kept
              el == EligibleNew(cfg, f, kept, new)
          IN Chk(kept \subseteq now, "still-valid correspondences are kept") \cup
             Chk(kept \subseteq now => el, "new pairs are free and eligible") \cup
             Chk((kept \subseteq now /\ el) => OptimalNew(cfg, f, kept, new), "new pairs follow the matcher") \cup
             Chk(o.m.match = d.match, "matches") \cup
             Chk(o.m.miss = d.miss, "misses") \cup
             Chk(o.m.fp = d.fp, "false positives") \cup
             Chk(o.m.mm = d.mm, "identity switches") \cup
             Chk(o.m.gt = d.gt, "ground truth count") \cup
             Chk(CostOk(o.m.cost, d), "matching cost") \cup
             Chk(SeqToSet(o.fn) = {f.g[i].id : i \in {k \in DOMAIN f.g : ~Matched(now, k, f)}}
                   /\ Distinct(o.fn), "reported misses") \cup
             Chk(SeqToSet(o.fpi) = {f.p[i].id : i \in {k \in FirstIdx(f.p) : GtOf(now, f.p[k].id) = {}}},
                 "reported false positives") \cup
             Chk(o.m.nd = nfr + 1, "one detail record per frame")

Explaining(f, o) ==
  {x \in UNION {{<<m0, Kept(cfg, m0, f) \cup s>> : s \in NewChoices(cfg, f, Kept(cfg, m0, f))} : m0 \in H} :
      SameCounters(o.m, Count(cfg, c, x[1], f, x[2]))}

Start(e) == /\ cfg' = [kind |-> e.kind, thr |-> e.thr, level |-> e.level, det |-> e.det]
            /\ H' = {{}} /\ c' = Zero /\ nfr' = 0
            /\ ok' = (e.crash = "")
            /\ bad' = IF e.crash = "" THEN bad ELSE Append(bad, [l |-> l, v |-> {"no crash or hang"}])
FrameDet(e) ==
  LET m0 == CHOOSE m \in H : TRUE
      v == DetailVerdict(m0, e.f, e.o)
      now == Pairs(e.o)
  IN IF v = {} THEN /\ H' = {NextMap(m0, now)}
                    /\ c' = [Count(cfg, c, m0, e.f, now) EXCEPT !.cost = e.o.m.cost]
                    /\ nfr' = nfr + 1
                    /\ UNCHANGED <<cfg, ok, bad>>
     ELSE /\ ok' = FALSE /\ bad' = Append(bad, [l |-> l, v |-> v])
          /\ UNCHANGED <<cfg, H, c, nfr>>
FrameNoDet(e) ==
  LET x == Explaining(e.f, e.o)
  IN IF x # {} /\ e.o.m.nd = 0
     THEN /\ H' = {NextMap(y[1], y[2]) : y \in x}
          /\ c' = [k \in DOMAIN Zero |-> e.o.m[k]]
          /\ nfr' = nfr + 1
          /\ UNCHANGED <<cfg, ok, bad>>
     ELSE /\ ok' = FALSE
          /\ bad' = Append(bad, [l |-> l, v |-> {"some allowed matching explains the counters"}])
          /\ UNCHANGED <<cfg, H, c, nfr>>
Init == l = 1 /\ bad = <<>> /\ cfg = 0 /\ H = {} /\ c = 0 /\ ok = FALSE /\ nfr = 0
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
           IN IF e.ev = "start" THEN Start(e)
              ELSE IF ~ok \/ Len(bad) > 40 THEN UNCHANGED <<bad, cfg, H, c, ok, nfr>>
              ELSE IF cfg.det THEN FrameDet(e) ELSE FrameNoDet(e)
Spec == Init /\ [][Next]_vars
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
