-------------------------- MODULE TraceSimLikelihood --------------------------
(* Events. "cells": cfg, log, sim; got[o][t] - the probability reported, in millionths; where - which   *)
(* function; ended - "" or another end. "density": samples in half bandwidths, got in 1/Scale. "scene": *)
(* a scene, ll[name] in 1/Scale or undef, p[name] in millionths, meta, rates. "buckets", "mean".        *)
EXTENDS SimLikelihood, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Undef == -2000000000
Micro(n, d) ==      \* n/d in millionths
  LET r1 == (n % d) * 1000
      r2 == (r1 % d) * 1000 IN
  (n \div d) * 1000000 + (r1 \div d) * 1000 + r2 \div d
Close(got, n, d, tol) == AbsI(got - Micro(n, d)) <= tol
Cells1(e) ==
  Chk(DOMAIN e.got = DOMAIN e.log /\ \A o \in DOMAIN e.log : Len(e.got[o]) = Len(e.log[o]), "one estimate per sample") \cup
  (IF DOMAIN e.got # DOMAIN e.log \/ \E o \in DOMAIN e.log : Len(e.got[o]) # Len(e.log[o]) THEN {} ELSE
   Chk(\A x \in Cells(e.log) : LET p == P(e.cfg, e.log, e.sim, x[1], x[2]) IN Close(e.got[x[1]][x[2]], p.n, p.d, 20),
       "an estimate is the share of the samples in the logged value's bin"))
(* samples lie in clusters far apart (40 half bandwidths): only the nearest counts *)
Density1(e) ==
  Chk(\A o \in DOMAIN e.log : \A i \in 1..Len(e.log[o]) :
        LET d(j) == AbsI(e.sim[o][j] - e.log[o][i])
            m == Min({d(j) : j \in DOMAIN e.sim[o]})
            c == Cardinality({j \in DOMAIN e.sim[o] : d(j) = m}) IN
        AbsI(e.got[o][i] - (Ln(c, Len(e.sim[o])) - (m * m * Scale) \div 8)) <= 25 + m * m, "kernel density")
(* tolerance of an average logarithm: rounding of Ln and of single precision *)
Scene1(e) ==
  LET T(name) == LET w == LogLikelihood(e, name) IN
        Chk(IF w.n = 0 THEN TRUE ELSE e.ll[name] # Undef /\ AbsI(e.ll[name] - w.sum \div w.n) <= 40, name)
      R == Len(e.sim["linear_speed"])
      O == Len(e.valid)
      rate(name, got) == Close(got, Hits(e, name), R * O, 5)
      ade(r) == SumSeq(e.ade[r])
      all == \A name \in Names : e.ll[name] # Undef IN
  UNION {T(name) : name \in Names} \cup
  Chk(rate("collision_indication", e.rates.collision), "collision rate") \cup
  Chk(rate("offroad_indication", e.rates.offroad), "offroad rate") \cup
  Chk(rate("traffic_light_violation", e.rates.light), "violation rate") \cup
  Chk(Close(e.mean_ade, SumOver(1..R, ade), R * O, 40), "average displacement") \cup
  Chk(Close(e.min_ade, Min({ade(r) : r \in 1..R}), O, 40), "smallest average displacement") \cup
  Chk(e.id = e.got_id, "scenario id") \cup
  Chk(all => AbsI(SumOver(Names, LAMBDA n : (e.weight[n] * e.p[n]) \div 10) - 10 * e.meta) <= 60, "the meta metric weighs the likelihoods")
BucketOf(name) == IF name \in Kinematic THEN "kinematic" ELSE IF name \in Interactive THEN "interactive" ELSE "map_based"
Buckets1(e) ==
  LET B(b) == {n \in Names : BucketOf(n) = b}
      W(b) == SumOver(B(b), LAMBDA n : e.weight[n])
      V(b) == SumOver(B(b), LAMBDA n : (e.weight[n] * e.p[n]) \div 10)
      some == \A b \in {"kinematic", "interactive", "map_based"} : W(b) > 0 IN
  IF ~some THEN Chk(e.got.refused, "buckets without weight are refused")
  ELSE Chk(~e.got.refused, "buckets with weights are made") \cup
       (IF e.got.refused THEN {} ELSE
        UNION {Chk(AbsI((V(b) * 10) \div W(b) - e.got[b]) <= 60, b) : b \in {"kinematic", "interactive", "map_based"}} \cup
        Chk(e.got.rest = e.rest, "other figures are passed on"))
(* every figure of the whole is the mean of the figures of the scenarios *)
Mean1(e) ==
  UNION {Chk(f \in DOMAIN e.got, "every figure") \cup
         (IF f \notin DOMAIN e.got THEN {} ELSE
          LET s == SumOver(DOMAIN e.parts, LAMBDA i : e.parts[i][f]) IN Chk(AbsI(s \div Len(e.parts) - e.got[f]) <= 5, "mean of " \o f)) :
         f \in DOMAIN e.parts[1]} \cup Chk(~e.has_id, "the whole has no scenario id")
(* the shipped configurations *)
Config1(e) ==
  Chk(DOMAIN e.weight = Names, "all features are configured") \cup
  Chk(SumOver(DOMAIN e.weight, LAMBDA n : e.weight[n]) = 1000, "the weights are those of an average") \cup
  Chk(\A n \in DOMAIN e.weight : e.weight[n] >= 0 /\ e.kind[n] = (IF n \in Indications THEN "bernoulli" ELSE "histogram"), "estimators fit the features") \cup
  Chk(\A n \in DOMAIN e.width : e.width[n] > 0, "bins have a width")
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE
   CASE e.t = "cells" -> Cells1(e) [] e.t = "density" -> Density1(e) [] e.t = "scene" -> Scene1(e)
     [] e.t = "config" -> Config1(e) [] e.t = "buckets" -> Buckets1(e) [] e.t = "mean" -> Mean1(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
