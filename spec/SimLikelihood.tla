----------------------------- MODULE SimLikelihood -----------------------------
(* How likely the logged behaviour is under the simulated rollouts, and the metrics of a scenario.      *)
(* A feature is a grid of integers: log[o][t] and sim[r][o][t] for objects o, steps t, rollouts r. Its  *)
(* configuration: kind "histogram" (min, max, bins) or "bernoulli" (values 0 and 1); smooth, the pseudo *)
(* count in thousandths; indep, steps pooled; agg, objects pooled.                                      *)
EXTENDS VCommon

Bins(c) == IF c.kind = "bernoulli" THEN 2 ELSE c.bins
(* values beyond the ends count at the ends; the last bin is closed *)
Bin(c, v) ==
  IF c.kind = "bernoulli" THEN v
  ELSE LET w == MinI(MaxI(v, c.min), c.max) IN MinI(((w - c.min) * c.bins) \div (c.max - c.min), c.bins - 1)
Objects(log) == DOMAIN log
Steps(log) == DOMAIN log[1]
Cells(log) == Objects(log) \X Steps(log)
(* the simulated samples a logged sample is compared with *)
Pool(c, log, sim, o, t) ==
  (DOMAIN sim) \X (IF c.agg THEN Objects(log) ELSE {o}) \X (IF c.indep THEN Steps(log) ELSE {t})
(* the probability of a bin, as a fraction of thousandths *)
PBin(c, log, sim, o, t, b) ==
  LET pool == Pool(c, log, sim, o, t) IN
  [n |-> 1000 * Cardinality({x \in pool : Bin(c, sim[x[1]][x[2]][x[3]]) = b}) + c.smooth,
   d |-> 1000 * Cardinality(pool) + Bins(c) * c.smooth]
P(c, log, sim, o, t) == PBin(c, log, sim, o, t, Bin(c, log[o][t]))

(* natural logarithm of the fraction n/d in (0, 1], in units of 1/Scale; d up to 42000 *)
Scale == 50000
Ln2 == 34657
RECURSIVE LnUp(_, _, _)
LnUp(n, d, k) ==
  IF 2 * n <= d THEN LnUp(2 * n, d, k + 1)
  ELSE LET y == ((d - n) * Scale) \div (d + n)      \* ln(d/n) = 2 atanh((d-n)/(d+n)), d/n in [1, 2)
           y2 == (y * y) \div Scale
           y3 == (y * y2) \div Scale
           y5 == (y3 * y2) \div Scale
           y7 == (y5 * y2) \div Scale
           y9 == (y7 * y2) \div Scale IN
       -(2 * (y + y3 \div 3 + y5 \div 5 + y7 \div 7 + y9 \div 9) + k * Ln2)
Ln(n, d) == LnUp(n, d, 0)

(* which steps of an object count *)
SpeedSteps(v) == {t \in DOMAIN v : t > 1 /\ t < Len(v) /\ v[t - 1] /\ v[t + 1]}
AccelSteps(v) == {t \in DOMAIN v : t - 1 \in SpeedSteps(v) /\ t + 1 \in SpeedSteps(v)}
ValidSteps(v) == {t \in DOMAIN v : v[t]}
Kinematic == {"linear_speed", "angular_speed", "linear_acceleration", "angular_acceleration"}
Series == Kinematic \cup {"distance_to_nearest_object", "time_to_collision", "distance_to_road_edge"}
Indications == {"collision_indication", "offroad_indication", "traffic_light_violation"}
Interactive == {"distance_to_nearest_object", "collision_indication", "time_to_collision"}
MapBased == {"distance_to_road_edge", "offroad_indication", "traffic_light_violation"}
Names == Series \cup Indications
VehicleOnly == {"time_to_collision", "traffic_light_violation"}
(* s: a scene [valid: o -> t -> bool, vehicle: o -> bool, cfg, log, sim: name -> ...] *)
Counted(s, name, o) ==
  IF name \in VehicleOnly /\ ~s.vehicle[o] THEN {}
  ELSE IF name \in {"linear_speed", "angular_speed"} THEN SpeedSteps(s.valid[o])
  ELSE IF name \in {"linear_acceleration", "angular_acceleration"} THEN AccelSteps(s.valid[o])
  ELSE ValidSteps(s.valid[o])
AnyOf(row, steps) == IF \E t \in steps : row[t] = 1 THEN 1 ELSE 0
(* indications are gathered over the steps that count *)
LogOf(s, name) ==
  IF name \in Series THEN s.log[name] ELSE [o \in DOMAIN s.valid |-> <<AnyOf(s.log[name][o], Counted(s, name, o))>>]
SimOf(s, name) ==
  IF name \in Series THEN s.sim[name]
  ELSE [r \in DOMAIN s.sim[name] |-> [o \in DOMAIN s.valid |-> <<AnyOf(s.sim[name][r][o], Counted(s, name, o))>>]]
CellsOf(s, name) ==
  IF name \in Series THEN UNION {{o} \X Counted(s, name, o) : o \in DOMAIN s.valid} ELSE {<<o, 1>> : o \in DOMAIN s.valid}
(* the logarithm of the likelihood: the average over what counts *)
LogLikelihood(s, name) ==
  LET c == s.cfg[name]
      log == TLCEval(LogOf(s, name))
      sim == TLCEval(SimOf(s, name))
      cells == TLCEval(CellsOf(s, name))
      sum == SumOver(cells, LAMBDA x : LET p == P(c, log, sim, x[1], x[2]) IN Ln(p.n, p.d)) IN
  [sum |-> sum, n |-> Cardinality(cells)]
(* rates over all rollouts and objects; the rate of violations counts objects of all types *)
Hits(s, name) == SumOver((DOMAIN s.sim[name]) \X (DOMAIN s.valid), LAMBDA x : AnyOf(s.sim[name][x[1]][x[2]], ValidSteps(s.valid[x[2]])))
=============================================================================
