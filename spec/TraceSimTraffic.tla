--------------------------- MODULE TraceSimTraffic ---------------------------
(* Events. "motion": p [x, y, z, h], dt; got [speed (mm/s), accel (mm/s2), turn, dturn (degrees/100 per *)
(* s, s2)], or Undef; valid, got_speed_ok, got_accel_ok. "displacement": p, q; got (mm).               *)
(* "near": boxes[o][t], valid[o][t], judged[o], f; got[e][t] in 1/250 m. "ttc": the same, dt, got in ms. *)
EXTENDS SimTraffic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Undef == -2000000000
Huge == 1000000000
Motion1(e) ==
  LET T == Len(e.p.x)
      N == TLCEval([t \in 2..(T - 1) |-> Norm100(Move(e.p, t))])
      W == TLCEval([t \in 2..(T - 1) |-> Turn2(e.p.h, t)])
      half(t) == W[t] = -180                 \* half a turn: either way round
      inner(g, k) == \A t \in 1..T : (t <= k \/ t > T - k) => g[t] = Undef
      dt == e.dt IN
  Chk(inner(e.got.speed, 1) /\ inner(e.got.turn, 1) /\ inner(e.got.accel, 2) /\ inner(e.got.dturn, 2), "no figure at the ends") \cup
  Chk(\A t \in 2..(T - 1) : AbsI(e.got.speed[t] * dt - 5 * N[t]) <= 8 + dt, "speed") \cup
  Chk(\A t \in 3..(T - 2) : AbsI(e.got.accel[t] * dt * dt - 25 * (N[t + 1] - N[t - 1])) <= 60 + dt * dt, "acceleration") \cup
  Chk(\A t \in 2..(T - 1) : AbsI(e.got.turn[t] * dt - 500 * W[t]) <= 8 + dt \/ (half(t) /\ AbsI(e.got.turn[t] * dt + 500 * W[t]) <= 8 + dt), "turn") \cup
  Chk(\A t \in 3..(T - 2) : half(t - 1) \/ half(t + 1) \/ AbsI(e.got.dturn[t] * dt * dt - 2500 * Turn4(e.p.h, t)) <= 30 + dt * dt, "change of turn") \cup
  Chk({t \in 1..T : e.got.speed_ok[t]} = SpeedOk(e.valid) /\ {t \in 1..T : e.got.accel_ok[t]} = AccelOk(e.valid), "steps with figures")
Displacement1(e) ==
  Chk(\A i \in DOMAIN e.p.x : AbsI(e.got[i] - Norm100(<<e.p.x[i] - e.q.x[i], e.p.y[i] - e.q.y[i], e.p.z[i] - e.q.z[i]>>)) <= 2, "displacement")
Judged(e) == SelectSeq([i \in DOMAIN e.boxes |-> i], LAMBDA i : e.judged[i])
Shape(e) == Len(e.got) = Len(Judged(e)) /\ \A k \in DOMAIN e.got : Len(e.got[k]) = Len(e.boxes[1])
Near1(e) ==
  LET J == TLCEval(Judged(e))
      ok(i, j, t) == e.valid[i][t] /\ e.valid[j][t]
      want(i, t) == LET others == {j \in DOMAIN e.boxes : j # i /\ ok(i, j, t)} IN
                    IF others = {} THEN Huge ELSE Min({Distance(e.boxes[i][t], e.boxes[j][t], e.f) : j \in others}) IN
  Chk(Shape(e), "one figure per object and step") \cup
  (IF ~Shape(e) THEN {} ELSE
   Chk(\A k \in DOMAIN J : \A t \in DOMAIN e.boxes[1] : AbsI(e.got[k][t] - want(J[k], t)) <= 4, "distance to the nearest object"))
Ttc1(e) ==
  LET J == TLCEval(Judged(e))
      T == Len(e.boxes[1])
      O == DOMAIN e.boxes
      speed(t) == [o \in O |-> Norm100(<<e.boxes[o][t + 1].x - e.boxes[o][t - 1].x, e.boxes[o][t + 1].y - e.boxes[o][t - 1].y, 0>>)]
      clear(i, t) == /\ e.valid[i][t] /\ \A o \in O : e.valid[o][t] => e.valid[o][t - 1] /\ e.valid[o][t + 1]
      fits(k, t) ==
        IF t = 1 \/ t = T THEN AbsI(e.got[k][t] - Far) <= 1
        ELSE clear(J[k], t) => LET w == Ttc([o \in O |-> e.boxes[o][t]], speed(t), [o \in O |-> e.valid[o][t]], J[k], e.dt) IN
                               e.got[k][t] >= w[1] - 2 /\ e.got[k][t] <= w[2] + 2 IN
  Chk(Shape(e), "one figure per object and step") \cup
  (IF ~Shape(e) THEN {} ELSE Chk(\A k \in DOMAIN J : \A t \in 1..T : fits(k, t), "time to collision"))
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE
   CASE e.t = "motion" -> Motion1(e) [] e.t = "displacement" -> Displacement1(e) [] e.t = "near" -> Near1(e) [] e.t = "ttc" -> Ttc1(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
