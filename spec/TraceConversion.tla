---------------------------- MODULE TraceConversion ----------------------------
(* Validates recorded conversions: agents and signals. e.f[k] is the feature named k.               *)
EXTENDS Conversion, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Frame(cfg, t) == IF t < cfg.np THEN "past" ELSE IF t = cfg.np THEN "current" ELSE "future"
Width(cfg, fr) == CASE fr = "past" -> cfg.np - 1 [] fr = "current" -> 1 [] OTHER -> cfg.nf
Off(cfg, t) == IF t < cfg.np THEN t ELSE IF t = cfg.np THEN 1 ELSE t - cfg.np
Frames == {"past", "current", "future"}

(* agent features *)
StateKeys == {"x", "y", "z", "length", "width", "height", "velocity_x", "velocity_y", "bbox_yaw", "speed", "vel_yaw", "valid", "timestamp_micros"}
RowKeys == {"id", "type", "is_sdc", "is_context", "tracks_to_predict", "difficulty_level", "objects_of_interest"}
Key(g, fr, k) == g \o fr \o "/" \o k
SizedS(e) == \A fr \in Frames, k \in StateKeys :
               IF Width(e.cfg, fr) = 0 THEN Key("state/", fr, k) \notin DOMAIN e.f
               ELSE Key("state/", fr, k) \in DOMAIN e.f /\ Len(e.f[Key("state/", fr, k)]) = e.cfg.na * Width(e.cfg, fr)
SizedR(e) == \A k \in RowKeys : ("state/" \o k) \in DOMAIN e.f /\ Len(e.f["state/" \o k]) = e.cfg.na
Row(e, k, r) == e.f["state/" \o k][r]
Cell(e, k, r, t) == LET fr == Frame(e.cfg, t) IN e.f[Key("state/", fr, k)][(r - 1) * Width(e.cfg, fr) + Off(e.cfg, t)]

(* speeds are right triangles; directions in 1e-4 rad, from the base angles of the first octant *)
Base(a, b) == CASE b = 0 -> 0 [] a = b -> 7854 [] <<a, b>> = <<4, 3>> -> 6435 [] <<a, b>> = <<8, 6>> -> 6435
                [] <<a, b>> = <<12, 5>> -> 3948 [] <<a, b>> = <<15, 8>> -> 4900 [] OTHER -> -1
First(a, b) == IF a >= b THEN Base(a, b) ELSE 15708 - Base(b, a)
DirOf(x, y) == LET f == First(AbsI(x), AbsI(y))
               IN IF x >= 0 /\ y >= 0 THEN f ELSE IF x < 0 /\ y >= 0 THEN 31416 - f ELSE IF x < 0 THEN f - 31416 ELSE -f
TimeOf(s, t) == IF t \in DOMAIN s.ts THEN s.ts[t] ELSE -1000000

(* which track is in row r: by its id, for scenarios whose tracks have different ids *)
TrackOf(e, r) == LET c == {i \in DOMAIN e.s.tracks : e.s.tracks[i].id = Row(e, "id", r)}
                 IN IF c = {} THEN 0 ELSE Min(c)
CellBad(e, i, r, t) ==
  LET c(k) == Cell(e, k, r, t)
  IN IF Present(e.s, i, t)
     THEN LET o == e.s.tracks[i].st[t]
          IN Chk(c("valid") = 1, "valid states are marked valid") \cup
             Chk(/\ c("x") = o.x /\ c("y") = o.y /\ c("z") = o.z /\ c("bbox_yaw") = o.h
                 /\ c("length") = o.len /\ c("width") = o.wid /\ c("height") = o.hei
                 /\ c("velocity_x") = o.vx /\ c("velocity_y") = o.vy, "states are copied into their own row and step") \cup
             Chk(Within(c("timestamp_micros"), TimeOf(e.s, t), 2), "states carry their time") \cup
             Chk(c("speed") * c("speed") = o.vx * o.vx + o.vy * o.vy, "speed") \cup
             Chk(Within(c("vel_yaw"), DirOf(o.vx, o.vy), 2), "direction of motion")
     ELSE Chk(c("valid") = 0, "absent states are marked invalid") \cup
          Chk(\A k \in {"x", "y", "z", "length", "width", "height", "velocity_x", "velocity_y", "bbox_yaw", "speed", "timestamp_micros"} : c(k) = -1,
              "absent states hold no data")
RowBad(e, r) ==
  LET i == TrackOf(e, r)  m == Cardinality(Modelled(e.s, e.cfg))
  IN (IF i = 0
      THEN Chk(\A k \in RowKeys : Row(e, k, r) = -1, "padding rows are marked")
      ELSE Chk(Row(e, "type", r) = e.s.tracks[i].type, "object type") \cup
           Chk(Row(e, "is_sdc", r) = IF i = e.s.sdc + 1 THEN 1 ELSE 0, "the car is marked") \cup
           Chk(Row(e, "is_context", r) = (IF r > m THEN 1 ELSE 0) /\ Row(e, "tracks_to_predict", r) = (IF r > m THEN 0 ELSE 1), "rows to predict are marked") \cup
           Chk(Row(e, "difficulty_level", r) = Difficulty(e.s, i), "difficulty") \cup
           Chk(Row(e, "objects_of_interest", r) = IF OfInterest(e.s, i) THEN 1 ELSE 0, "objects of interest are marked")) \cup
     UNION {CellBad(e, i, r, t) : t \in 1..Steps(e.cfg)}
Agents(e) ==
  IF ~(SizedS(e) /\ SizedR(e)) THEN {"agent features have their sizes"}
  ELSE Chk(RowsOk([r \in 1..e.cfg.na |-> TrackOf(e, r)], e.s, e.cfg), "which agents, in which order") \cup
       UNION {RowBad(e, r) : r \in 1..e.cfg.na}

(* signals *)
SigKeys == {"x", "y", "z", "state", "id", "valid"}
SizedT(e) == \A fr \in Frames :
  IF Width(e.cfg, fr) = 0 THEN Key("traffic_light_state/", fr, "valid") \notin DOMAIN e.f
  ELSE /\ Key("traffic_light_state/", fr, "timestamp_micros") \in DOMAIN e.f
       /\ Len(e.f[Key("traffic_light_state/", fr, "timestamp_micros")]) = Width(e.cfg, fr)
       /\ \A k \in SigKeys : LET n == Key("traffic_light_state/", fr, k)
                             IN IF e.cfg.sl = 0 THEN n \notin DOMAIN e.f ELSE n \in DOMAIN e.f /\ Len(e.f[n]) = e.cfg.sl * Width(e.cfg, fr)
Sig(e, k, t, n) == LET fr == Frame(e.cfg, t) IN e.f[Key("traffic_light_state/", fr, k)][(Off(e.cfg, t) - 1) * e.cfg.sl + n]
SigBad(e, t) ==
  Chk(Within(e.f[Key("traffic_light_state/", Frame(e.cfg, t), "timestamp_micros")][Off(e.cfg, t)],
             IF t \in DOMAIN e.sig THEN TimeOf(e.s, t) ELSE -1, 2), "signal steps carry their time") \cup
  UNION {LET c(k) == Sig(e, k, t, n)
         IN IF SignalAt(e.sig, t, n, e.cfg)
            THEN LET o == e.sig[t][n]
                 IN Chk(c("valid") = 1, "signals are marked valid") \cup
                    Chk(c("id") = o.lane, "lane of the signal") \cup Chk(c("state") = o.state, "state of the signal") \cup
                    Chk(c("x") = o.x /\ c("y") = o.y /\ c("z") = o.z, "stop point of the signal")
            ELSE Chk(c("valid") = 0 /\ \A k \in SigKeys \ {"valid"} : c(k) = -1, "unused signal slots are invalid")
         : n \in 1..e.cfg.sl}
Signals(e) == IF ~SizedT(e) THEN {"signal features have their sizes"} ELSE UNION {SigBad(e, t) : t \in 1..Steps(e.cfg)}

Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE Chk(e.ok = Accepts(e.s, e.cfg), "accepted exactly when convertible") \cup
       (IF ~(e.ok /\ Accepts(e.s, e.cfg)) THEN {}
        ELSE IF e.k = "agents" THEN Agents(e) ELSE Signals(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
