------------------------------ MODULE Conversion ------------------------------
(* Converting a scenario into fixed-size agent features (C17) and traffic signal features (C19).   *)
(*   cfg = [na |-> rows, nm |-> most modelled agents, np |-> past steps incl. the current one,      *)
(*          nf |-> future steps, sl |-> signal slots per step, src |-> source polyline spacing]     *)
(*   tracks[i] = [id, type (0: unset), st |-> <<[v, x, y, ...], ...>>]; ttp = <<[i (from 0), d]>>   *)
EXTENDS VCommon

Steps(cfg) == cfg.np + cfg.nf
Cur(cfg) == cfg.np

ValidAt(tr, k) == k \in DOMAIN tr.st /\ tr.st[k].v = 1
NumValid(tr) == CountIn(tr.st, LAMBDA s : s.v = 1)

WellFormed(s) ==
  /\ s.T > 0
  /\ s.sdc \in 0..(Len(s.tracks) - 1)
  /\ \A i \in DOMAIN s.tracks : Len(s.tracks[i].st) = s.T
  /\ \A j \in DOMAIN s.ttp : s.ttp[j].i \in 0..(Len(s.tracks) - 1)
ConfigFits(s, cfg) == cfg.np >= 1 /\ cfg.nf >= 0 /\ cfg.src > 0 /\ s.T >= cfg.np

(* the tracks to predict, in the listed order, that are valid now, up to the configured number *)
AddModelled(acc, s, cfg, j) ==
  LET i == s.ttp[j].i + 1
  IN IF ValidAt(s.tracks[i], Cur(cfg)) /\ Cardinality(acc) < cfg.nm THEN acc \cup {i} ELSE acc
Modelled(s, cfg) == FoldLeft(LAMBDA acc, j : AddModelled(acc, s, cfg, j), {}, [j \in DOMAIN s.ttp |-> j])

Accepts(s, cfg) ==
  /\ WellFormed(s) /\ ConfigFits(s, cfg)
  /\ Modelled(s, cfg) # {} /\ Cardinality(Modelled(s, cfg)) <= cfg.na

(* context agents: those valid now before the others; valid ones by distance to the car, the others *)
(* by how often they are seen. Prior(a, b): a must come before b.                                    *)
Dist2(s, cfg, i) ==
  LET a == s.tracks[i].st[Cur(cfg)]  c == s.tracks[s.sdc + 1].st[Cur(cfg)]
  IN (a.x - c.x) * (a.x - c.x) + (a.y - c.y) * (a.y - c.y)
Prior(s, cfg, a, b) ==
  LET va == ValidAt(s.tracks[a], Cur(cfg))  vb == ValidAt(s.tracks[b], Cur(cfg))
  IN IF va /\ vb THEN Dist2(s, cfg, a) < Dist2(s, cfg, b)
     ELSE IF va \/ vb THEN va
     ELSE NumValid(s.tracks[a]) > NumValid(s.tracks[b])

(* rows: a sequence of track indices, 0 for padding. *)
RowsOk(rows, s, cfg) ==
  LET M == Modelled(s, cfg)  m == Cardinality(M)
      used == {i \in 1..Len(rows) : rows[i] # 0}
      ctx == (m + 1)..MinI(cfg.na, Len(s.tracks))
      others == (DOMAIN s.tracks) \ M
  IN /\ Len(rows) = cfg.na
     /\ used = 1..MinI(cfg.na, Len(s.tracks))
     /\ \A i, j \in used : i # j => rows[i] # rows[j]
     /\ {rows[i] : i \in 1..m} = M
     /\ \A i \in 1..(m - 1) : s.tracks[rows[i]].id <= s.tracks[rows[i + 1]].id
     /\ \A i \in ctx : rows[i] \in others
     /\ \A i \in ctx : \A o \in others :
          (\A j \in ctx : j <= i => rows[j] # o) => ~Prior(s, cfg, o, rows[i])

(* the first track with an id of interest *)
OfInterest(s, i) == \E k \in DOMAIN s.ooi : s.ooi[k] = s.tracks[i].id /\ \A j \in 1..(i - 1) : s.tracks[j].id # s.ooi[k]
Difficulty(s, i) ==
  LET js == {j \in DOMAIN s.ttp : s.ttp[j].i = i - 1}
  IN IF js = {} THEN 0 ELSE s.ttp[Min(js)].d

(* a state is present when the source state is valid and the track has a type *)
Present(s, i, t) == i # 0 /\ s.tracks[i].type # 0 /\ ValidAt(s.tracks[i], t)

(* ---- traffic signals: at step t the first cfg.sl lane states of that step ---- *)
SignalAt(sig, t, k, cfg) == t \in DOMAIN sig /\ k \in DOMAIN sig[t] /\ k <= cfg.sl
=============================================================================
