----------------------------- MODULE MC_Conversion -----------------------------
(* The converter as a machine: read the list of tracks to predict one by one, sort them in, take the *)
(* context agents one by one, pad.                                                                   *)
EXTENDS Conversion, Json
CONSTANTS NT, Vis, Emit
VARIABLES s, cfg, phase, j, M, rows
vars == <<s, cfg, phase, j, M, rows>>
Idle == [T |-> 0]
St(v, x) == [v |-> v, x |-> x, y |-> 0]
(* position 2k tells tracks apart; the second past step only feeds the count of valid states *)
Tr(i, vis, x) == [id |-> 10 - 3 * i, type |-> 1, st |-> <<St(IF vis > 1 THEN 1 ELSE 0, 0), St(vis % 2, x)>>]
Init == s = Idle /\ cfg = Idle /\ phase = "in" /\ j = 1 /\ M = {} /\ rows = <<>>
Place == /\ phase = "in"
         /\ \E vis \in [1..NT -> Vis], sdc \in 0..(NT - 1) : \E x \in [(1..NT) \ {sdc + 1} -> {1, 4}] :
              s' = [T |-> 2, sdc |-> sdc, tracks |-> [i \in 1..NT |-> Tr(i, vis[i], IF i = sdc + 1 THEN 2 ELSE x[i])],
                    ttp |-> <<>>, ooi |-> <<>>]
         /\ phase' = "ask" /\ UNCHANGED <<cfg, j, M, rows>>
Ask == /\ phase = "ask"
       /\ \E ttp \in UNION {[1..n -> 0..(NT - 1)] : n \in 1..2}, na \in 1..NT + 1, nm \in 1..2 :
            /\ s' = [s EXCEPT !.ttp = [k \in DOMAIN ttp |-> [i |-> ttp[k], d |-> k]]]
            /\ cfg' = [na |-> na, nm |-> nm, np |-> 2, nf |-> 0, sl |-> 1, src |-> 1]
       /\ phase' = "scan" /\ UNCHANGED <<j, M, rows>>
Scan == /\ phase = "scan" /\ j <= Len(s.ttp)
        /\ M' = AddModelled(M, s, cfg, j) /\ j' = j + 1 /\ UNCHANGED <<s, cfg, phase, rows>>
Scanned == phase = "scan" /\ j = Len(s.ttp) + 1
Reject == Scanned /\ (M = {} \/ Cardinality(M) > cfg.na) /\ phase' = "rejected" /\ UNCHANGED <<s, cfg, j, M, rows>>
Sorted == /\ Scanned /\ M # {} /\ Cardinality(M) <= cfg.na
          /\ rows' = SetToSortSeq(M, LAMBDA a, b : s.tracks[a].id < s.tracks[b].id)
          /\ phase' = "context" /\ UNCHANGED <<s, cfg, j, M>>
Left == (1..NT) \ SeqToSet(rows)
Context == /\ phase = "context" /\ Len(rows) < cfg.na /\ Left # {}
           /\ \E i \in Left : (\A o \in Left : ~Prior(s, cfg, o, i)) /\ rows' = Append(rows, i)
           /\ UNCHANGED <<s, cfg, phase, j, M>>
Pad == /\ phase = "context" /\ Len(rows) < cfg.na /\ Left = {}
       /\ rows' = Append(rows, 0) /\ UNCHANGED <<s, cfg, phase, j, M>>
Done == phase = "context" /\ Len(rows) = cfg.na /\ phase' = "done" /\ UNCHANGED <<s, cfg, j, M, rows>>
Next == Place \/ Ask \/ Scan \/ Reject \/ Sorted \/ Context \/ Pad \/ Done
Spec == Init /\ [][Next]_vars

Fits == phase = "done" => RowsOk(rows, s, cfg)
RejectedRight == phase = "rejected" => ~Accepts(s, cfg)
NoRepeat == \A a, b \in DOMAIN rows : (a # b /\ rows[a] # 0) => rows[a] # rows[b]
(* the tracks to predict that are valid now are all there, as far as the limit allows *)
ToPredictIn == phase = "done" => \A k \in DOMAIN s.ttp :
   (ValidAt(s.tracks[s.ttp[k].i + 1], 2) /\ s.ttp[k].i + 1 \notin SeqToSet(rows)) => Cardinality(M) = cfg.nm
(* the car is closest to itself: if it is valid now and there is any room, it is in *)
CarIn == (phase = "done" /\ ValidAt(s.tracks[s.sdc + 1], 2) /\ Cardinality(M) < cfg.na) => s.sdc + 1 \in SeqToSet(rows)
(* nothing left out is valid now while something invalid was taken as context *)
ValidFirst == phase = "done" => \A o \in Left : ValidAt(s.tracks[o], 2) =>
   \A k \in DOMAIN rows : rows[k] # 0 => ValidAt(s.tracks[rows[k]], 2)
(* Prior is a strict weak order, so sorting by it is well defined *)
WeakOrder == phase = "scan" => \A a, b, c \in 1..NT :
   /\ ~Prior(s, cfg, a, a)
   /\ Prior(s, cfg, a, b) /\ Prior(s, cfg, b, c) => Prior(s, cfg, a, c)
   /\ ~Prior(s, cfg, a, b) /\ ~Prior(s, cfg, b, c) => ~Prior(s, cfg, a, c)
PrintCase == (Emit /\ phase \in {"done", "rejected"}) =>
  PrintT("@@C " \o ToJson([v |-> [i \in 1..NT |-> s.tracks[i].st[1].v * 2 + s.tracks[i].st[2].v], x |-> [i \in 1..NT |-> s.tracks[i].st[2].x],
                          sdc |-> s.sdc, ttp |-> [k \in DOMAIN s.ttp |-> s.ttp[k].i], na |-> cfg.na, nm |-> cfg.nm]))
=============================================================================
