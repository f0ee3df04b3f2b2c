-------------------------------- MODULE MC_Motion --------------------------------
(* One agent whose predictions arrive one at a time. Every sequence of up to MaxJ predictions, each  *)
(* with an offset per step from a small set and a confidence, for every validity of the ground truth. *)
EXTENDS Motion, Json
CONSTANTS MaxJ, K, Wide, Emit
VARIABLES valid, mm, prev, now

Cfg == [tps |-> 1, pps |-> 1, hist |-> 0, fut |-> 2, slo |-> 0, shi |-> 100, sclo |-> 1000, schi |-> 1000,
        steps |-> <<[step |-> 0, lat |-> 2000, lon |-> 4000], [step |-> 1, lat |-> 2000, lon |-> 4000]>>, k |-> K]
Offs == {<<0, 0>>, <<3, 4>>, <<4, 2>>} \cup (IF Wide THEN {<<-5, 0>>} ELSE {})
Gts == <<<<10, 0>>, <<20, 0>>>>
St(v, x) == <<v, x, 0, 1, 0, 4, 2, 40, 0>>
Sc == [id |-> "s", req |-> <<0>>,
       tracks |-> <<[id |-> 7, type |-> 1, st |-> <<St(1, 0), St(valid[1], 10), St(valid[2], 20)>>]>>]
Joint(o1, o2, c) == [c |-> c, t |-> <<[id |-> 7, x |-> <<10 + o1[1], 20 + o2[1]>>, y |-> <<o1[2], o2[2]>>]>>]

Eval(m) == [n \in 0..1 |->
  LET sp == Cfg.steps[n + 1]  o == Matches(Cfg, Sc, m, sp)
  IN [ade |-> MinAde(Cfg, Sc, m, n), fde |-> MinFde(Cfg, Sc, m, n), miss |-> Miss(o), edgy |-> Edgy(o),
      hard |-> Samples(m, o, FALSE), soft |-> Samples(m, o, TRUE)]]
Init == valid \in {<<a, b>> : a, b \in {0, 1}} /\ mm = <<>> /\ prev = Eval(<<>>) /\ now = Eval(<<>>)
Next == /\ Len(mm) < MaxJ
        /\ \E o1, o2 \in Offs, c \in {4, 8} : mm' = Append(mm, Joint(o1, o2, c))
        /\ prev' = now /\ now' = Eval(mm')
        /\ UNCHANGED valid
Spec == Init /\ [][Next]_<<valid, mm, prev, now>>
Less(a, b) == a # -1 /\ (b = -1 \/ a <= b)                     \* a at least as good as b
NTP(s) == Cardinality({i \in DOMAIN s : s[i][2]})
InvAccept == Accept(Cfg, Sc, [id |-> "s", mm |-> <<mm>>]) = (mm # <<>>)
InvEdge == \A n \in 0..1 : ~now[n].edgy
InvNoGt == \A n \in 0..1 : /\ (valid[n + 1] = 0 \/ mm = <<>>) = (now[n].miss = -1)
                           /\ (now[n].fde = -1) = (now[n].miss = -1)
                           /\ (now[n].ade = -1) = (mm = <<>> \/ \A i \in 1..(n + 1) : valid[i] = 0)
(* one more prediction never makes the minimum worse, and never turns a hit into a miss *)
InvMono == mm # <<>> => \A n \in 0..1 : /\ prev[n].ade # -1 => Less(now[n].ade, prev[n].ade)
                                        /\ prev[n].fde # -1 => Less(now[n].fde, prev[n].fde)
                                        /\ prev[n].miss = 0 => now[n].miss = 0
(* predictions past the limit change nothing *)
InvLimit == Len(mm) > K => now = prev
InvOneTP == \A n \in 0..1 : /\ NTP(now[n].hard) = IF now[n].miss = 0 THEN 1 ELSE 0
                            /\ NTP(now[n].soft) = NTP(now[n].hard)
                            /\ Len(now[n].hard) = IF valid[n + 1] = 0 THEN 0 ELSE MinI(Len(mm), K)
                            /\ Len(now[n].soft) <= Len(now[n].hard)
InvAP == \A n \in 0..1 : LET h == Area(now[n].hard, 1)  s == Area(now[n].soft, 1)
                         IN 0 <= h /\ h <= s /\ s <= 1000000 /\ (h > 0) = (now[n].miss = 0)
Code(j) == LET t == j.t[1] IN <<t.x[1] - 10, t.y[1], t.x[2] - 20, t.y[2], j.c>>
PrintCase == (Emit /\ mm # <<>>) =>
  PrintT("@@C " \o ToJson([valid |-> valid, mm |-> [i \in DOMAIN mm |-> Code(mm[i])]]))
=============================================================================
