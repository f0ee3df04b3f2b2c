------------------------------ MODULE MC_Detection ------------------------------
(* One frame evaluated step by step: objects appear, a matching the rule allows is chosen, each   *)
(* object is classified. Invariants tie the breakdowns, levels and object counts together.        *)
EXTENDS Detection, Json
CONSTANTS NP, NG, Vals, Kind, Types, Full, Emit
VARIABLES P, G, iou, m, phase
vars == <<P, G, iou, m, phase>>
PObj == [ty : Types, x : {64}, y : {0}, z : {0}, dl : {64}, dw : {64}, dh : {64}, vx : {0}, vy : {0},
         hx : {TRUE}, hy : {TRUE}, cam : {-1}, hm : {FALSE}, mv : {""}, sc : {400000, 600000},
         nlz : BOOLEAN, dd : {0}, hd : {0}]
GObj == [ty : Types, x : {64}, y : {0}, z : {0}, dl : {64}, dw : {64}, dh : {64}, vx : {0, 640}, vy : {0},
         hx : {TRUE}, hy : {TRUE}, cam : {-1}, hm : {FALSE}, mv : {""}, sc : {1000000},
         nlz : {FALSE}, dd : {1, 2}, hd : IF Full THEN {0, 180} ELSE {0}]
cfg == [gens |-> <<ONE_SHARD, OBJECT_TYPE, VELOCITY>>, lv |-> <<<<1, 2>>, <<1, 2>>, <<1, 2>>>>,
        cuts |-> <<0, 500000>>, kind |-> Kind, thr |-> <<500000, 500000, 500000, 500000, 500000>>,
        minha |-> 100000, let |-> [pct10 |-> 1, mint |-> 32], det |-> TRUE]
Init == /\ P \in [1..NP -> PObj] /\ G \in [1..NG -> GObj]
        /\ iou \in [1..NP -> [1..NG -> Vals]]
        /\ m = <<>> /\ phase = "objects"
All(objs) == [i \in DOMAIN objs |-> i]
Match == /\ phase = "objects" /\ phase' = "matched"
         /\ m' \in Matchings(cfg, P, G, iou, All(P), All(G))
         /\ UNCHANGED <<P, G, iou>>
Next == Match
Spec == Init /\ [][Next]_vars

Slot(g, s, d) == [g |-> g, s |-> s, d |-> d]
Done == phase = "matched"
One(d) == Slot(ONE_SHARD, 0, d)
TP1 == TPs(cfg, P, G, All(P), All(G), m, One(2))
FP1 == MustFP(P, G, iou, All(P), All(G), m, One(2))
Rejected == {i \in DOMAIN P : m[i] # 0 /\ i \notin TP1}
Excused == {i \in DOMAIN P : m[i] = 0 /\ P[i].nlz}
EveryPrediction == Done => /\ DOMAIN P = TP1 \cup FP1 \cup Rejected \cup Excused
                           /\ Cardinality(TP1) + Cardinality(FP1) + Cardinality(Rejected)
                                + Cardinality(Excused) = NP
EveryTruth == Done => Cardinality(TP1) + Cardinality(Rejected)
                        + Cardinality(FNs(G, All(G), m, One(2))) = NG
Levels12 == Done => FNs(G, All(G), m, One(1)) \subseteq FNs(G, All(G), m, One(2))
(* Restricting the matching to a type shard is a matching that shard allows, and counts add up.   *)
Sub(objs, g, s) == Subset(g, s, objs, TRUE, NONE)
SubMatch(ps, gs) == [i \in DOMAIN ps |-> IF m[ps[i]] = 0 THEN 0
                      ELSE IF \E j \in DOMAIN gs : gs[j] = m[ps[i]]
                           THEN CHOOSE j \in DOMAIN gs : gs[j] = m[ps[i]] ELSE 0]
TypesAdd == Done =>
  LET part(s) == LET ps == Sub(P, OBJECT_TYPE, s)  gs == Sub(G, OBJECT_TYPE, s)
                     a == SubMatch(ps, gs)
                 IN [ok |-> a \in Matchings(cfg, P, G, iou, ps, gs),
                     tp |-> Cardinality(TPs(cfg, P, G, ps, gs, a, Slot(OBJECT_TYPE, s, 2))),
                     fp |-> Cardinality(MustFP(P, G, iou, ps, gs, a, Slot(OBJECT_TYPE, s, 2))),
                     fn |-> Cardinality(FNs(G, gs, a, Slot(OBJECT_TYPE, s, 2)))]
  IN /\ \A s \in 0..3 : part(s).ok
     /\ SumOver(0..3, LAMBDA s : part(s).tp) = Cardinality(TP1)
     /\ SumOver(0..3, LAMBDA s : part(s).fp) = Cardinality(FP1)
     /\ SumOver(0..3, LAMBDA s : part(s).fn) = Cardinality(FNs(G, All(G), m, One(2)))
(* The speed shards of a type see the same matching: their true positives and misses add up to    *)
(* the type's, and no false positive of the type is lost.                                          *)
SpeedsAdd == Done => \A t \in 0..3 :
  LET ps == Sub(P, OBJECT_TYPE, t)  gs == Sub(G, OBJECT_TYPE, t)  a == SubMatch(ps, gs)
      sl(k) == Slot(VELOCITY, 5 * t + k, 2)
  IN /\ \A k \in 0..4 : Sub(P, VELOCITY, 5 * t + k) = ps /\ Sub(G, VELOCITY, 5 * t + k) = gs
     /\ SumOver(0..4, LAMBDA k : Cardinality(TPs(cfg, P, G, ps, gs, a, sl(k))))
          = Cardinality(TPs(cfg, P, G, ps, gs, a, Slot(OBJECT_TYPE, t, 2)))
     /\ SumOver(0..4, LAMBDA k : Cardinality(FNs(G, gs, a, sl(k))))
          = Cardinality(FNs(G, gs, a, Slot(OBJECT_TYPE, t, 2)))
     /\ UNION {MayFP(P, G, iou, ps, gs, a, sl(k)) : k \in 0..4} = Unmatched(P, ps, a)
PrintCase == (Emit /\ ~Done) => PrintT("@@C " \o ToJson([P |-> P, G |-> G, iou |-> iou]))
=============================================================================
