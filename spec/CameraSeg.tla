------------------------------- MODULE CameraSeg -------------------------------
(* Panoptic labels of camera images. A pixel is <<class, instance>>, packed as class * divisor +        *)
(* instance. A label is [seq, div, px: pixels, map: sequence of [l, g, t]] where the map gives a local   *)
(* instance its identity in the sequence and whether it is tracked.                                      *)
EXTENDS VCommon

Pack(p, d) == p[1] * d + p[2]
Unpack(n, d) == <<n \div d, n % d>>
Maxes(S) == IF S = {} THEN 0 ELSE Max(S)
Entry(lab, i) == {k \in DOMAIN lab.map : lab.map[k].l = i}
(* locals are mapped at most once *)
MapOK(lab) == \A j, k \in DOMAIN lab.map : lab.map[j].l = lab.map[k].l => j = k
Globals(lab) == {lab.map[k].g : k \in DOMAIN lab.map}
(* an instance that is mapped is named by its sequence and its global id, another by itself *)
Ident(labs, n, i) ==
  LET k == Entry(labs[n], i) IN
  IF k = {} THEN <<"own", i>> ELSE <<labs[n].seq, labs[n].map[CHOOSE x \in k : TRUE].g>>
Known(labs) == UNION {{<<labs[n].seq, g>> : g \in Globals(labs[n])} : n \in DOMAIN labs}
SeqMax(labs, s) == Maxes(UNION {Globals(labs[n]) : n \in {m \in DOMAIN labs : labs[m].seq = s}})
SeqIds(labs) == {labs[n].seq : n \in DOMAIN labs}
Room(labs) == SumOver(SeqIds(labs), LAMBDA s : SeqMax(labs, s))          \* no new id need be larger
LocalMax(lab) == Maxes({lab.px[i][2] : i \in DOMAIN lab.px})

(* ---- a reading: new ids for all identities -------------------------------------------------------- *)
(* sequences in order of appearance, each after the largest id of the ones before                        *)
FirstAt(labs, s) == Min({n \in DOMAIN labs : labs[n].seq = s /\ labs[n].map # <<>>})
Offset(labs, s) == SumOver({r \in SeqIds(labs) : SeqMax(labs, r) > 0 /\ FirstAt(labs, r) < FirstAt(labs, s)}, LAMBDA r : SeqMax(labs, r))
Spread(labs) == [k \in Known(labs) |-> k[2] + Offset(labs, k[1])]
Rank(f) == [k \in DOMAIN f |-> Cardinality({f[j] : j \in {x \in DOMAIN f : f[x] <= f[k]}})]
NewIds(labs, sequential) == IF sequential THEN Rank(Spread(labs)) ELSE Spread(labs)
NewInst(labs, n, i, ids) == LET id == Ident(labs, n, i) IN IF id[1] = "own" THEN i ELSE ids[id]
ReadDiv(labs, sequential, global, want) ==
  IF want > 0 THEN want
  ELSE LET ids == NewIds(labs, sequential) IN
    IF ~global THEN labs[1].div ELSE MaxI(labs[1].div, 1 + Maxes({ids[k] : k \in DOMAIN ids}))
ReadLabel(labs, n, sequential, global, d) ==
  [i \in DOMAIN labs[n].px |->
     LET p == labs[n].px[i] IN Pack(<<p[1], IF global THEN NewInst(labs, n, p[2], NewIds(labs, sequential)) ELSE p[2]>>, d)]
Fits(labs, sequential, global, d) ==
  \A n \in DOMAIN labs : \A i \in DOMAIN labs[n].px :
    (IF global THEN NewInst(labs, n, labs[n].px[i][2], NewIds(labs, sequential)) ELSE labs[n].px[i][2]) < d

(* ---- what any reading must be --------------------------------------------------------------------- *)
(* out[n][i] packed with d: classes kept; the same instance in the same sequence gets one id, different  *)
(* mapped ones different ids; others keep theirs                                                         *)
ClassesKept(labs, out, d) == \A n \in DOMAIN labs : \A i \in DOMAIN labs[n].px : out[n][i] \div d = labs[n].px[i][1]
Pixels(labs) == UNION {{<<n, i>> : i \in DOMAIN labs[n].px} : n \in DOMAIN labs}
IdAt(labs, p) == Ident(labs, p[1], labs[p[1]].px[p[2]][2])
InstAt(out, d, p) == out[p[1]][p[2]] % d
Mapped(labs) == {p \in Pixels(labs) : IdAt(labs, p)[1] # "own"}
Consistent(labs, out, d) ==
  \A p, q \in Mapped(labs) : (IdAt(labs, p) = IdAt(labs, q)) <=> (InstAt(out, d, p) = InstAt(out, d, q))
OthersKept(labs, out, d) == \A p \in Pixels(labs) \ Mapped(labs) : InstAt(out, d, p) = labs[p[1]].px[p[2]][2]
Compact(labs, out, d) == \A p \in Mapped(labs) : InstAt(out, d, p) \in 1..Cardinality(Known(labs))
(* in one sequence global ids need no change *)
GlobalKept(labs, out, d) == Cardinality({labs[n].seq : n \in {m \in DOMAIN labs : labs[m].map # <<>>}}) = 1 => \A p \in Mapped(labs) : InstAt(out, d, p) = IdAt(labs, p)[2]
Tracked(labs, n, global) ==
  [i \in DOMAIN labs[n].px |->
     IF ~global THEN 0
     ELSE LET k == Entry(labs[n], labs[n].px[i][2]) IN IF k = {} THEN 0 ELSE IF labs[n].map[CHOOSE x \in k : TRUE].t THEN 1 ELSE 0]

(* ---- writing: instances renumbered from 1 in the order of their ids, with the map back -------------- *)
Insts(px) == {px[i][2] : i \in DOMAIN px} \ {0}
WriteMap(px) == LET o == SetToSortSeq(Insts(px), LAMBDA a, b : a < b) IN [k \in DOMAIN o |-> [l |-> k, g |-> o[k], t |-> FALSE]]
LocalOf(px, g) == IF g = 0 THEN 0 ELSE Cardinality({h \in Insts(px) : h <= g})
WriteDiv(px, want) == MaxI(want, Cardinality(Insts(px)) + 1)
Written(px, seq, want) == [seq |-> seq, div |-> WriteDiv(px, want), px |-> [i \in DOMAIN px |-> <<px[i][1], LocalOf(px, px[i][2])>>], map |-> WriteMap(px)]
Writable(px, want) == \A i \in DOMAIN px : Pack(<<px[i][1], LocalOf(px, px[i][2])>>, WriteDiv(px, want)) <= 65535

(* ---- evaluation ----------------------------------------------------------------------------------- *)
Crowd(n, d) == (n \div d) * d
(* ---- colors: the class's, with the instance showing in the green ------------------------------------ *)
Color(map, p) ==
  LET c == map[p[1] + 1] IN
  IF p[2] = 0 THEN c ELSE <<c[1], MinI(255, MaxI(0, c[2] + ((p[2] * 41) % 100) - 50)), c[3]>>
(* ---- frames: the first few labeled ones of the first labeled sequence, up to one of another ---------- *)
RECURSIVE TakeFrames(_, _, _, _)
TakeFrames(fs, k, seq, got) ==
  IF k > Len(fs) THEN got
  ELSE IF ~fs[k].labeled THEN TakeFrames(fs, k + 1, seq, got)
  ELSE IF seq # "" /\ fs[k].seq # seq THEN got ELSE TakeFrames(fs, k + 1, fs[k].seq, Append(got, k))
=============================================================================
