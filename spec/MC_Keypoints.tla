----------------------------- MODULE MC_Keypoints -----------------------------
(* Two labelled objects with two points each, seen or not, and predictions that come one by one.          *)
EXTENDS Keypoints, Json
CONSTANTS Places, GtV, PrV, Preds, Emit
VARIABLES gs, ps
Far == 250
At(x, k, v) == [p |-> <<x + 8 * k, 0, 0>>, v |-> v]
Box(x) == [c |-> <<x, 0, 0>>, s |-> <<30, 20, 20>>, h |-> <<5, 0>>]
G(x, v) == [box |-> Box(x), k |-> <<At(x, 0, v[1]), At(x, 1, v[2])>>]
P(x, v) == [k |-> <<At(x, 0, v[1]), At(x, 1, v[2])>>]
Vs(k) == <<<<0, 0>>, <<2, 2>>, <<1, 2>>, <<2, 0>>, <<0, 1>>>>[k]
Init == ps = <<>> /\ \E x \in {36, 70} : \E v, u \in GtV : gs = <<G(0, Vs(v)), G(x, Vs(u))>>
Next == Len(ps) < Preds /\ gs' = gs /\ \E x \in Places : \E v \in PrV : ps' = Append(ps, P(x, Vs(v)))
Spec == Init /\ [][Next]_<<gs, ps>>
Whole == Len(ps) = Preds
Vg == {i \in DOMAIN gs : Visible(gs[i].k)}
Vp == {j \in DOMAIN ps : Visible(ps[j].k)}
All == Matchings(DOMAIN gs, DOMAIN ps)
Good == {m \in All : GoodMatch(gs, ps, Far, m)}
Objs(L) == SetToSeq({[gt |-> IF q[1] = 0 THEN <<At(0, 0, 0), At(0, 0, 0)>> ELSE gs[q[1]].k, pr |-> IF q[2] = 0 THEN <<At(0, 0, 0), At(0, 0, 0)>> ELSE ps[q[2]].k, w |-> 1, id |-> q] : q \in L})
(* there is an answer; it pairs nothing twice, and counts everything that is to be seen once *)
Answer == Whole => Good # {}
Counted == Whole => \A m \in Good : LET L == Lined(Vg, Vp, m) IN
  /\ Cardinality({q \in L : q[1] # 0}) = Cardinality(Vg)
  /\ \A i \in Vg : Cardinality({q \in L : q[1] = i}) = 1
  /\ \A j \in Vp : Cardinality({q \in L : q[2] = j}) <= 1
  /\ \A q \in L : q[1] # 0 \/ q[2] # 0
(* who is claimed by something that can't be seen is not judged *)
Claimed == Whole => \A m \in Good : \A q \in m : q[1] \notin Vg => \A r \in Lined(Vg, Vp, m) : r[2] # q[2]
(* matching never makes it worse than matching nothing *)
Helps == Whole => \A m \in Good : Pem(Objs(Lined(Vg, Vp, m)), Far) <= Far /\ (Pem(Objs(Lined(Vg, Vp, m)), Far) <= MaxI(Pem(Objs(Lined(Vg, Vp, {})), Far), 0))
(* predictions as the labels are found, without error *)
Right == (\A i \in DOMAIN gs : Visible(gs[i].k)) =>
  LET p == [i \in DOMAIN gs |-> [k |-> gs[i].k]] IN
  /\ GoodMatch(gs, p, Far, {<<i, i>> : i \in DOMAIN gs})
  /\ Pem([i \in DOMAIN gs |-> [gt |-> gs[i].k, pr |-> gs[i].k, w |-> 1]], Far) = 0
  /\ Precision([i \in DOMAIN gs |-> [gt |-> gs[i].k, pr |-> gs[i].k]]) = 10000
(* the score falls with the distance *)
Falls == ps = <<>> => \A d \in 0..60 : Score(100 * d * d, 150) >= Score(100 * (d + 1) * (d + 1), 150) - 5
PrintCase == Emit /\ Whole => PrintT("@@C " \o ToJson([gs |-> gs, ps |-> ps]))
=============================================================================
