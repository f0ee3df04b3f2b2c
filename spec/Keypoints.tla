------------------------------ MODULE Keypoints ------------------------------
(* Keypoints of objects, how well they are predicted, and which prediction is of which object. A point is  *)
(* [p, v]: place (a sequence of 2 or 3 coordinates, 1/100 m) and visibility (0 missing, 1 occluded, 2      *)
(* visible); a box [c, s, h]: centre, size and heading <<cos, sin>> in fifths, turning clockwise. Errors    *)
(* and distances in 1/1000 m, scores in 1/10000, thresholds and scales of types in tenths.                  *)
EXTENDS VCommon

RECURSIVE SqB(_, _, _)
SqB(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqB(n, m, hi) ELSE SqB(n, lo, m)
Root(n) == SqB(n, 0, 46340)
Sq(a, b) == SumOver(DOMAIN a, LAMBDA i : (a[i] - b[i]) * (a[i] - b[i]))
Err(a, b) == Root(100 * Sq(a, b))
Seen(k) == k.v > 1
There(k) == k.v > 0
Visible(ks) == \E i \in DOMAIN ks : Seen(ks[i])
(* how far a place is outside of a box along the axes of the box, in 1/1000 m *)
Turned(b, p) ==
  LET x == p[1] - b.c[1]
      y == p[2] - b.c[2]
      q == <<b.h[1] * x - b.h[2] * y, b.h[2] * x + b.h[1] * y>> IN
  IF Len(p) = 2 THEN q ELSE <<q[1], q[2], 5 * (p[3] - b.c[3])>>
Outside(b, p, times) == LET q == Turned(b, p) IN [i \in DOMAIN p |-> MaxI(0, 2 * AbsI(q[i]) - 5 * times * b.s[i])]
OutSq(b, p, times) == LET o == Outside(b, p, times) IN SumOver(DOMAIN o, LAMBDA i : o[i] * o[i])
Dist(b, p) == Root(OutSq(b, p, 1))
Inside(b, p) == OutSq(b, p, 1) = 0

(* ---- measures: objects are [gt, pr, box, scale, w], gt and pr of the same types in the same order ---- *)
Pairs(os) == {<<i, k>> : i \in DOMAIN os, k \in 1..9}
Both(os) == {q \in Pairs(os) : q[2] \in DOMAIN os[q[1]].gt /\ There(os[q[1]].gt[q[2]]) /\ There(os[q[1]].pr[q[2]])}
ErrOf(os, q) == Err(os[q[1]].gt[q[2]].p, os[q[1]].pr[q[2]].p)
Mean(num, den) == IF den = 0 THEN 0 ELSE num \div den
(* the mean distance of the points that are in both *)
Mpjpe(os) == LET B == Both(os) IN Mean(SumOver(B, LAMBDA q : os[q[1]].w * ErrOf(os, q)), SumOver(B, LAMBDA q : os[q[1]].w))
(* the same for points seen in both, cut at the penalty, which is the error of those seen in one only *)
OneSeen(os) == {q \in Pairs(os) : q[2] \in DOMAIN os[q[1]].gt /\ (Seen(os[q[1]].gt[q[2]]) \/ Seen(os[q[1]].pr[q[2]]))}
PenOf(g, p, pen) == IF Seen(g) /\ Seen(p) THEN MinI(pen, Err(g.p, p.p)) ELSE IF Seen(g) \/ Seen(p) THEN pen ELSE 0
Pem(os, pen) == LET B == OneSeen(os) IN
  Mean(SumOver(B, LAMBDA q : os[q[1]].w * PenOf(os[q[1]].gt[q[2]], os[q[1]].pr[q[2]], pen)), SumOver(B, LAMBDA q : os[q[1]].w))
(* share (1/10000) of the points in both that are within a threshold times the scales of type and box *)
Allowed(o, k, th, ts) == th * ts[k] * o.scale                                  \* 1/10 of 1/1000 m
PckAt(os, th, ts, slack) == LET B == Both(os) IN
  Mean(10000 * SumOver({q \in B : 10 * (ErrOf(os, q) + slack) <= Allowed(os[q[1]], q[2], th, ts)}, LAMBDA q : os[q[1]].w), SumOver(B, LAMBDA q : os[q[1]].w))
Precision(os) == LET B == OneSeen(os) IN
  Mean(10000 * Cardinality({q \in B : Seen(os[q[1]].gt[q[2]]) /\ Seen(os[q[1]].pr[q[2]])}), Cardinality({q \in B : Seen(os[q[1]].pr[q[2]])}))
Recall(os) == LET B == OneSeen(os) IN
  Mean(10000 * Cardinality({q \in B : Seen(os[q[1]].gt[q[2]]) /\ Seen(os[q[1]].pr[q[2]])}), Cardinality({q \in B : Seen(os[q[1]].gt[q[2]])}))
(* e^-x, x in 1/1000 *)
E1 == <<10000, 3679, 1353, 498, 183, 67, 25, 9>>
E2 == <<10000, 9048, 8187, 7408, 6703, 6065, 5488, 4966, 4493, 4066>>
E3 == <<10000, 9900, 9802, 9704, 9608, 9512, 9418, 9324, 9231, 9139>>
Exp(x) == IF x >= 8000 THEN 3 ELSE
  LET a == (E1[x \div 1000 + 1] * E2[((x \div 100) % 10) + 1]) \div 10000
      b == (a * E3[((x \div 10) % 10) + 1]) \div 10000 IN
  (b * (10000 - 10 * (x % 10))) \div 10000
Score(d2, s) ==                                                                \* of a squared distance, 1/1000 m
  IF d2 = 0 THEN 10000 ELSE IF d2 \div (s * s) >= 16 THEN 3
  ELSE Exp(500 * (d2 \div (s * s)) + (500 * (d2 % (s * s))) \div (s * s))
Oks(o, ts) ==
  LET K == DOMAIN o.gt
      s(k) == ts[k] * o.scale
      both == {k \in K : There(o.gt[k]) /\ There(o.pr[k])} IN
  IF \E k \in K : There(o.gt[k])
  THEN Mean(SumOver(both, LAMBDA k : Score(100 * Sq(o.gt[k].p, o.pr[k].p), s(k))), Cardinality(both))
  ELSE Mean(SumOver(K, LAMBDA k : Score(OutSq(o.box, o.pr[k].p, 3), s(k))), Cardinality(K))
OksSlack == 40
ApAt(os, ts, th, slack) ==
  Mean(10000 * Cardinality({i \in DOMAIN os : Oks(os[i], ts) > 1000 * th + slack}), Len(os))

(* ---- which prediction is of which object ---- *)
Closest(g, p) == LET S == {Dist(g.box, p.k[k].p) : k \in {n \in DOMAIN p.k : Seen(p.k[n])}} IN IF S = {} THEN 10000000 ELSE Min(S)
NumInside(g, p) == Cardinality({k \in DOMAIN p.k : Seen(p.k[k]) /\ Inside(g.box, p.k[k].p)})
NearPoints(g, p, far) == \E k \in DOMAIN p.k : Seen(g.k[k]) /\ Seen(p.k[k]) /\ Err(g.k[k].p, p.k[k].p) < far
RECURSIVE Matchings(_, _)
Matchings(G, P) ==                                                            \* all sets of disjoint pairs
  IF G = {} THEN {{}} ELSE
  LET g == CHOOSE x \in G : TRUE
      rest == G \ {g} IN
  Matchings(rest, P) \cup UNION {{{<<g, p>>} \cup m : m \in Matchings(rest, P \ {p})} : p \in P}
(* first: objects nothing of which is to be seen claim the predictions with most points inside of them, unless *)
(* these have a point near the same of an object to be seen *)
Claim(gs, ps, far, i, j) ==
  IF Visible(gs[i].k) \/ \E n \in DOMAIN gs : NearPoints(gs[n], ps[j], far) THEN 0 ELSE NumInside(gs[i], ps[j])
Claims(gs, ps, far) ==
  LET S == TLCEval({q \in (DOMAIN gs) \X (DOMAIN ps) : Claim(gs, ps, far, q[1], q[2]) > 0})
      M == TLCEval({m \in Matchings(DOMAIN gs, DOMAIN ps) : m \subseteq S})
      val(m) == SumOver(m, LAMBDA q : Claim(gs, ps, far, q[1], q[2]))
      best == TLCEval(Max({val(m) : m \in M})) IN
  {m \in M : val(m) = best}
(* second: pairs of the others near each other with the least errors in total; those no better than nothing are none *)
Gain(gs, ps, far, i, j) ==                                                     \* times the number of points
  IF Closest(gs[i], ps[j]) > far THEN 0
  ELSE LET K == DOMAIN ps[j].k IN SumOver(K, LAMBDA k : far - PenOf(gs[i].k[k], ps[j].k[k], far))
GoodSecond(gs, ps, far, first, m) ==
  LET G == DOMAIN gs \ {q[1] : q \in first}
      P == DOMAIN ps \ {q[2] : q \in first}
      g == TLCEval([q \in G \X P |-> Gain(gs, ps, far, q[1], q[2])])
      val(x) == SumOver(x, LAMBDA q : g[q])
      best == TLCEval(Max({val(x) : x \in Matchings(G, P)})) IN
  /\ \A q \in m : q[1] \in G /\ q[2] \in P
  /\ \A q \in m : g[q] > 0
  /\ val(m) >= best - 30
Disjoint(m) == \A q, r \in m : q = r \/ (q[1] # r[1] /\ q[2] # r[2])
GoodMatch(gs, ps, far, m) == Disjoint(m) /\ \E f \in Claims(gs, ps, far) : f \subseteq m /\ GoodSecond(gs, ps, far, f, m \ f)
(* whether a distance is right at the limit, where the computation may say either *)
AtLimit(gs, ps, far) == \E i \in DOMAIN gs : \E j \in DOMAIN ps : \E k \in DOMAIN ps[j].k : Seen(ps[j].k[k]) /\
   ( Within(Dist(gs[i].box, ps[j].k[k].p), far, 1) \/ (Seen(gs[i].k[k]) /\ Within(Err(gs[i].k[k].p, ps[j].k[k].p), far, 1)) )
(* after matching: pairs of objects to be seen, such objects with nothing (0), and predictions of nothing *)
Lined(vg, vp, m) ==
  {q \in m : q[1] \in vg} \cup {<<i, 0>> : i \in {x \in vg : ~\E q \in m : q[1] = x}} \cup {<<0, j>> : j \in {x \in vp : ~\E q \in m : q[2] = x}}
=============================================================================
