------------------------------- MODULE Matching -------------------------------
(* One frame's assignment of predictions to ground truths.                     *)
(* Weights and thresholds are integers (IoU in parts per million).             *)
EXTENDS VCommon

(* iou[p][g]: overlap; class labels pt, gt; thr per class (index = class + 1).  *)
Overlap(pt, gt, iou, p, g) == IF pt[p] = gt[g] THEN iou[p][g] ELSE 0
Affinity(pt, gt, aff, p, g) == IF pt[p] = gt[g] THEN aff[p][g] ELSE 0

Eligible(pt, gt, iou, thr, p, g) == Overlap(pt, gt, iou, p, g) >= thr[pt[p] + 1]
(* longitudinal-error-tolerant variant: a pair outside the tolerance never matches *)
EligibleLet(pt, gt, iou, aff, thr, p, g) ==
   Affinity(pt, gt, aff, p, g) > 0 /\ Eligible(pt, gt, iou, thr, p, g)
(* the matching weight is the affinity-discounted overlap; exact when overlap is a multiple *)
(* of 10^-3 and affinity of 10^-2 *)
WeightLet(pt, gt, iou, aff, p, g) ==
   (Overlap(pt, gt, iou, p, g) \div 1000) * (Affinity(pt, gt, aff, p, g) \div 10000) * 10

(* ---- maximum-weight assignment -------------------------------------------------------- *)
(* w : matrix indexed 1..n x 1..m of non-negative integers. Zero-weight edges do not count. *)
RECURSIVE BestFrom(_, _, _, _)
BestFrom(i, n, avail, w) ==
  IF i > n THEN 0
  ELSE LET use == {j \in avail : w[i][j] > 0}
           skip == BestFrom(i + 1, n, avail, w)
       IN FoldSet(LAMBDA j, acc : MaxI(acc, w[i][j] + BestFrom(i + 1, n, avail \ {j}, w)),
                  skip, use)
Best(n, m, w) == BestFrom(1, n, 1..m, w)

(* A partial assignment is a sequence a of length n, a[i] \in 0..m (0: unassigned).          *)
IsAssignment(a, n, m) ==
  /\ Len(a) = n
  /\ \A i \in 1..n : a[i] \in 0..m
  /\ \A i, j \in 1..n : (i # j /\ a[i] # 0) => a[i] # a[j]
Total(a, w) == SumOver({i \in DOMAIN a : a[i] # 0}, LAMBDA i : w[i][a[i]])

(* Weak duality: labels u, v with u[i] + v[j] >= w[i][j] everywhere bound every assignment,   *)
(* so an assignment that reaches sum(u) + sum(v) is a maximum one.                            *)
FeasibleLabels(u, v, n, w) == \A i, j \in 1..n : u[i] + v[j] >= w[i][j]
IsPerm(p, n) == Len(p) = n /\ \A i \in 1..n : p[i] \in 1..n /\ \A j \in 1..n : i # j => p[i] # p[j]

(* ---- score-first greedy ------------------------------------------------------------------ *)
(* st: [m |-> assignment built so far, left |-> predictions not processed yet]                *)
GreedyInit(n) == [m |-> [i \in 1..n |-> 0], left |-> 1..n]
GreedyTaken(m) == {m[i] : i \in DOMAIN m} \ {0}
GreedyTop(left, sc) == {i \in left : \A k \in left : sc[k] <= sc[i]}
(* the choices the rule allows prediction i: a best-weight free eligible ground truth, or none *)
GreedyChoices(i, m, mm, ok, w) ==
  LET free == {j \in 1..mm : j \notin GreedyTaken(m) /\ ok[i][j]}
  IN IF free = {} THEN {0}
     ELSE {j \in free : \A k \in free : w[i][k] <= w[i][j]}

(* Is the reported assignment a an outcome of the rule? Scores may tie; processing any top     *)
(* prediction whose reported choice is allowed now cannot disable another top prediction.      *)
RECURSIVE GreedyExplains(_, _, _, _, _, _)
GreedyExplains(st, a, mm, ok, w, sc) ==
  IF st.left = {} THEN TRUE
  ELSE LET top == GreedyTop(st.left, sc)
           good == {i \in top : a[i] \in GreedyChoices(i, st.m, mm, ok, w)}
       IN IF good = {} THEN FALSE
          ELSE LET i == CHOOSE x \in good : TRUE
               IN GreedyExplains([m |-> [st.m EXCEPT ![i] = a[i]], left |-> st.left \ {i}],
                                 a, mm, ok, w, sc)
=============================================================================
