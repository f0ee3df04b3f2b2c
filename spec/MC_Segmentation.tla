----------------------------- MODULE MC_Segmentation -----------------------------
(* One evaluator receiving points one by one, with resets; any split of the points into frames that *)
(* are measured apart and merged gives the same counts.                                             *)
EXTENDS Segmentation, Json
CONSTANTS Labels, MaxPoints, Emit
VARIABLES pts, M, resets
vars == <<pts, M, resets>>
Cls == <<2, 1>>
Init == pts = <<>> /\ M = Zero(Cls) /\ resets = 0
Point(pd, gt) == Len(pts) < MaxPoints /\ pts' = Append(pts, <<pd, gt>>) /\ M' = Add(M, Cls, pd, gt) /\ UNCHANGED resets
Reset == resets = 0 /\ pts' = <<>> /\ M' = Zero(Cls) /\ resets' = 1
Next == Reset \/ \E pd, gt \in Labels : Point(pd, gt)
Spec == Init /\ [][Next]_vars
Of(s) == AddAll(Zero(Cls), Cls, [i \in DOMAIN s |-> s[i][1]], [i \in DOMAIN s |-> s[i][2]])
OneUnitEach == SumOver(DOMAIN M, LAMBDA x : M[x]) = Len(pts)
Refold == M = Of(pts)
MergeAny == \A k \in 0..Len(pts) :
   LET A == Of(SubSeq(pts, 1, k))  B == Of(SubSeq(pts, k + 1, Len(pts)))
   IN Plus(Inters(A, Cls), Inters(B, Cls)) = Inters(M, Cls) /\ Plus(Unions(A, Cls), Unions(B, Cls)) = Unions(M, Cls)
OrderFree == Of(Reverse(pts)) = M
(* union of a class: points with that truth, or with that prediction and an evaluated truth *)
UnionMeaning == \A i \in DOMAIN Cls :
   Union(M, Cls, i) = CountIn(pts, LAMBDA p : p[2] = Cls[i] \/ (p[1] = Cls[i] /\ Pos(Cls, p[2]) # 0))
Bounded == \A i \in DOMAIN Cls : Ratio(Inters(M, Cls)[i], Union(M, Cls, i)) \in 0..1000000
Perfect == (\A i \in DOMAIN pts : pts[i][1] = pts[i][2]) => \A i \in DOMAIN Cls : Ratio(Inters(M, Cls)[i], Union(M, Cls, i)) = 1000000
Grows == [][\A x \in DOMAIN M : M'[x] >= M[x] \/ resets' # resets]_vars
PrintCase == (Emit /\ Len(pts) = MaxPoints) => PrintT("@@C " \o ToJson([pts |-> pts]))
=============================================================================
