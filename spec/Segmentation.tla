------------------------------ MODULE Segmentation -------------------------------
(* Counting labelled points. cls: the evaluated classes in order; a count state M maps pairs of      *)
(* positions in cls (0 = not evaluated) <<truth, prediction>> to a number of points.                 *)
EXTENDS VCommon
Pos(cls, t) == IF \E i \in DOMAIN cls : cls[i] = t THEN CHOOSE i \in DOMAIN cls : cls[i] = t ELSE 0
Zero(cls) == [x \in (0..Len(cls)) \X (0..Len(cls)) |-> 0]
Add(M, cls, pd, gt) == [M EXCEPT ![<<Pos(cls, gt), Pos(cls, pd)>>] = @ + 1]
AddAll(M, cls, pd, gt) == FoldLeft(LAMBDA acc, i : Add(acc, cls, pd[i], gt[i]), M, [i \in DOMAIN pd |-> i])
Inters(M, cls) == [i \in DOMAIN cls |-> M[<<i, i>>]]
(* points of the class in truth, plus predicted points of the class whose truth is another evaluated class *)
Union(M, cls, i) == SumOver(0..Len(cls), LAMBDA j : M[<<i, j>>]) + SumOver((1..Len(cls)) \ {i}, LAMBDA j : M[<<j, i>>])
Unions(M, cls) == [i \in DOMAIN cls |-> Union(M, cls, i)]
(* a/b in ppm for a <= b < 2*10^8 *)
RECURSIVE Dig(_, _, _)
Dig(a, b, k) == IF k = 0 THEN 0 ELSE ((a * 10) \div b) * (10 ^ (k - 1)) + Dig((a * 10) % b, b, k - 1)
Ratio(a, b) == IF b <= 0 THEN 1000000 ELSE IF a >= b THEN 1000000 ELSE Dig(a, b, 6)     \* a class without points: 1
Ratios(inter, uni) == [i \in DOMAIN inter |-> Ratio(inter[i], uni[i])]
MeanOf(r) == SumSeq(r) \div Len(r)
Plus(s, t) == [i \in DOMAIN s |-> s[i] + t[i]]
SumOf(ss, n) == FoldLeft(Plus, [i \in 1..n |-> 0], ss)
=============================================================================
