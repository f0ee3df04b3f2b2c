------------------------------ MODULE LatencyCheck ------------------------------
(* Comparing latency results with a submission. An object is [fr, ty, cl, x, l, y, w, sc]: the frame   *)
(* (a token), class, the place it is at (objects at different places never overlap), its extents       *)
(* x..x+l, y..y+w there, score in thousandths. thr: overlap threshold in thousandths, min: least score. *)
(* Every outcome is a set of booleans: {TRUE} accept, {FALSE} reject, both - the rule leaves it open.   *)
EXTENDS VCommon
Span(a, la, b, lb) == MaxI(0, MinI(a + la, b + lb) - MaxI(a, b))
Inter(a, b) == IF a.cl # b.cl THEN 0 ELSE Span(a.x, a.l, b.x, b.l) * Span(a.y, a.w, b.y, b.w)
Union(a, b) == a.l * a.w + b.l * b.w - Inter(a, b)
Weight(a, b) == (Inter(a, b) * 10000) \div Union(a, b)
Pairs(a, b, thr) == a.ty = b.ty /\ Inter(a, b) * 1000 >= thr * Union(a, b) /\ Inter(a, b) > 0
Counted(o, min) == o.sc >= min /\ o.ty > 0
Differs(a, b) == AbsI(a.sc - b.sc) > 50
MayAgree(a, b) == AbsI(a.sc - b.sc) <= 50
(* all matchings of the objects L[i..] with the objects F not in used: [w, bad] weight and disagreements *)
RECURSIVE Matchings(_, _, _, _, _)
Matchings(L, F, i, used, thr) ==
  IF i > Len(L) THEN {[w |-> 0, bad |-> 0]}
  ELSE {[w |-> m.w, bad |-> m.bad + 1] : m \in Matchings(L, F, i + 1, used, thr)} \cup
       UNION {{[w |-> m.w + Weight(L[i], F[j]), bad |-> m.bad + (IF Differs(L[i], F[j]) THEN 1 ELSE 0)] :
               m \in Matchings(L, F, i + 1, used \cup {j}, thr)} : j \in {k \in DOMAIN F : k \notin used /\ Pairs(L[i], F[k], thr)}}
(* disagreements of best matchings at one place; weights closer than one part in a thousand are a tie   *)
AtPlace(L, F, thr) == LET M == Matchings(L, F, 1, {}, thr)
                          top == Max({m.w : m \in M})
                      IN {m.bad : m \in {x \in M : x.w + 10 >= top}}
Frame(objs, fr, min) == SelectSeq(objs, LAMBDA o : o.fr = fr /\ Counted(o, min))
Places(L) == {L[i].cl : i \in DOMAIN L}
Here(L, c) == SelectSeq(L, LAMBDA o : o.cl = c)
Least(L, F, thr) == SumOver(Places(L), LAMBDA c : Min(AtPlace(Here(L, c), Here(F, c), thr)))
Most(L, F, thr) == SumOver(Places(L), LAMBDA c : Max(AtPlace(Here(L, c), Here(F, c), thr)))
TooMany(bad, n) == 20 * bad > n
FrameOutcome(L, F, thr) ==
  LET extra == MaxI(0, Len(F) - Len(L))
  IN IF F = <<>> THEN {FALSE}
     ELSE {~TooMany(extra + Least(L, F, thr), Len(L)), ~TooMany(extra + Most(L, F, thr), Len(L))}
Frames(objs, min) == {objs[i].fr : i \in {k \in DOMAIN objs : Counted(objs[k], min)}}
Outcome(lat, full, thr, min) ==
  LET os == {FrameOutcome(Frame(lat, fr, min), Frame(full, fr, min), thr) : fr \in Frames(lat, min)}
  IN IF {FALSE} \in os THEN {FALSE} ELSE IF \A o \in os : o = {TRUE} THEN {TRUE} ELSE {TRUE, FALSE}
=============================================================================
