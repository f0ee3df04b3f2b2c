------------------------------- MODULE TraceCurve -------------------------------
(* Events: "ap" one curve; "pr" metrics derived from measurements; "merge" / "compose" totals;    *)
(* "cut" / "est" score cutoffs.                                                                    *)
EXTENDS Curve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Eq(x, y) == Within(x, y, 1)
(* e.ap: twice the reported area in 1/(ru*pu) *)
ApV(e) == Chk(Within(e.ap, AP2(e.pts, e.step), e.tol), "average precision is the area under the curve") \cup
          Chk(e.ap <= 2 * e.ru * e.pu + e.tol, "average precision is at most one")

(* ---- metrics of one breakdown: e.m merged measurements, reported lists in ppm --------------- *)
WeightedOk(x, sum, m, minp) ==
  LET n == m.tp + m.fp
      p == IF n = 0 THEN 0 ELSE sum \div n
  IN IF m.tp = 0 THEN x = 1000000
     ELSE IF p < minp - 2 THEN x = 0
     ELSE IF p > minp + 2 THEN Within(x, p, 3)
     ELSE x = 0 \/ Within(x, p, 3)
PrV(e) ==
  LET n == Len(e.m)
  IN IF ~(Len(e.p) = n /\ Len(e.r) = n /\ Len(e.pha) = n /\ Len(e.rha) = n /\ Len(e.pla) = n
          /\ Len(e.rla) = n /\ Len(e.cut) = n) THEN {"one operating point per cutoff"}
     ELSE Chk(\A i \in 1..n : e.cut[i] = e.m[i].cut, "score cutoffs") \cup
          Chk(\A i \in 1..n : Within(e.r[i], Recall(e.m[i]), 1), "recall") \cup
          Chk(\A i \in 1..n : e.rha[i] = e.r[i] /\ e.rla[i] = e.r[i], "weighted recalls equal the recall") \cup
          Chk(\A i \in 1..n : Within(e.p[i], PlainPrecision(e.m[i], e.minp), 1), "precision") \cup
          Chk(\A i \in 1..n : WeightedOk(e.pha[i], e.m[i].ha, e.m[i], e.minp), "heading weighted precision") \cup
          Chk(\A i \in 1..n : WeightedOk(e.pla[i], e.m[i].la, e.m[i], e.minp), "affinity weighted precision") \cup
          (IF e.ru = 0 THEN {} ELSE
           LET pt(ps) == [i \in 1..n |-> <<(e.r[i] * e.ru + 500000) \div 1000000, ps[i] \div (1000000 \div e.pu)>>]
           IN Chk(Within(e.ap, AP2(pt(e.p), e.step), e.tol), "average precision of the curve") \cup
              Chk(Within(e.apha, AP2(pt(e.pha), e.step), e.tol), "heading weighted average precision") \cup
              Chk(Within(e.apla, AP2(pt(e.pla), e.step), e.tol), "affinity weighted average precision"))

(* ---- merging: e.parts: per frame, per breakdown measurement lists; e.out: merged ---------------- *)
MergeV(e) ==
  LET B == Len(e.out)
      Part(k, b, c) == e.parts[k][b].ms[c]
      K == DOMAIN e.parts
      tot(b, c, f(_)) == SumOver(K, LAMBDA k : f(Part(k, b, c)))
      okm(b, c) == LET m == e.out[b].ms[c] IN
        Chk(m.tp = tot(b, c, LAMBDA x : x.tp), "true positives add up") \cup
        Chk(m.fp = tot(b, c, LAMBDA x : x.fp), "false positives add up") \cup
        Chk(m.fn = tot(b, c, LAMBDA x : x.fn), "false negatives add up") \cup
        Chk(Within(m.ha, tot(b, c, LAMBDA x : x.ha), 4), "heading sums add up") \cup
        Chk(Within(m.la, tot(b, c, LAMBDA x : x.la), 4), "affinity sums add up") \cup
        Chk(m.cut = Part(1, b, c).cut, "cutoff kept") \cup
        Chk(m.det = FlattenSeq([k \in K |-> Part(k, b, c).det]), "details of every frame kept in order")
  IN IF e.parts = <<>> THEN Chk(e.out = <<>>, "nothing from nothing")
     ELSE IF Len(e.parts[1]) # B THEN {"one result per breakdown"}
     ELSE IF \E b \in 1..B : e.out[b].b # e.parts[1][b].b \/ Len(e.out[b].ms) # Len(e.parts[1][b].ms)
          THEN {"breakdowns kept"}
     ELSE UNION {okm(b, c) : b \in 1..B, c \in DOMAIN e.parts[1][1].ms}

(* ---- cutoffs -------------------------------------------------------------------------------- *)
CutV(e) ==
  LET s == SortSeq(e.scores, LAMBDA a, b : a < b)
      want == Cutoffs(s, e.n)
  IN Chk(Len(e.r) = e.n, "number of cutoffs as requested") \cup
     Chk(\A i \in 1..(Len(e.r) - 1) : e.r[i] <= e.r[i + 1], "cutoffs are sorted") \cup
     Chk(e.n > 1 => (Len(e.r) > 0 /\ Within(e.r[Len(e.r)], 1000000, 5)), "last cutoff is one") \cup
     Chk(Len(e.r) = Len(want) => \A i \in DOMAIN want : Within(e.r[i], want[i], 5), "cutoffs split the scores evenly")

Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.ev = "ap" -> ApV(e) [] e.ev = "pr" -> PrV(e) [] e.ev = "merge" -> MergeV(e)
         [] e.ev = "cut" -> CutV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
