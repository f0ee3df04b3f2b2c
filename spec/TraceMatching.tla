----------------------------- MODULE TraceMatching -----------------------------
(* Validates recorded matcher calls. One event = one Matcher instance with a history of calls   *)
(* on changing subsets (its caches and output vectors carry state from call to call).            *)
EXTENDS Matching, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

IsLet(e) == e.kind \in {"L", "M"}
PairOk(e, p, g) == IF IsLet(e) THEN EligibleLet(e.pt, e.gt, e.iou, e.aff, e.thr, p, g)
                   ELSE Eligible(e.pt, e.gt, e.iou, e.thr, p, g)
PairW(e, p, g) == IF IsLet(e) THEN WeightLet(e.pt, e.gt, e.iou, e.aff, p, g)
                  ELSE Overlap(e.pt, e.gt, e.iou, p, g)

(* matrices over the call's subsets; s.p, s.g hold 0-based object indices *)
OkOf(e, s) == [i \in DOMAIN s.p |-> [j \in DOMAIN s.g |-> PairOk(e, s.p[i] + 1, s.g[j] + 1)]]
WOf(e, s, ok) == [i \in DOMAIN s.p |-> [j \in DOMAIN s.g |->
                    IF ok[i][j] THEN PairW(e, s.p[i] + 1, s.g[j] + 1) ELSE 0]]

(* what the call reported, as an assignment pd -> gt (0: none); from whichever output was given *)
FromG(gm, n) == [i \in 1..n |-> IF \E j \in DOMAIN gm : gm[j] = i - 1
                                THEN CHOOSE j \in DOMAIN gm : gm[j] = i - 1 ELSE 0]
Reported(s, n) == IF s.nl = 2 THEN FromG(s.gm, n) ELSE [i \in 1..n |-> s.pm[i] + 1]

CallVerdict(e, s) ==
  LET n == Len(s.p)  m == Len(s.g)
      pmShape == s.nl = 2 \/ (Len(s.pm) = n /\ \A i \in DOMAIN s.pm : s.pm[i] \in -1..(m - 1))
      gmShape == s.nl = 1 \/ (Len(s.gm) = m /\ \A j \in DOMAIN s.gm : s.gm[j] \in -1..(n - 1))
  IN IF ~(pmShape /\ gmShape)
     THEN Chk(pmShape, "prediction outputs sized and ranged") \cup
          Chk(gmShape, "ground truth outputs sized and ranged")
     ELSE
     LET ok == OkOf(e, s)   w == WOf(e, s, ok)
         a == Reported(s, n)
         agree == s.nl # 0 \/ (/\ \A i \in 1..n : s.pm[i] >= 0 => s.gm[s.pm[i] + 1] = i - 1
                               /\ \A j \in 1..m : s.gm[j] >= 0 => s.pm[s.gm[j] + 1] = j - 1)
         one == IF s.nl = 2 THEN \A i, j \in 1..m : (i # j /\ s.gm[i] >= 0) => s.gm[i] # s.gm[j]
                ELSE IsAssignment(a, n, m)
         elig == one => \A i \in 1..n : a[i] # 0 => ok[i][a[i]]
         rule == IF ~(one /\ elig) THEN TRUE
                 ELSE IF e.kind \in {"H", "L"}
                 THEN IF Len(s.u) > 0
                      THEN \* certificate: labels over the zero-padded square matrix
                           LET k == MaxI(n, m)
                               ww == [i \in 1..k |-> [j \in 1..k |->
                                        IF i <= n /\ j <= m THEN w[i][j] ELSE 0]]
                           IN FeasibleLabels(s.u, s.v, k, ww)
                              /\ Total(a, w) = SumSeq(s.u) + SumSeq(s.v)
                      ELSE Total(a, w) = Best(n, m, w)
                 ELSE LET sc == [i \in 1..n |-> e.ps[s.p[i] + 1]]
                      IN GreedyExplains(GreedyInit(n), a, m, ok, w, sc)
     IN Chk(agree, "both outputs describe the same pairs") \cup
        Chk(one, "one-to-one") \cup
        Chk(elig, "every pair eligible") \cup
        Chk(rule, IF e.kind \in {"H", "L"} THEN "maximum total weight" ELSE "score-first rule")

HungVerdict(e) ==
  LET n == e.n
      w == [i \in 1..n |-> [j \in 1..n |-> e.e[(i - 1) * n + j]]]
      p1 == [i \in 1..n |-> e.perm[i] + 1]
      p2 == [i \in 1..n |-> e.perm2[i] + 1]
      tot(p) == SumOver(1..n, LAMBDA i : w[i][p[i]])
      dual == SumSeq(e.lx) + SumSeq(e.ly)
  IN IF ~(IsPerm(p1, n) /\ IsPerm(p2, n)) THEN {"assignment is a permutation"}
     ELSE Chk(FeasibleLabels(e.lx, e.ly, n, w), "labels feasible") \cup
          Chk(tot(p1) = dual /\ tot(p2) = dual, "assignment weight equals label sum")

Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE IF e.ev = "hung" THEN HungVerdict(e)
  ELSE UNION {CallVerdict(e, e.st[k]) : k \in DOMAIN e.st}

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
