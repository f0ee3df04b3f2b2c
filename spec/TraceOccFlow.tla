----------------------------- MODULE TraceOccFlow -----------------------------
(* Events, each with its scene sc. "draw": times, obs, occ; got[type][k] = <<cells drawn>>. "flow": times,  *)
(* obs, occ; got[type][k] = <<<<x, y, dx, dy>>, ...>> in 1/1000. "way": cumul, n; grids fobs, focc, all,   *)
(* flow of the steps and wobs, wocc, worig, wflow of the waypoints. "road": pts <<x, y, valid>>, got.        *)
(* "trail": past, now (cells of all types), got <<x, y, v>> in 1/1000. "pairs": [name, want, got].          *)
EXTENDS OccFlow, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Types == 1..3
Set(s) == {s[i] : i \in DOMAIN s}
Legal(e) == (e.obs \/ e.occ) \/ \A k \in DOMAIN e.times : e.times[k] # "future"
Draw1(e) ==
  LET sc == TLCEval(e.sc)
      ts == TLCEval(TimeSteps(sc, e.times))
      P == TLCEval(Points(sc)) IN
  IF ~Legal(e) THEN Chk(e.refused, "one of the observed and the hidden must be asked for")
  ELSE IF e.refused THEN {"no other end"}
  ELSE
  Chk(\A y \in Types : Len(e.got[y]) = Len(ts), "a grid for every step") \cup
  UNION {
    LET A == TLCEval(Drawn(sc, y, e.times, e.obs, e.occ)) IN
    Chk(\A k \in DOMAIN e.got[y] : k \in DOMAIN ts => Sure(sc, P, A, ts[k]) \subseteq Set(e.got[y][k]), "agents are drawn where they are") \cup
    Chk(\A k \in DOMAIN e.got[y] : k \in DOMAIN ts => Set(e.got[y][k]) \subseteq Maybe(sc, P, A, ts[k]), "and nowhere else")
  : y \in Types}
Flow1(e) ==
  LET sc == TLCEval(e.sc)
      ts == TLCEval(TimeSteps(sc, e.times))
      P == TLCEval(Points(sc)) IN
  IF ~Legal(e) THEN Chk(e.refused, "one of the observed and the hidden must be asked for")
  ELSE IF e.refused THEN {"no other end"}
  ELSE
  Chk(\A y \in Types : Len(e.got[y]) = Len(ts) - sc.wp, "a flow for every step with an earlier one") \cup
  UNION {
    LET A == TLCEval(Drawn(sc, y, e.times, e.obs, e.occ)) IN
    UNION {IF k + sc.wp \notin DOMAIN ts THEN {} ELSE
      LET t == ts[k + sc.wp]
          u == ts[k]
          G == TLCEval(e.got[y][k])
          cells == TLCEval(FlowCells(sc, P, A, t, u)) IN
      Chk(\A i \in DOMAIN G : <<G[i][1], G[i][2]>> \in cells, "flow only where something came from somewhere") \cup
      Chk(\A c \in cells : FlowClear(P, A, t, u, c) =>
            LET f == TLCEval(FlowAt(P, A, t, u, c))
                I == {i \in DOMAIN G : <<G[i][1], G[i][2]>> = c}
                g == IF I = {} THEN <<0, 0>> ELSE LET i == CHOOSE i \in I : TRUE IN <<G[i][3], G[i][4]>> IN
            Within(f[1], g[1], 1) /\ Within(f[2], g[2], 1), "flow leads back to where things were")
    : k \in DOMAIN e.got[y]}
  : y \in Types}
(* waypoint k is its last step, or the union or the mean of its steps *)
Seg(e, k) == IF e.cumul THEN {t \in 1..e.sc.fut : (k - 1) * e.sc.wp < t /\ t <= k * e.sc.wp} ELSE {k * e.sc.wp}
Cover(e, grids, off, k) == UNION {Set(grids[t + off]) : t \in Seg(e, k)}
MeanFlow(V) == IF V = <<>> THEN 0 ELSE Rd(SumSeq(V), Len(V))
FlowIn(e, y, off, k, c, m) ==                                                 \* nonzero components at c in the segment
  FoldSet(LAMBDA t, acc : acc \o (LET G == e.flow[y][t + off]
                                      I == {i \in DOMAIN G : <<G[i][1], G[i][2]>> = c /\ G[i][2 + m] # 0} IN
                                  IF I = {} THEN <<>> ELSE <<G[CHOOSE i \in I : TRUE][2 + m]>>), <<>>, Seg(e, k))
Way1(e) ==
  LET sc == e.sc
      n == sc.fut \div sc.wp
      hist == sc.past + 1
      offF == hist - sc.wp IN
  IF sc.wp > hist THEN Chk(e.refused, "waypoints longer than the history have no origins")
  ELSE IF e.refused THEN {"no other end"} ELSE
  UNION {
    Chk(Len(e.wobs[y]) = n /\ Len(e.wocc[y]) = n /\ Len(e.worig[y]) = n /\ Len(e.wflow[y]) = n, "so many waypoints") \cup
    Chk(\A k \in 1..n : Set(e.wobs[y][k]) = Cover(e, e.fobs[y], 0, k), "observed at waypoints") \cup
    Chk(\A k \in 1..n : Set(e.wocc[y][k]) = Cover(e, e.focc[y], 0, k), "hidden at waypoints") \cup
    Chk(\A k \in 1..n : Set(e.worig[y][k]) = Cover(e, e.all[y], offF, k), "origins of the flow at waypoints") \cup
    Chk(\A k \in 1..n :
          LET G == TLCEval(e.wflow[y][k])
              cells == TLCEval({<<G[i][1], G[i][2]>> : i \in DOMAIN G} \cup UNION {{<<e.flow[y][t + offF][i][1], e.flow[y][t + offF][i][2]>> : i \in DOMAIN e.flow[y][t + offF]} : t \in Seg(e, k)}) IN
          \A c \in cells :
            LET I == {i \in DOMAIN G : <<G[i][1], G[i][2]>> = c} IN
            \A m \in 1..2 : Within(MeanFlow(FlowIn(e, y, offF, k, c, m)), IF I = {} THEN 0 ELSE G[CHOOSE i \in I : TRUE][2 + m], 2), "flow at waypoints")
  : y \in Types}
Road1(e) ==
  LET sc == e.sc
      Q == TLCEval({Image(sc, At(sc, e.pts[i][1], e.pts[i][2])) : i \in {j \in DOMAIN e.pts : e.pts[j][3] = 1}})
      G == Set(e.got) IN
  Chk({c \in {Cell(p) : p \in {x \in Q : ~Fuzzy(x)}} : InGrid(sc, c)} \subseteq G /\ G \subseteq UNION {Cells(p) : p \in Q}, "the roads are drawn where they are, and nowhere else")
(* trails fade with every step, and once more behind the present *)
RECURSIVE Fade(_)
Fade(k) == IF k = 0 THEN 1000000 ELSE (Fade(k - 1) * 8) \div 10
Trail1(e) ==
  LET n == Len(e.past)
      G == e.got
      cells == TLCEval({<<G[i][1], G[i][2]>> : i \in DOMAIN G} \cup Set(e.now) \cup UNION {Set(e.past[t]) : t \in DOMAIN e.past}) IN
  Chk(\A c \in cells :
        LET I == {i \in DOMAIN G : <<G[i][1], G[i][2]>> = c}
            T == {t \in DOMAIN e.past : c \in Set(e.past[t])}
            v == IF c \in Set(e.now) THEN 1000 ELSE IF T = {} THEN 0 ELSE Rd(Fade(n - Max(T) + 2), 1000) IN
        Within(v, IF I = {} THEN 0 ELSE G[CHOOSE i \in I : TRUE][3], 1), "trails of agents")
Pairs(e) == UNION {Chk(e.pairs[k][2] = e.pairs[k][3], e.pairs[k][1]) : k \in DOMAIN e.pairs}
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE
   CASE e.t = "draw" -> Draw1(e) [] e.t = "flow" -> Flow1(e) [] e.t = "way" -> Way1(e) [] e.t = "road" -> Road1(e)
     [] e.t = "trail" -> Trail1(e) [] e.t = "pairs" -> Pairs(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
