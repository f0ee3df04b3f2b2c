-------------------------------- MODULE OccFlow --------------------------------
(* Occupancy and flow grids of a scene, seen from above. A scene has the size [h, w] of its grid, where  *)
(* the vehicle is in it (sx, sy), ppm = <<n, d>> pixels per metre, norm: whether the vehicle heads up,    *)
(* nl x nw points that stand for a box, past and fut: numbers of steps, wp: steps of a waypoint, sdc: the *)
(* vehicle's [x, y, yaw] now, agents: sequence of [type, st], st a sequence (past, now, future) of        *)
(* [x, y, yaw, l, w, v]. Lengths in 1/100 m, turns <<cos, sin>> in fifths, image coordinates in 1/10000.  *)
EXTENDS VCommon

Rd(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))
One == 10000
Turn(sc) == IF sc.norm THEN <<sc.sdc.yaw[2], sc.sdc.yaw[1]>> ELSE <<5, 0>>       \* by which the scene is turned
Unit(k, n) == IF n = 1 THEN 0 ELSE 2 * (k - 1) - (n - 1)
UnitDen(n) == IF n = 1 THEN 1 ELSE 2 * (n - 1)
Px(sc, num, den) == Rd(num * 100 * sc.ppm[1], den * sc.ppm[2])
At(sc, x, y) ==                                                               \* where a place is in the image
  LET f == Turn(sc)
      dx == x - sc.sdc.x
      dy == y - sc.sdc.y IN
  <<Px(sc, f[1] * dx - f[2] * dy, 5), Px(sc, f[2] * dx + f[1] * dy, 5)>>
Image(sc, v) == <<v[1] + One * sc.sx, One * sc.sy - v[2]>>
PointOf(sc, s, i, j) ==                                                       \* point i, j of a box
  LET f == Turn(sc)
      C == s.yaw[1] * f[1] - s.yaw[2] * f[2]
      S == s.yaw[2] * f[1] + s.yaw[1] * f[2]
      a == At(sc, s.x, s.y)
      u == s.l * Unit(i, sc.nl)
      v == s.w * Unit(j, sc.nw) IN
  Image(sc, <<a[1] + Px(sc, C * u, 25 * UnitDen(sc.nl)) - Px(sc, S * v, 25 * UnitDen(sc.nw)),
              a[2] + Px(sc, S * u, 25 * UnitDen(sc.nl)) + Px(sc, C * v, 25 * UnitDen(sc.nw))>>)
Cell(p) == <<(p[1] + 5000) \div One, (p[2] + 5000) \div One>>
(* the computation is not exact: a point this near to a border may be on either side *)
Slack == 8
NearBorder(x) == LET m == (x + 5000) % One IN m <= Slack \/ m >= One - Slack
Fuzzy(p) == NearBorder(p[1]) \/ NearBorder(p[2])
Cells(p) == {Cell(<<p[1] + a, p[2] + b>>) : a \in {-Slack - 1, Slack + 1}, b \in {-Slack - 1, Slack + 1}}
InGrid(sc, c) == c[1] >= 0 /\ c[1] < sc.w /\ c[2] >= 0 /\ c[2] < sc.h

Steps(sc) == sc.past + 1 + sc.fut
Now(sc) == sc.past + 1
TimeSteps(sc, times) ==                                                       \* the steps of times, in their order
  FoldLeft(LAMBDA acc, t : acc \o (IF t = "past" THEN [k \in 1..sc.past |-> k] ELSE IF t = "current" THEN <<Now(sc)>> ELSE [k \in 1..sc.fut |-> Now(sc) + k]), <<>>, times)
Observed(sc, a) == \E t \in 1..Now(sc) : sc.agents[a].st[t].v
(* agents that are drawn: those hidden until now differ from the others only in the future *)
Drawn(sc, type, times, obs, occ) ==
  {a \in DOMAIN sc.agents : sc.agents[a].type = type /\ ((obs /\ occ) \/ (\A k \in DOMAIN times : times[k] # "future") \/ (IF obs THEN Observed(sc, a) ELSE ~Observed(sc, a)))}
Grid(sc) == (1..sc.nl) \X (1..sc.nw)
(* all points of all agents at all steps *)
Points(sc) == [a \in DOMAIN sc.agents |-> [t \in 1..Steps(sc) |-> IF sc.agents[a].st[t].v THEN [g \in Grid(sc) |-> PointOf(sc, sc.agents[a].st[t], g[1], g[2])] ELSE <<>>]]

Sure(sc, P, A, t) == {c \in UNION {{Cell(P[a][t][g]) : g \in {x \in DOMAIN P[a][t] : ~Fuzzy(P[a][t][x])}} : a \in A} : InGrid(sc, c)}
Maybe(sc, P, A, t) == {c \in UNION {UNION {Cells(P[a][t][g]) : g \in DOMAIN P[a][t]} : a \in A} : InGrid(sc, c)}

(* flow: of points at step t and, earlier, at step u, of agents valid at both *)
Both(P, A, t, u) == {a \in A : P[a][t] # <<>> /\ P[a][u] # <<>>}
FlowPoints(P, A, t, u) == UNION {{<<a, g>> : g \in DOMAIN P[a][t]} : a \in Both(P, A, t, u)}
FlowHere(P, A, t, u, c) == {k \in FlowPoints(P, A, t, u) : c \in Cells(P[k[1]][t][k[2]])}
FlowClear(P, A, t, u, c) == \A k \in FlowHere(P, A, t, u, c) : ~Fuzzy(P[k[1]][t][k[2]]) /\ ~Fuzzy(P[k[1]][u][k[2]])
Back(P, k, t, u, m) == Cell(P[k[1]][u][k[2]])[m] - Cell(P[k[1]][t][k[2]])[m]
FlowAt(P, A, t, u, c) ==                                                      \* in 1/1000 pixels
  LET K == FlowHere(P, A, t, u, c) IN
  IF K = {} THEN <<0, 0>>
  ELSE [m \in 1..2 |-> Rd(1000 * SumOver(K, LAMBDA k : Back(P, k, t, u, m)), Cardinality(K))]
FlowCells(sc, P, A, t, u) == {c \in UNION {Cells(P[k[1]][t][k[2]]) : k \in FlowPoints(P, A, t, u)} : InGrid(sc, c)}
=============================================================================
