-------------------------------- MODULE RoadMap --------------------------------
(* Where objects are on the map: how far beyond the edge of the road, and whether they pass red lights. *)
(* Coordinates are small integers. A road edge is a sequence of points <<x, y, z>> with the road to its  *)
(* left; it is closed when its ends meet, flagged in the record [pts, closed].                           *)
EXTENDS VCommon

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == TLCEval((lo + hi) \div 2) IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == LET k == TLCEval(n) IN ISqrtIn(k, 0, 46341)
Frac(n, d, k) == (n \div d) * k + ((n % d) * k) \div d      \* n/d in 1/k, rounded down
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

(* ---- a point and a segment ------------------------------------------------------------------------ *)
(* rel: before, on or after; d2: the squared distance in the plane, in thousandths; z: the height above  *)
(* the nearest point in hundredths; d3: with heights counted three times; slack: what rounding may do    *)
ToSegment(p, a, b) ==
  LET u == TLCEval(Sub(b, a))
      w == TLCEval(Sub(p, a))
      len == TLCEval(Dot(u, u))
      t == TLCEval(Dot(w, u))
      c == TLCEval(Cross(w, u))                    \* positive on the right
      edge == IF t = 0 THEN "start" ELSE IF t = len THEN "end" ELSE ""      \* rounding may put it beyond
      rel == IF t < 0 THEN "before" ELSE IF t > len THEN "after" ELSE "on"
      d2 == IF rel = "before" THEN 1000 * Dot(w, w)
            ELSE IF rel = "after" THEN 1000 * Dot(Sub(p, b), Sub(p, b))
            ELSE Frac(c * c, len, 1000)
      z == IF rel = "before" THEN 100 * (p[3] - a[3])
           ELSE IF rel = "after" THEN 100 * (p[3] - b[3])
           ELSE 100 * (p[3] - a[3]) - Frac((b[3] - a[3]) * t, len, 100) IN
  [rel |-> rel, edge |-> edge, right |-> Sign(c), d2 |-> d2, d3 |-> d2 + (9 * z * z) \div 10, slack |-> IF a[3] = b[3] THEN 4 ELSE 8 + 2 * AbsI(z)]
Turn(a, b, c) == Sign(Cross(Sub(b, a), Sub(c, b)))       \* positive to the left

(* ---- the side of a road edge ---------------------------------------------------------------------- *)
Segs(e) == 1..(Len(e.pts) - 1)
PriorSeg(e, i) == IF i > 1 THEN i - 1 ELSE IF e.closed THEN Len(e.pts) - 1 ELSE 0
NextSeg(e, i) == IF i < Len(e.pts) - 1 THEN i + 1 ELSE IF e.closed THEN 1 ELSE 0
TurnOf(e, i, j) == Sign(Cross(Sub(e.pts[i + 1], e.pts[i]), Sub(e.pts[j + 1], e.pts[j])))
(* at a corner: off the road where the road turns left if right of either, else if right of both *)
AtCorner(e, i, j, ri, rj) == IF TurnOf(e, i, j) > 0 THEN MaxI(ri, rj) ELSE MinI(ri, rj)
SideAs(e, i, S, rel) ==
  LET j == IF rel = "before" THEN PriorSeg(e, i) ELSE IF rel = "after" THEN NextSeg(e, i) ELSE 0 IN
  IF j = 0 THEN S[i].right
  ELSE IF rel = "before" THEN AtCorner(e, j, i, S[j].right, S[i].right) ELSE AtCorner(e, i, j, S[i].right, S[j].right)
Sides(e, i, S) ==
  {SideAs(e, i, S, S[i].rel)} \cup (IF S[i].edge = "start" THEN {SideAs(e, i, S, "before")} ELSE IF S[i].edge = "end" THEN {SideAs(e, i, S, "after")} ELSE {})
(* the admitted signed distances of a point, in hundredths: by the nearest segment of all edges.         *)
(* In line with the open end of an edge a point is on neither side.                                       *)
Hundredths(d2) == ISqrt(10 * d2)
Distances(p, edges) ==
  LET all == TLCEval([k \in DOMAIN edges |-> [i \in Segs(edges[k]) |-> ToSegment(p, edges[k].pts[i], edges[k].pts[i + 1])]])
      idx == TLCEval(UNION {{<<k, i>> : i \in Segs(edges[k])} : k \in DOMAIN edges})
      least == TLCEval(Min({all[x[1]][x[2]].d3 : x \in idx}))
      first == all[(CHOOSE x \in idx : all[x[1]][x[2]].d3 = least)[1]][(CHOOSE x \in idx : all[x[1]][x[2]].d3 = least)[2]]
      near == {x \in idx : all[x[1]][x[2]].d3 <= least + all[x[1]][x[2]].slack + first.slack}
      of(x) == LET s == all[x[1]][x[2]]
                   h == Hundredths(s.d2)
                   sides == Sides(edges[x[1]], x[2], all[x[1]]) IN
               IF 0 \in sides THEN {0, h, -h} ELSE {side * h : side \in sides} IN
  UNION {of(x) : x \in near}
(* an object is as far off the road as its corner furthest off: [x, y, bottom, l, w (half), d] *)
Dirs == <<<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<4, 3>>, <<-3, 4>>, <<-4, -3>>, <<3, -4>>>>
(* half sizes times a direction are multiples of 5 *)
CornersOf(b) ==
  LET u == Dirs[b.d]
      at(i, j) == <<b.x + (i * b.l * u[1] - j * b.w * u[2]) \div 5, b.y + (i * b.l * u[2] + j * b.w * u[1]) \div 5, b.z>> IN
  {at(1, 1), at(-1, 1), at(-1, -1), at(1, -1)}
Fits(got, b, edges, tol) ==
  LET D == TLCEval([c \in CornersOf(b) |-> Distances(c, edges)]) IN
  /\ \E c \in DOMAIN D : \E v \in D[c] : AbsI(got - v) <= tol
  /\ \A c \in DOMAIN D : Min(D[c]) <= got + tol

(* ---- red lights ----------------------------------------------------------------------------------- *)
(* lanes: [id, pts <<x, y>>]; signals at a step: [lane, state, stop]                                     *)
Stops == {1, 4}                                    \* an arrow or a light that says stop; flashing ones do not
At2(p) == <<p[1], p[2], 0>>
LaneDistance(p, lane) == Min({ToSegment(At2(p), At2(lane.pts[i]), At2(lane.pts[i + 1])).d2 : i \in 1..(Len(lane.pts) - 1)})
Usable(lanes) == {k \in DOMAIN lanes : Len(lanes[k].pts) >= 2}
NearestLanes(p, lanes) ==
  LET d == TLCEval([k \in Usable(lanes) |-> LaneDistance(p, lanes[k])])
      m == TLCEval(Min({d[k] : k \in DOMAIN d})) IN
  {lanes[k].id : k \in {j \in DOMAIN d : d[j] <= m + 4}}
(* the segments of the lane that the stop point is on *)
StopSegs(stop, lane) ==
  LET d == TLCEval([i \in 1..(Len(lane.pts) - 1) |-> ToSegment(At2(stop), At2(lane.pts[i]), At2(lane.pts[i + 1])).d2])
      m == TLCEval(Min({d[i] : i \in DOMAIN d})) IN
  {i \in DOMAIN d : d[i] <= m + 4}
Passes(before, after, stop, a, b) ==
  LET u == Sub(b, a) IN Dot(Sub(before, stop), u) < 0 /\ Dot(Sub(after, stop), u) > 0
(* the verdicts admitted for a step from before to after under the signals of that step *)
Violations(before, after, lanes, signals) ==
  LET near == TLCEval(NearestLanes(after, lanes))
      laneOf(id) == lanes[CHOOSE k \in Usable(lanes) : lanes[k].id = id]
      red(id) == {s \in SeqToSet(signals) : s.lane = id /\ s.state \in Stops}
      of(id) == IF red(id) = {} THEN {FALSE}
                ELSE LET s == CHOOSE s \in red(id) : TRUE
                         L == laneOf(id) IN
                     {Passes(before, after, s.stop, L.pts[i], L.pts[i + 1]) : i \in StopSegs(s.stop, L)} IN
  UNION {of(id) : id \in near}
=============================================================================
