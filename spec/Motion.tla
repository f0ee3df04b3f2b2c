--------------------------------- MODULE Motion ---------------------------------
(* Motion prediction metrics: which submissions are accepted, what one prediction contributes and   *)
(* how contributions accumulate. Lengths are in quarter metres, speeds in quarter metres a second,  *)
(* thresholds and distances in thousandths of a quarter metre ("milli"), confidences in sixteenths. *)
(* state   <<valid, x, y, p, q, L, W, vx, vy>>   (p, q) the heading direction                        *)
(* track   [id, type, st]          scenario [id, tracks, req (0-based track indices)]                *)
(* joint   [c, t] with t a sequence of [id, x, y];  mm: a sequence of joints;  pred [id, mm]         *)
EXTENDS VCommon

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo
                   ELSE LET mid == (lo + hi + 1) \div 2
                        IN IF mid * mid <= n THEN Root(n, mid, hi) ELSE Root(n, lo, mid - 1)
ISqrt(n) == Root(n, 0, 46340)
(* length of (a, b) in thousandths *)
Norm(a, b) == LET n == a * a + b * b
                  r == ISqrt(n)
              IN IF r * r = n THEN r * 1000
                 ELSE IF n < 2000 THEN ISqrt(n * 1000000)
                 ELSE IF n < 200000 THEN ISqrt(n * 10000) * 10
                 ELSE r * 1000
(* unit direction in thousandths; the zero vector points along x *)
Unit(p, q) == IF p = 0 /\ q = 0 THEN <<1000, 0>>
              ELSE LET n == Norm(p, q) IN <<(p * 1000000) \div n, (q * 1000000) \div n>>

Valid(s) == s[1] = 1
Steps(cfg) == (cfg.fut * cfg.pps) \div cfg.tps
At(cfg, i) == (i + 1) * (cfg.tps \div cfg.pps) + cfg.hist + 1          \* position in the state list
Cur(cfg) == cfg.hist + 1
Now(cfg, tr) == tr.st[Cur(cfg)]
Gt(cfg, tr, i) == tr.st[At(cfg, i)]

(* ---- acceptance -------------------------------------------------------------------------------- *)
GoodConfig(cfg) ==
  /\ cfg.k > 0 /\ cfg.pps > 0 /\ cfg.hist >= 0 /\ cfg.fut >= 0 /\ cfg.pps <= cfg.tps /\ cfg.tps % cfg.pps = 0
  /\ \A i \in DOMAIN cfg.steps : cfg.steps[i].step >= 0 /\ cfg.steps[i].step < Steps(cfg)
Ids(j) == [k \in DOMAIN j.t |-> j.t[k].id]
GoodJoint(cfg, j) == /\ Distinct(Ids(j))
                     /\ \A k \in DOMAIN j.t : Len(j.t[k].x) = Steps(cfg) /\ Len(j.t[k].y) = Steps(cfg)
GoodMm(cfg, mm) == /\ \A i \in DOMAIN mm : GoodJoint(cfg, mm[i])
                   /\ \A i, k \in DOMAIN mm : SeqToSet(Ids(mm[i])) = SeqToSet(Ids(mm[k]))
Agents(mm) == IF mm = <<>> THEN {} ELSE SeqToSet(Ids(mm[1]))
Accept(cfg, sc, pr) ==
  /\ GoodConfig(cfg)
  /\ pr.id = sc.id
  /\ \A i \in DOMAIN pr.mm : GoodMm(cfg, pr.mm[i])
  /\ \A i, k \in DOMAIN pr.mm : i # k => Agents(pr.mm[i]) \cap Agents(pr.mm[k]) = {}
  /\ \A i \in DOMAIN sc.req : sc.req[i] >= 0 /\ sc.req[i] < Len(sc.tracks)
  /\ UNION {Agents(pr.mm[i]) : i \in DOMAIN pr.mm} = {sc.tracks[sc.req[i] + 1].id : i \in DOMAIN sc.req}
  /\ \A i \in DOMAIN sc.tracks : Len(sc.tracks[i].st) = cfg.hist + cfg.fut + 1
BadSpeeds(cfg) == cfg.slo >= cfg.shi

TrackOf(sc, id) == sc.tracks[CHOOSE i \in DOMAIN sc.tracks : sc.tracks[i].id = id]
Considered(cfg, mm) == 1..MinI(Len(mm), cfg.k)

(* ---- displacement ------------------------------------------------------------------------------ *)
Off(cfg, sc, t, i) == LET s == Gt(cfg, TrackOf(sc, t.id), i) IN Norm(t.x[i + 1] - s[2], t.y[i + 1] - s[3])
ValidSteps(cfg, sc, id, n) == {i \in 0..n : Valid(Gt(cfg, TrackOf(sc, id), i))}
(* the mean over trajectories of the mean over valid steps; -1 when some trajectory has none *)
Ade(cfg, sc, j, S(_)) ==
  IF j.t = <<>> \/ \E k \in DOMAIN j.t : S(j.t[k].id) = {} THEN -1
  ELSE SumOver(DOMAIN j.t, LAMBDA k : SumOver(S(j.t[k].id), LAMBDA i : Off(cfg, sc, j.t[k], i))
                                        \div Cardinality(S(j.t[k].id))) \div Len(j.t)
Least(cfg, sc, mm, S(_)) ==
  LET v == {Ade(cfg, sc, mm[i], S) : i \in Considered(cfg, mm)} \ {-1}
  IN IF v = {} THEN -1 ELSE Min(v)
MinAde(cfg, sc, mm, n) == Least(cfg, sc, mm, LAMBDA id : ValidSteps(cfg, sc, id, n))
MinFde(cfg, sc, mm, n) == Least(cfg, sc, mm, LAMBDA id : ValidSteps(cfg, sc, id, n) \cap {n})

(* ---- the miss criterion ------------------------------------------------------------------------ *)
(* threshold scale in thousandths *)
Scale(cfg, tr) ==
  LET s == Now(cfg, tr)  v == Norm(s[8], s[9]) \div 10                  \* hundredths
  IN IF v < cfg.slo THEN cfg.sclo
     ELSE IF v > cfg.shi THEN cfg.schi
     ELSE cfg.sclo + ((cfg.schi - cfg.sclo) * (v - cfg.slo)) \div (cfg.shi - cfg.slo)
(* "in", "out", or "edge" where only rounding decides *)
Judge(v, limit, slack) == IF v <= limit - slack THEN "in" ELSE IF v > limit + slack THEN "out" ELSE "edge"
(* nothing is rounded for a heading along x and one of the end scales, when it is a power of two *)
Exact(cfg, tr, s) == /\ s[4] = 1 /\ s[5] = 0
                     /\ Scale(cfg, tr) \in {250, 500, 1000, 2000}
                     /\ (cfg.sclo = cfg.schi \/ Norm(Now(cfg, tr)[8], Now(cfg, tr)[9]) \div 10 < cfg.slo
                                             \/ Norm(Now(cfg, tr)[8], Now(cfg, tr)[9]) \div 10 > cfg.shi)
MatchOne(cfg, sc, t, sp) ==
  LET tr == TrackOf(sc, t.id)
      s == Gt(cfg, tr, sp.step)
      dx == t.x[sp.step + 1] - s[2]
      dy == t.y[sp.step + 1] - s[3]
      u == Unit(s[4], s[5])
      lon == AbsI(dx * u[1] + dy * u[2])
      lat == AbsI(dy * u[1] - dx * u[2])
      k == Scale(cfg, tr)
      slack == IF Exact(cfg, tr, s) THEN 0 ELSE 4 + (AbsI(dx) + AbsI(dy)) * 2 + (sp.lat + sp.lon) \div 400
      a == Judge(lat, (sp.lat * k) \div 1000, slack)
      b == Judge(lon, (sp.lon * k) \div 1000, slack)
  IN IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "edge" \/ b = "edge" THEN "edge" ELSE "in"
(* "none": some trajectory has no ground truth at that step *)
MatchJoint(cfg, sc, j, sp) ==
  IF \E k \in DOMAIN j.t : ~Valid(Gt(cfg, TrackOf(sc, j.t[k].id), sp.step)) THEN "none"
  ELSE LET m == {MatchOne(cfg, sc, j.t[k], sp) : k \in DOMAIN j.t}
       IN IF "out" \in m THEN "out" ELSE IF "edge" \in m THEN "edge" ELSE "in"
Matches(cfg, sc, mm, sp) == [i \in Considered(cfg, mm) |-> MatchJoint(cfg, sc, mm[i], sp)]
Edgy(m) == \E i \in DOMAIN m : m[i] = "edge"
(* 1 miss, 0 hit, -1 nothing to say *)
Miss(m) == IF \E i \in DOMAIN m : m[i] = "in" THEN 0
           ELSE IF \E i \in DOMAIN m : m[i] = "out" THEN 1 ELSE -1

(* ---- overlap ----------------------------------------------------------------------------------- *)
(* a box: <<centre x, y, unit direction, L, W>>; the gap along an axis in milli, negative: overlap  *)
GapAlong(n, A, B) ==
  LET pr(u) == AbsI(n[1] * u[1] + n[2] * u[2]) \div 1000
      ext(X) == (X[4] * pr(X[3]) + X[5] * pr(<<-X[3][2], X[3][1]>>)) \div 2
  IN AbsI(n[1] * (B[1] - A[1]) + n[2] * (B[2] - A[2])) - ext(A) - ext(B)
Axes(A) == {A[3], <<-A[3][2], A[3][1]>>}
Gap(A, B) == Max({GapAlong(n, A, B) : n \in Axes(A) \cup Axes(B)})
Flat(A) == A[4] = 0 \/ A[5] = 0                          \* no extent: meets nothing
Meet(A, B) == LET g == Gap(A, B)
              IN IF g > 150 THEN "no" ELSE IF Flat(A) \/ Flat(B) THEN "no" ELSE IF g >= -150 THEN "edge" ELSE "yes"
Move(t, i) == <<t.x[i + 1] - t.x[i], t.y[i + 1] - t.y[i]>>          \* from step i-1 to step i
UnitOf(v) == Unit(v[1], v[2])
(* the direction of travel at step i; <<0, 0>> when it turns right back *)
Course(t, i) ==
  LET n == Len(t.x)
  IN IF i = 0 THEN UnitOf(Move(t, 1))
     ELSE IF i = n - 1 THEN UnitOf(Move(t, n - 1))
     ELSE LET a == UnitOf(Move(t, i))  b == UnitOf(Move(t, i + 1))
              s == <<a[1] + b[1], a[2] + b[2]>>
          IN IF AbsI(s[1]) + AbsI(s[2]) < 300 THEN <<0, 0>> ELSE UnitOf(<<s[1] \div 4, s[2] \div 4>>)
OverlapAt(cfg, sc, t, i) ==
  IF Len(t.x) < 2 THEN {"no"}
  ELSE LET tr == TrackOf(sc, t.id)
           s == Gt(cfg, tr, i)
           c == Course(t, i)
           A == <<t.x[i + 1], t.y[i + 1], IF c = <<0, 0>> THEN <<1000, 0>> ELSE c, s[6], s[7]>>
           box(o) == <<o[2], o[3], Unit(o[4], o[5]), o[6], o[7]>>
           near(o) == Norm(o[2] - A[1], o[3] - A[2]) <= (A[4] + A[5] + o[6] + o[7]) * 1000
           one(o) == IF ~near(o) THEN "no" ELSE IF c = <<0, 0>> THEN "edge" ELSE Meet(A, box(o))
       IN {one(Gt(cfg, sc.tracks[k], i)) : k \in {k \in DOMAIN sc.tracks :
             sc.tracks[k].id # t.id /\ Valid(Now(cfg, sc.tracks[k])) /\ Valid(Gt(cfg, sc.tracks[k], i))}}
(* the most confident of the considered predictions (any of them on a tie) *)
Favourites(cfg, mm) == {i \in Considered(cfg, mm) : \A k \in Considered(cfg, mm) : mm[k].c <= mm[i].c}
OverlapOf(cfg, sc, j, n) ==
  LET r == UNION {OverlapAt(cfg, sc, j.t[k], i) : k \in DOMAIN j.t, i \in 0..n}
  IN IF "yes" \in r THEN {1} ELSE IF "edge" \in r THEN {0, 1} ELSE {0}
Overlaps(cfg, sc, mm, n) == UNION {OverlapOf(cfg, sc, mm[i], n) : i \in Favourites(cfg, mm)}

(* ---- trajectory shape: the set of classes the definition allows ({} : none) --------------------- *)
Cross(h, d) == h[1] * d[2] - h[2] * d[1]
Dot(h, d) == h[1] * d[1] + h[2] * d[2]
ShapesX(cur, tr, trust) ==            \* cur: 1-based current position; trust: exact headings decide ties
  LET later == {i \in (cur + 1)..Len(tr.st) : Valid(tr.st[i])}
  IN IF later = {} \/ ~Valid(tr.st[cur]) THEN {}
     ELSE
  LET a == tr.st[cur]
      b == tr.st[Max(later)]
      d == <<b[2] - a[2], b[3] - a[3]>>
      h == <<a[4], a[5]>>
      g == <<b[4], b[5]>>
      hh == Dot(h, h)
      slow == MaxI(a[8] * a[8] + a[9] * a[9], b[8] * b[8] + b[9] * b[9]) < 64
      near == Dot(d, d) < 144
      turn == Dot(h, g)
      straight == turn > 0 /\ 3 * Cross(h, g) * Cross(h, g) < turn * turn
      c == Cross(h, d)                                                   \* lateral offset times |h|
      along == Dot(h, d)
      exact == trust /\ h = <<1, 0>>
      off == IF c * c < 100 * hh THEN {"in"} ELSE IF c * c > 100 * hh \/ exact THEN {"out"} ELSE {"in", "out"}
      side == IF c < 0 THEN {"R"} ELSE IF c > 0 \/ exact THEN {"L"} ELSE {"L", "R"}
      back == IF along < 0 THEN {TRUE} ELSE IF along > 0 \/ exact THEN {FALSE} ELSE {TRUE, FALSE}
  IN IF slow /\ near THEN {"STATIONARY"}
     ELSE IF straight
     THEN (IF "in" \in off THEN {"STRAIGHT"} ELSE {}) \cup
          (IF "out" \in off THEN {IF x = "R" THEN "STRAIGHT_RIGHT" ELSE "STRAIGHT_LEFT" : x \in side} ELSE {})
     ELSE {IF x = "R" THEN (IF y THEN "RIGHT_U_TURN" ELSE "RIGHT_TURN")
                      ELSE (IF y THEN "LEFT_U_TURN" ELSE "LEFT_TURN") : x \in side, y \in back}
Shapes(cur, tr) == ShapesX(cur, tr, TRUE)
(* no comparison is a tie *)
Clear(cur, tr) ==
  LET w == Max({i \in cur..Len(tr.st) : i = cur \/ Valid(tr.st[i])})
      a == tr.st[cur]  b == tr.st[w]
  IN /\ Cardinality(ShapesX(cur, tr, FALSE)) = 1
     /\ (b[2] - a[2]) * (b[2] - a[2]) + (b[3] - a[3]) * (b[3] - a[3]) # 144
     /\ a[8] * a[8] + a[9] * a[9] # 64 /\ b[8] * b[8] + b[9] * b[9] # 64
Mirror(s) == CASE s = "STRAIGHT_RIGHT" -> "STRAIGHT_LEFT" [] s = "STRAIGHT_LEFT" -> "STRAIGHT_RIGHT"
               [] s = "RIGHT_TURN" -> "LEFT_TURN" [] s = "LEFT_TURN" -> "RIGHT_TURN"
               [] s = "RIGHT_U_TURN" -> "LEFT_U_TURN" [] s = "LEFT_U_TURN" -> "RIGHT_U_TURN" [] OTHER -> s

Order8 == <<"STATIONARY", "STRAIGHT", "STRAIGHT_RIGHT", "STRAIGHT_LEFT", "RIGHT_TURN", "LEFT_TURN", "LEFT_U_TURN", "RIGHT_U_TURN">>
Weight(s) == CHOOSE i \in DOMAIN Order8 : Order8[i] = s
(* the shape bucket of a (joint) prediction: the heaviest of its agents' shapes *)
Bucket(cfg, sc, mm) ==
  LET ids == IF mm = <<>> THEN {} ELSE SeqToSet(Ids(mm[1]))
      sets == {Shapes(Cur(cfg), TrackOf(sc, id)) : id \in ids}
      seen == UNION sets
  IN IF seen = {} THEN "none"
     ELSE IF \E s \in sets : Cardinality(s) > 1 THEN "edge"
     ELSE LET top == Order8[Max({Weight(s) : s \in seen})]
          IN IF top = "RIGHT_U_TURN" THEN "RIGHT_TURN" ELSE top

(* ---- average precision -------------------------------------------------------------------------- *)
(* what one prediction adds to its bucket: samples <<confidence, true positive>>, most confident     *)
(* first; m: outcome of each considered prediction                                                   *)
Ranked(mm, m) == SortSeq(SelectSeq([i \in 1..Len(mm) |-> i], LAMBDA i : i \in DOMAIN m /\ m[i] # "none"),
                         LAMBDA a, b : mm[a].c > mm[b].c \/ (mm[a].c = mm[b].c /\ a < b))
Samples(mm, m, soft) ==
  LET r == Ranked(mm, m)
      first == IF \E k \in DOMAIN r : m[r[k]] = "in" THEN Min({k \in DOMAIN r : m[r[k]] = "in"}) ELSE 0
      keep == SelectSeq([k \in DOMAIN r |-> k], LAMBDA k : ~(soft /\ m[r[k]] = "in" /\ k # first))
  IN [k \in DOMAIN keep |-> <<mm[r[keep[k]]].c, keep[k] = first>>]
(* area under the interpolated precision/recall curve in ppm; false positives first on a tie         *)
Before(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ ~a[2] /\ b[2])
Area(s, total) ==
  LET r == SortSeq(s, Before)
      tp == [i \in DOMAIN r |-> Cardinality({k \in 1..i : r[k][2]})]
      best(n) == Max({(tp[i] * 1000000) \div i : i \in {i \in DOMAIN r : tp[i] >= n}})
  IN IF r = <<>> THEN 0 ELSE SumOver(1..tp[Len(r)], LAMBDA n : best(n)) \div total
=============================================================================
