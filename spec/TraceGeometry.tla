------------------------------ MODULE TraceGeometry ------------------------------
(* "iou": one pair of boxes, evaluated by the code in several placements (the pair moved and        *)
(* turned together, boxes described by another corner); "poly": convex polygons; "seg": segments.  *)
EXTENDS Geometry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
IouV(e) ==
  LET want == IoU(e.kind, e.a, e.b)
      odd == Degenerate(e.a) \/ Degenerate(e.b)
  IN Chk(\A i \in DOMAIN e.ab : Within(e.ab[i], want, 20), "overlap is intersection over union, wherever the pair is placed") \cup
     Chk(\A i \in DOMAIN e.ba : Within(e.ba[i], want, 20), "overlap is symmetric") \cup
     Chk(\A i \in DOMAIN e.ab : e.ab[i] \in 0..1000000 /\ e.ba[i] \in 0..1000000, "overlap is between zero and one") \cup
     Chk((~odd /\ SameShape(e.kind, e.a, e.b)) => \A i \in DOMAIN e.ab : e.ab[i] >= 999999, "equal boxes overlap fully") \cup
     Chk((odd \/ Disjoint(e.kind, e.a, e.b)) => \A i \in DOMAIN e.ab : e.ab[i] <= 1, "disjoint or touching boxes do not overlap") \cup
     Chk(e.batch = e.each, "the batched call agrees")
PolyV(e) ==
  LET i == IF Separated(e.p, e.q) THEN 0 ELSE Inter2(e.p, e.q)
  IN Chk(\A k \in DOMAIN e.pq : Within(e.pq[k], i, 20 + i \div 50000), "intersection area") \cup
     Chk(\A k \in DOMAIN e.qp : Within(e.qp[k], i, 20 + i \div 50000), "intersection area is symmetric") \cup
     Chk(\A k \in DOMAIN e.ap : Within(e.ap[k], Twice(e.p) * 10000, 20 + Twice(e.p) \div 5), "area") \cup
     Chk(\A k \in DOMAIN e.maybe : i > 40 => e.maybe[k] = 1, "polygons that meet are not ruled out") \cup
     Chk(\A k \in DOMAIN e.pts : e.inside[k] = (IF InsideClosed(e.p, e.pts[k]) THEN 1 ELSE 0), "points inside")
SegV(e) ==
  LET d == Sub2(e.b, e.a)  f == Sub2(e.d, e.c)
      det == Cross2(d, f)
      t == Cross2(Sub2(e.c, e.a), f)  u == Cross2(Sub2(e.c, e.a), d)
      on(x, s, v) == Cross2(v, Sub2(x, s)) = 0 /\ Dot2(v, Sub2(x, s)) \in 0..Dot2(v, v)
      hit == IF det # 0
             THEN (IF det > 0 THEN t \in 0..det /\ u \in 0..det ELSE -t \in 0..(-det) /\ -u \in 0..(-det))
             ELSE on(e.a, e.c, f) \/ on(e.b, e.c, f) \/ on(e.c, e.a, d) \/ on(e.d, e.a, d)
      (* the point lies on both segments: 1/1000 units *)
      near(x, s, v) == LET w == <<x[1] - 1000 * s[1], x[2] - 1000 * s[2]>>
                       IN AbsI(Cross2(v, w)) <= 2 * (AbsI(v[1]) + AbsI(v[2])) + 2
                          /\ Dot2(v, w) >= -(2 * (AbsI(v[1]) + AbsI(v[2])) + 2)
                          /\ Dot2(v, w) <= 1000 * Dot2(v, v) + 2 * (AbsI(v[1]) + AbsI(v[2])) + 2
  IN Chk(e.hit = hit, "segments meet") \cup
     Chk((hit /\ e.hit) => near(<<e.x, e.y>>, e.a, d) /\ near(<<e.x, e.y>>, e.c, f), "meeting point lies on both")
Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE CASE e.ev = "iou" -> IouV(e) [] e.ev = "poly" -> PolyV(e) [] e.ev = "seg" -> SegV(e)
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
