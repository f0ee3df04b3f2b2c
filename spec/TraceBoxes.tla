----------------------------- MODULE TraceBoxes -----------------------------
(* Events. "inside": box list bs, points ps, got rows of booleans, count (<<>> if not asked).      *)
(* "corners": bs, got (tenths of the unit). "cross": f, to, ps, got points, bs, boxes got [c, s, w]  *)
(* (points in 25ths, headings as <<cos, sin>> * 1000). "rpy": r, p, y, got (1/1000).                *)
(* "ray": o, d, s, hit, tin, tout (1/1000). "frame": f, ps, pts, dirs (fifths). "boxed": b, ps, pts,*)
(* dirs (fifths), back. "pairs": [name, want, got].                                                 *)
EXTENDS Boxes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Set(s) == {s[i] : i \in DOMAIN s}
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Within(a[i], b[i], tol)
(* exact when a box is not turned *)
Slack(b) == IF b.exact THEN 0 ELSE 1
InsideV(e) == UNION {UNION {
    Chk(Within3(e.bs[j], e.ps[i], -Slack(e.bs[j])) => e.got[i][j], "points in a box") \cup
    Chk(e.got[i][j] => Inside(e.bs[j], e.ps[i]), "points outside a box") : j \in DOMAIN e.bs} : i \in DOMAIN e.ps}
  \cup UNION {Chk(e.count[j] = Cardinality({i \in DOMAIN e.ps : e.got[i][j]}), "number of points in a box") : j \in DOMAIN e.count}
Corners(e) == Chk(Len(e.got) = Len(e.bs) /\ \A j \in DOMAIN e.bs : Len(e.got[j]) = 8 /\ \A k \in 1 .. 8 : Near(e.got[j][k], Corner(e.bs[j], k), 1), "corners of a box, in order")
To25(e, p) == Times(25 \div (e.f.d * e.to.d), Across(e.f, e.to, p))
Parallel(w, g) == LET n == AbsI(w[1]) + AbsI(w[2]) IN
  w[1] * g[1] + w[2] * g[2] > 0 /\ AbsI(w[1] * g[2] - w[2] * g[1]) <= 5 * n /\ Within(g[1] * g[1] + g[2] * g[2], 1000000, 5000)
Cross(e) ==
  LET turn == TLCEval(AcrossTurn(e.f, e.to)) IN
  Chk(Len(e.got) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.got[i], To25(e, e.ps[i]), 2), "points in another frame") \cup
  Chk(Len(e.boxes) = Len(e.bs), "as many boxes in another frame") \cup
  (IF Len(e.boxes) # Len(e.bs) THEN {} ELSE UNION {
     Chk(Near(e.boxes[j].c, To25(e, e.bs[j].c), 2), "centres in another frame") \cup
     Chk(e.boxes[j].s = e.bs[j].s, "a box keeps its size") \cup
     Chk(turn = <<0, 0>> \/ Parallel(TurnBy(e.bs[j].h, turn), e.boxes[j].w), "headings in another frame") : j \in DOMAIN e.bs})
Rpy(e) == Chk(Len(e.got) = 9 /\ LET m == RollPitchYaw(e.r, e.p, e.y) IN \A i \in 1 .. 3 : \A j \in 1 .. 3 : Within(e.got[3 * (i - 1) + j], 8 * m[i][j], 1), "roll, then pitch, then yaw")
IsAt(x, f) == AbsI(x * f[2] - 1000 * f[1]) <= 3 * f[2] + (IF AbsI(f[1]) > 100 * f[2] THEN AbsI(f[1]) \div 50 ELSE 0)
Ray(e) ==
  LET hit == TLCEval(Hits(e.o, e.d, e.s)) IN
  IF Grazes(e.o, e.d, e.s) THEN {}
  ELSE Chk(e.hit = hit, "rays that hit a box") \cup
       (IF hit THEN Chk(IsAt(e.tin, Enter(e.o, e.d, e.s)), "where a ray enters") \cup Chk(IsAt(e.tout, Leave(e.o, e.d, e.s)), "where a ray leaves")
        ELSE Chk(e.tin < 0 /\ e.tout < 0, "no distance to a box that is not hit"))
Framed(e) ==
  Chk(Len(e.pts) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.pts[i], Times(5 \div e.f.d, Out(e.f, e.ps[i])), 1), "points out of a frame") \cup
  Chk(Len(e.dirs) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.dirs[i], Times(5 \div e.f.d, App(e.f.r, e.ps[i])), 1), "directions out of a frame")
Boxed(e) ==
  LET o == [e.b EXCEPT !.c = <<0, 0, 0>>] IN
  Chk(Len(e.pts) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.pts[i], Local(e.b, e.ps[i]), 1), "points in the frame of a box") \cup
  Chk(Len(e.dirs) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.dirs[i], Local(o, e.ps[i]), 1), "directions in the frame of a box") \cup
  Chk(Len(e.back) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.back[i], World(e.b, e.ps[i]), 1), "points out of the frame of a box") \cup
  Chk(Len(e.turned) = Len(e.ps) /\ \A i \in DOMAIN e.ps : Near(e.turned[i], World(o, e.ps[i]), 1), "points turned counter-clockwise")
Verdict(e) ==
  IF e.ended # "" THEN {"no other end: " \o e.ended}
  ELSE CASE e.t = "inside" -> InsideV(e) [] e.t = "corners" -> Corners(e) [] e.t = "cross" -> Cross(e)
         [] e.t = "rpy" -> Rpy(e) [] e.t = "ray" -> Ray(e) [] e.t = "frame" -> Framed(e) [] e.t = "boxed" -> Boxed(e)
         [] e.t = "pairs" -> UNION {Chk(p[2] = p[3], p[1]) : p \in Set(e.pairs)}
         [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
