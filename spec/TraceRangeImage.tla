---------------------------- MODULE TraceRangeImage ----------------------------
(* Events. "cart": lasers (name, w, incls, q, ranges, feats, cps), top (pixel poses), veh; got: one        *)
(* entry per laser in the order returned: name, cart, pts (mm), cps. "build": q, kind, w, pts, num, feats; *)
(* image, idx, far. "codec": vals; back, ranks. "depth": q, pts, cps, cam, size, pool; got. "crop",        *)
(* "cloud": as "cart", got name, pts, feats.                                                                 *)
(* "incl", "pool". "parse": in and out as parsed. "info": pairs of what a frame says and its dictionary.   *)
EXTENDS RangeImage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Near3(g, v) == \A k \in 1..3 : Within(g[k], Rd(v[k], 10), 8)
H(x) == Len(x.incls)
PixelsOf(x) == [i \in 1..(H(x) * x.w) |-> <<((i - 1) \div x.w) + 1, ((i - 1) % x.w) + 1>>]
SpecPoint(e, x, r, c) ==
  LET k == RowIncl(x.incls, r) IN
  IF x.name = 1 /\ e.top # <<>> THEN PointMoved(x.q, c, x.w, k, x.ranges[r][c], e.top[r][c], e.veh)
  ELSE Point(x.q, c, x.w, k, x.ranges[r][c])
Drop3(s) == SubSeq(s, Len(s) - 2, Len(s))
Cart1(e) ==
  LET names == [k \in DOMAIN e.lasers |-> e.lasers[k].name]
      LaserOf(n) == e.lasers[CHOOSE k \in DOMAIN e.lasers : names[k] = n]
      same == {e.got[k].name : k \in DOMAIN e.got} = SeqToSet(names) /\ Len(e.got) = Len(names) IN
  Chk(same, "all lidars are converted") \cup
  (IF ~same THEN {} ELSE
   Chk(e.sorted => \A j, k \in DOMAIN e.got : j < k => e.got[j].name < e.got[k].name, "lidars in order") \cup
   UNION {LET x == TLCEval(LaserOf(e.got[k].name))
              g == TLCEval(e.got[k])
              shape == Len(g.cart) = H(x) /\ \A r \in DOMAIN g.cart : Len(g.cart[r]) = x.w
              there == TLCEval(SelectSeq(PixelsOf(x), LAMBDA p : x.ranges[p[1]][p[2]] > 0)) IN
          Chk(shape, "one point per pixel") \cup
          (IF ~shape THEN {} ELSE
           Chk(\A r \in 1..H(x) : \A c \in 1..x.w : Near3(Drop3(g.cart[r][c]), SpecPoint(e, x, r, c)), "points of pixels") \cup
           Chk(\A r \in 1..H(x) : \A c \in 1..x.w : LET v == g.cart[r][c] IN
                 IF e.keep THEN Len(v) = 6 /\ SubSeq(v, 1, 3) = <<x.ranges[r][c] * 1000, x.feats[r][c][1] * 1000, x.feats[r][c][2] * 1000>> ELSE Len(v) = 3, "features of pixels") \cup
           Chk(e.clouds => g.pts = [i \in DOMAIN there |-> g.cart[there[i][1]][there[i][2]]], "the cloud has the points of the pixels with a return") \cup
           Chk(e.withcps => g.cps = [i \in DOMAIN there |-> x.cps[there[i][1]][there[i][2]]], "projections go with their points"))
          : k \in DOMAIN e.got})
(* clouds of scenarios: only the points with a return, in the vehicle frame given, with their features *)
Cloud1(e) ==
  Chk([k \in DOMAIN e.got |-> e.got[k].name] = [k \in DOMAIN e.lasers |-> e.lasers[k].name], "clouds of all lidars") \cup
  (IF Len(e.got) # Len(e.lasers) THEN {} ELSE UNION {
     LET x == TLCEval(e.lasers[k])
         g == TLCEval(e.got[k])
         there == TLCEval(SelectSeq(PixelsOf(x), LAMBDA p : x.ranges[p[1]][p[2]] > 0)) IN
     Chk(Len(g.pts) = Len(there) /\ \A i \in DOMAIN there : Near3(g.pts[i], SpecPoint(e, x, there[i][1], there[i][2])), "points of the pixels with a return") \cup
     Chk(g.feats = [i \in DOMAIN there |-> LET r == there[i][1]
                                              c == there[i][2] IN <<x.ranges[r][c] * 1000, x.feats[r][c][1] * 1000, x.feats[r][c][2] * 1000>>], "features go with their points")
     : k \in DOMAIN e.got})
SensorPoint(e, n) == LET v == In(e.q, e.pts[n]) IN <<Rd(v[1], 10000), Rd(v[2], 10000), Rd(v[3], 10000)>>
Build1(e) ==
  LET P == TLCEval([n \in DOMAIN e.pts |-> SensorPoint(e, n)])
      D == TLCEval([n \in DOMAIN e.pts |-> ISqrt(Norm2(P[n]) * 1000000)])
      idx == e.idx
      shape == Len(idx) = Len(P) /\ Len(e.far) = Len(P) /\ Len(e.image) = e.h /\ \A r \in DOMAIN e.image : Len(e.image[r]) = e.w IN
  Chk(shape, "shape of the range image") \cup
  (IF ~shape THEN {} ELSE
   Chk(\A n \in DOMAIN P : idx[n][1] + 1 \in Rows(e.h, P[n]), "row of a point") \cup
   Chk(\A n \in DOMAIN P : idx[n][2] + 1 \in Columns(e.q, P[n], e.w), "column of a point") \cup
   Chk(\A n \in DOMAIN P : Within(e.far[n], D[n], 2), "range of a point") \cup
   Chk(\A r \in 1..e.h : \A c \in 1..e.w :
         LET S == {n \in DOMAIN P : n <= e.num /\ idx[n] = <<r - 1, c - 1>>}
             g == e.image[r][c] IN
         IF S = {} THEN (IF e.withfeats THEN g = <<0, 0, 0>> ELSE g = 0)
         ELSE LET m == Min({D[n] : n \in S}) IN
           IF ~e.withfeats THEN Within(g, m, 2)
           ELSE LET Nst == {n \in S : D[n] <= m + 13} IN
             /\ g[1] <= m + 2 /\ g[1] >= m - 8
             /\ g[2] \in {e.feats[n][1] : n \in Nst} /\ g[3] \in {e.feats[n][2] : n \in Nst}, "a pixel has its nearest point"))
Codec1(e) ==
  Chk(Len(e.back) = Len(e.vals) /\ \A n \in DOMAIN e.vals :
        /\ e.back[n][1] <= e.vals[n][1] + 1 /\ e.back[n][1] >= e.vals[n][1] - 7
        /\ e.back[n][2] = e.vals[n][2] /\ e.back[n][3] = e.vals[n][3], "features are read back") \cup
  Chk(\A j, k \in DOMAIN e.vals : e.vals[j][1] + 7 < e.vals[k][1] => \A f \in 1..3 : e.ranks[f][j] < e.ranks[f][k], "features are ordered as ranges")
(* the first of the two projections that is into the camera *)
Projected(cp, cam) == IF cp[1] = cam THEN <<cp[3], cp[2]>> ELSE IF cp[4] = cam THEN <<cp[6], cp[5]>> ELSE <<-1, -1>>
Depth1(e) ==
  LET N == DOMAIN e.pts
      D == TLCEval([n \in N |-> ISqrt(Norm2(SensorPoint(e, n)) * 1000000)])
      at == TLCEval([n \in N |-> Projected(e.cps[n], e.cam)])
      shape == Len(e.got) = e.size[1] /\ \A r \in DOMAIN e.got : Len(e.got[r]) = e.size[2] IN
  Chk(shape, "shape of the depth image") \cup
  (IF ~shape THEN {} ELSE
   Chk(\A r \in 1..e.size[1] : \A c \in 1..e.size[2] :
         LET S == {D[n] : n \in {k \in N : at[k] = <<r - 1, c - 1>>}} IN
         IF S = {} THEN e.got[r][c] = 0 ELSE Within(e.got[r][c], IF e.pool = "min" THEN Min(S) ELSE Max(S), 2), "depth"))
Crop1(e) ==
  LET n == e.new
      left == [b \in DOMAIN e.img |-> ((e.w - n) \div 2) + e.shift[b]]
      ok == n >= 1 /\ n < e.w /\ \A b \in DOMAIN left : left[b] >= 0 /\ left[b] + n <= e.w IN
  IF e.w = n THEN Chk(~e.refused /\ e.got = e.img, "nothing to crop")
  ELSE Chk(e.refused = ~ok, "only windows in the image") \cup
       (IF e.refused \/ ~ok THEN {} ELSE Chk(e.got = [b \in DOMAIN e.img |-> [r \in DOMAIN e.img[b] |-> SubSeq(e.img[b][r], left[b] + 1, left[b] + n)]], "the window"))
Incl1(e) == Chk(Len(e.got) = e.h /\ \A i \in DOMAIN e.got : Within(e.got[i], e.lo + Rd((2 * i - 1) * (e.hi - e.lo), 2 * e.h), 2), "uniform inclinations")
Pool1(e) ==
  Chk(\A r \in 1..e.h : \A c \in 1..e.w : \A k \in 1..e.deep :
        LET S == {e.vals[n][k] : n \in {m \in DOMAIN e.idx : e.idx[m] = <<r - 1, c - 1>>}} IN
        e.got[r][c][k] = (IF S = {} THEN 0 ELSE IF e.pool = "min" THEN Min(S) ELSE Max(S)), "pooled values")
Pairs(e) == UNION {Chk(e.pairs[k][2] = e.pairs[k][3], e.pairs[k][1]) : k \in DOMAIN e.pairs}
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE
   CASE e.t = "cart" -> Cart1(e) [] e.t = "cloud" -> Cloud1(e) [] e.t = "build" -> Build1(e) [] e.t = "codec" -> Codec1(e) [] e.t = "depth" -> Depth1(e)
     [] e.t = "crop" -> Crop1(e) [] e.t = "incl" -> Incl1(e) [] e.t = "pool" -> Pool1(e) [] e.t = "pairs" -> Pairs(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
