---------------------------------- MODULE Rater ----------------------------------
(* Rater feedback scores. Positions are whole multiples of 1/32 m as <<x, y>>; speeds in 1/1000 m/s; *)
(* ratings in tenths; scores in 1/327680. A scene s: rated = sequence of [path, label]; freq, secs,  *)
(* slots; preds = sequence of paths; speed; lat, lng: threshold multipliers in tenths; decay: name.  *)
EXTENDS VCommon
Fix(path, n) == [i \in 1..n |-> path[MinI(i, Len(path))]]                       \* cut, or repeat the last waypoint
Slots(rated, k) == [i \in 1..k |-> rated[MinI(i, Len(rated))]]                  \* cut, or repeat the last trajectory
(* -- heading while driving a path from the origin: the last movement made, forward at first ------ *)
Move(h, a, b) == IF a = b THEN h ELSE <<b[1] - a[1], b[2] - a[2]>>
RECURSIVE HeadingAt(_, _)
HeadingAt(path, t) ==
  LET prev == IF t = 1 THEN <<0, 0>> ELSE path[t - 1]
  IN IF path[t] # prev THEN Move(<<>>, prev, path[t]) ELSE IF t = 1 THEN <<1, 0>> ELSE HeadingAt(path, t - 1)
RECURSIVE Root(_, _)
Root(n, r) == IF r * r >= n THEN r ELSE Root(n, r + 1)
Len2(d) == LET m == MaxI(AbsI(d[1]), AbsI(d[2])) IN Root(d[1] * d[1] + d[2] * d[2], m)      \* whole for the directions used
(* -- trust regions ------------------------------------------------------------------------------- *)
Speed32(sp) == MaxI(16, MinI(32, 16 + ((sp - 1400) \div 600)))                  \* scale by initial speed, in 1/32
Base(k) == <<10, 18>>[k]                                                        \* tenths of a metre, at 3 s and 5 s
AtStep(k, freq) == <<3, 5>>[k] * freq
Thresh(k, mult, sp) == Base(k) * mult * Speed32(sp)                             \* in 1/3200 m
(* distance over threshold along one axis, as <<num, den>> *)
Along(d, v) == AbsI(d[1] * v[1] + d[2] * v[2])
Across(d, v) == AbsI(d[1] * v[2] - d[2] * v[1])
Ratio(p, d, k, mult, sp) == <<p * 100, Len2(d) * Thresh(k, mult, sp)>>
Far(s, r, p, k) ==
  LET t == AtStep(k, s.freq)
      d == HeadingAt(r.path, t)
      v == <<p[t][1] - r.path[t][1], p[t][2] - r.path[t][2]>>
  IN [lng |-> Ratio(Along(d, v), d, k, s.lng, s.speed), lat |-> Ratio(Across(d, v), d, k, s.lat, s.speed)]
InOne(q) == q[1] <= q[2]
Inside(f) == InOne(f.lng) /\ InOne(f.lat)
(* -- decay: d^x in 1/32768 for x = num/den >= 0 --------------------------------------------------- *)
(* d^(1/64), d^(1/32), d^(1/16), d^(1/8), d^(1/4), d^(1/2), d *)
Table(decay) == CASE decay = "1/10" -> <<31610, 30493, 28376, 24573, 18427, 10362, 3277>>
                  [] decay = "1/2"  -> <<32415, 32066, 31379, 30048, 27554, 23170, 16384>>
                  [] decay = "4/5"  -> <<32654, 32540, 32314, 31867, 30990, 29309, 26214>>
                  [] decay = "1"    -> <<32768, 32768, 32768, 32768, 32768, 32768, 32768>>
Times(a, b) == (a * b + 16384) \div 32768
RECURSIVE Whole(_, _)
Whole(d, n) == IF n = 0 THEN 32768 ELSE IF n > 40 /\ d < 20000 THEN 0 ELSE IF n > 2000 THEN (IF d = 32768 THEN d ELSE 0)
               ELSE Times(d, Whole(d, n - 1))
Part(t, q) == FoldLeft(LAMBDA acc, b : IF (q \div (2 ^ (b - 1))) % 2 = 1 THEN Times(acc, t[b]) ELSE acc, 32768, <<1, 2, 3, 4, 5, 6>>)
Pow64(decay, w, q) == LET t == Table(decay) IN IF q = 64 THEN Times(Whole(t[7], w), t[7]) ELSE Times(Whole(t[7], w), Part(t, q))
Decay(decay, q) ==
  IF InOne(q) THEN 32768
  ELSE LET e == q[1] - q[2]  w == e \div q[2]  f == (e % q[2]) * 64
           i == f \div q[2]  g == q[2] \div 100000 + 1  r == (f % q[2]) \div g  n == MaxI(r, q[2] \div g)
           a == Pow64(decay, w, i)  b == Pow64(decay, w, i + 1)
       IN a - ((a - b) * r) \div n
(* -- scores --------------------------------------------------------------------------------------- *)
Rated(s) == LET rr == Slots(s.rated, s.slots) IN [i \in DOMAIN rr |-> [path |-> Fix(rr[i].path, s.freq * s.secs), label |-> rr[i].label]]
Pair(s, r, p, k) == LET f == Far(s, r, p, k) IN r.label * MinI(Decay(s.decay, f.lng), Decay(s.decay, f.lat))
BestAt(s, rr, p, k) == Max({Pair(s, rr[i], p, k) : i \in DOMAIN rr})
FullyInside(s, rr, p) == \E i \in DOMAIN rr : \A k \in {1, 2} : Inside(Far(s, rr[i], p, k))
Mean2(s, rr, p) == (BestAt(s, rr, p, 1) + BestAt(s, rr, p, 2)) \div 2
Lowest(s) == s.floor * 32768
Score(s, rr, p) == IF FullyInside(s, rr, p) THEN Mean2(s, rr, p) ELSE MaxI(Lowest(s), Mean2(s, rr, p))
(* probabilities are weights of a whole of s.total *)
Whole1(s, rr) == SumSeq([i \in DOMAIN s.preds |-> s.w[i] * Score(s, rr, s.preds[i])]) \div s.total
=============================================================================
