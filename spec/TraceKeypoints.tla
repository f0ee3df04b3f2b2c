---------------------------- MODULE TraceKeypoints ----------------------------
(* Events. "measure": os objects [gt, pr, box, scale, w], pen; got mpjpe, pem, prec, rec. "combined": os, ts *)
(* scales of all types, subsets [types, pck << <<th, got>> >>, oks << <<th, got>> >>, ap, mpjpe].              *)
(* "oks": os, ts, got. "shift": box, p, got (1/1000 m). "match": gs, ps, far, got pairs. "lined": ng, np, vg,  *)
(* vp, m, got. "tensors": poses [ks, box], order, def, got. "group": laser [id, tag], cam [of, cam, tag].    *)
(* "pairs": [name, want, got].                                                                     *)
EXTENDS Keypoints, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Set(s) == {s[i] : i \in DOMAIN s}
Measure(e) ==
  LET os == TLCEval(e.os) IN
  Chk(Within(e.mpjpe, Mpjpe(os), 3), "mean distance of points in both") \cup
  Chk(Within(e.pem, Pem(os, e.pen), 3), "pose error, with its penalty") \cup
  Chk(e.prec < 0 \/ Within(e.prec, Precision(os), 3), "precision of what is seen") \cup
  Chk(e.rec < 0 \/ Within(e.rec, Recall(os), 3), "recall of what is seen")
Sub(os, types) == [i \in DOMAIN os |-> [os[i] EXCEPT !.gt = [k \in DOMAIN types |-> os[i].gt[types[k]]], !.pr = [k \in DOMAIN types |-> os[i].pr[types[k]]]]]
Combined(e) == UNION {
  LET s == e.subsets[n]
      ts == TLCEval([k \in DOMAIN s.types |-> e.ts[s.types[k]]])
      os == TLCEval(Sub(e.os, s.types)) IN
  Chk(Within(s.mpjpe, Mpjpe(os), 3), "mean distance of points of some types") \cup
  UNION {Chk(PckAt(os, c[1], ts, 2) - 3 <= c[2] /\ c[2] <= PckAt(os, c[1], ts, -2) + 3, "share of points within a distance") : c \in Set(s.pck)} \cup
  UNION {Chk(ApAt(os, ts, c[1], OksSlack) - 3 <= c[2] /\ c[2] <= ApAt(os, ts, c[1], -OksSlack) + 3, "share of objects alike enough") : c \in Set(s.oks)} \cup
  Chk(s.ap < 0 \/ Within(s.ap, SumOver(DOMAIN s.oks, LAMBDA i : s.oks[i][2]) \div Len(s.oks), 3), "and their mean over the thresholds")
  : n \in DOMAIN e.subsets}
Oks1(e) == Chk(Len(e.got) = Len(e.os) /\ \A i \in DOMAIN e.os : Within(e.got[i], Oks(e.os[i], e.ts), OksSlack), "how alike poses are")
Shift(e) ==
  LET b == e.box
      q == Turned(b, e.p)
      t == [i \in DOMAIN q |-> LET h == 5 * b.s[i] IN (IF 2 * q[i] > h THEN h - 2 * q[i] ELSE IF 2 * q[i] < -h THEN -h - 2 * q[i] ELSE 0)]   \* 1/1000 m
      back == <<b.h[1] * t[1] + b.h[2] * t[2], b.h[1] * t[2] - b.h[2] * t[1]>> IN
  Chk(Len(e.got) = Len(e.p) /\ (\A i \in {1, 2} : Within(5 * e.got[i], back[i], 6)) /\ (Len(e.p) = 3 => Within(e.got[3], t[3], 2)), "the least move into a box")
Match(e) ==
  LET gs == TLCEval(e.gs)
      ps == TLCEval(e.ps)
      m == Set(e.got) IN
  IF AtLimit(gs, ps, e.far) THEN {} ELSE Chk(Len(e.got) = Cardinality(m) /\ GoodMatch(gs, ps, e.far, m), "objects and their predictions")
Lined1(e) ==
  LET want == Lined(Set(e.vg), Set(e.vp), Set(e.m)) IN
  Chk(Len(e.got) = Cardinality(Set(e.got)) /\ Set(e.got) = want, "matched, missed and wrong objects in line")
(* points of a pose (the last of a type) in the order of types; missing ones at the default place *)
LastOf(ks, t) == Max({i \in DOMAIN ks : ks[i].type = t})
Tensors(e) ==
  Chk(Len(e.got) = Len(e.poses), "a row for every pose with points") \cup
  (IF Len(e.got) # Len(e.poses) THEN {} ELSE UNION {
    LET ks == e.poses[i].ks
        want == [n \in DOMAIN e.order |-> IF \E k \in DOMAIN ks : ks[k].type = e.order[n] THEN [p |-> ks[LastOf(ks, e.order[n])].p, v |-> IF ks[LastOf(ks, e.order[n])].hid THEN 1 ELSE 2]
                                          ELSE [p |-> e.def, v |-> 0]] IN
    Chk(e.got[i].k = want, "points in their order, and how they are seen") \cup
    Chk(e.got[i].seen = (\E n \in DOMAIN want : want[n].v = 2), "poses with something to be seen") \cup
    Chk(e.got[i].box = e.poses[i].box, "boxes of poses") : i \in DOMAIN e.poses})
(* labels of lasers with those of cameras that belong to them: the last of an id, and of a camera *)
LastId(s, P(_)) == s[Max({i \in DOMAIN s : P(s[i])})].tag
Grouped(e) ==
  LET ids == {e.laser[i].id : i \in DOMAIN e.laser}
      cams(x) == {e.cam[i].cam : i \in {n \in DOMAIN e.cam : e.cam[n].of = x}} IN
  Chk(Set(e.got) = {[id |-> x, tag |-> LastId(e.laser, LAMBDA r : r.id = x), cams |-> {<<c, LastId(e.cam, LAMBDA r : r.cam = c /\ r.of = x)>> : c \in cams(x)}] : x \in ids}
      , "labels of an object in all sensors")
Verdict(e) ==
  IF e.ended # "" THEN {"no other end: " \o e.ended}
  ELSE CASE e.t = "measure" -> Measure(e) [] e.t = "combined" -> Combined(e) [] e.t = "oks" -> Oks1(e)
         [] e.t = "shift" -> Shift(e) [] e.t = "match" -> Match(e) [] e.t = "lined" -> Lined1(e)
         [] e.t = "tensors" -> Tensors(e)
         [] e.t = "group" -> Grouped([e EXCEPT !.got = [i \in DOMAIN e.got |-> [e.got[i] EXCEPT !.cams = Set(@)]]])
         [] e.t = "pairs" -> UNION {Chk(p[2] = p[3], p[1]) : p \in Set(e.pairs)}
         [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
