----------------------------- MODULE TraceCameraSeg -----------------------------
(* Events. "read": labs, global, sequential, want; refused, div, out[n][i], tracked, cover (expected and  *)
(* got). "write": px, seq, want, refused, lab (a label, read back by itself). "pack": px, div, n; back.     *)
(* "color": map, px, got. "frames": fs, keep; got (positions), seq. "judge": truth, cover, tracked, div;   *)
(* lens, refused; seen (what the metric got: truth, weights in 1/1000), res.                                *)
EXTENDS CameraSeg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Read1(e) ==
  LET labs == TLCEval([n \in DOMAIN e.labs |-> e.labs[n]])
      d == e.div
      first == labs[1].div
      used == TLCEval({IdAt(labs, p) : p \in Mapped(labs)})
      own == TLCEval(Maxes({labs[p[1]].px[p[2]][2] : p \in (IF e.global THEN Pixels(labs) \ Mapped(labs) ELSE Pixels(labs))}))
      most == TLCEval(IF ~e.global THEN 0 ELSE IF e.sequential THEN Cardinality(Known(labs)) ELSE Room(labs))
      asked == IF e.want > 0 THEN e.want ELSE first
      mayRefuse == IF e.want > 0 THEN asked <= MaxI(own, most) ELSE own >= MaxI(first, IF Known(labs) = {} \/ ~e.global THEN 0 ELSE most + 1) IN
  IF e.refused THEN Chk(mayRefuse, "labels that fit are read")
  ELSE
    LET o == TLCEval(e.out)
        shape == Len(o) = Len(labs) /\ \A n \in DOMAIN o : Len(o[n]) = Len(labs[n].px) IN
    Chk(own < d, "a divisor that is too small is refused") \cup
    Chk(IF e.want > 0 THEN d = e.want ELSE IF ~e.global \/ Known(labs) = {} THEN d = first ELSE d = first \/ (d > first /\ first <= most /\ d <= most + 1), "divisor") \cup
    Chk(shape, "one value per pixel") \cup
    (IF ~shape THEN {} ELSE
     Chk(ClassesKept(labs, o, d), "classes are kept") \cup
     (IF e.global THEN
        Chk(Consistent(labs, o, d), "an instance has one id in its sequence and no other has it") \cup
        Chk(OthersKept(labs, o, d), "instances that are not mapped keep their ids") \cup
        Chk(e.sequential => Compact(labs, o, d), "sequential ids") \cup
        Chk(~e.sequential => GlobalKept(labs, o, d), "global ids")
      ELSE Chk(\A n \in DOMAIN labs : \A i \in DOMAIN labs[n].px : o[n][i] % d = labs[n].px[i][2], "local ids")) \cup
     Chk(\A n \in DOMAIN labs : e.tracked[n] = Tracked(labs, n, e.global), "tracked instances") \cup
     Chk(e.cover = e.covered, "camera coverage"))
Write1(e) ==
  LET ok == TLCEval(Writable(e.px, e.want)) IN
  Chk(e.refused = ~ok, "labels that fit in 16 bits are written, and no others") \cup
  (IF e.refused \/ ~ok THEN {} ELSE
   LET w == TLCEval(Written(e.px, e.seq, e.want)) IN
   Chk(e.lab.seq = w.seq /\ e.lab.div = w.div /\ e.lab.px = w.px, "label written") \cup
   Chk(MapOK(e.lab) /\ {<<e.lab.map[k].l, e.lab.map[k].g>> : k \in DOMAIN e.lab.map} = {<<w.map[k].l, w.map[k].g>> : k \in DOMAIN w.map}, "map written") \cup
   Chk([i \in DOMAIN e.px |-> Unpack(e.read[i], e.readdiv)] = e.px, "read back"))
Pack1(e) ==
  Chk(e.packed = [i \in DOMAIN e.px |-> Pack(e.px[i], e.div)], "packing") \cup
  Chk(e.back = [i \in DOMAIN e.packed |-> Unpack(e.packed[i], e.div)], "unpacking")
Color1(e) == Chk(e.got = [i \in DOMAIN e.px |-> Color(e.map, e.px[i])], "colors") \cup Chk(e.classes = [i \in DOMAIN e.px |-> e.map[e.px[i][1] + 1]], "colors of classes")
Frames1(e) ==
  LET a == TLCEval(TakeFrames(e.fs, 1, "", <<>>))
      w == IF Len(a) > e.keep THEN SubSeq(a, 1, e.keep) ELSE a IN
  Chk(e.got = w, "frames of the first sequence, so many") \cup
  Chk(e.seq = (IF a = <<>> THEN "none" ELSE e.fs[a[1]].seq), "sequence")
Judge1(e) ==
  LET same == e.lens[1] = e.lens[2] /\ e.lens[1] = e.lens[3] /\ e.lens[1] = e.lens[4] IN
  Chk(e.refused = ~same, "lists of different lengths are refused") \cup
  (IF e.refused \/ ~same THEN {} ELSE
   Chk(Len(e.seen) = Len(e.truth) /\ \A n \in DOMAIN e.truth :
         /\ e.seen[n].truth = [i \in DOMAIN e.truth[n] |-> IF e.tracked[n][i] = 0 THEN Crowd(e.truth[n][i], e.div) ELSE e.truth[n][i]]
         /\ e.seen[n].pred = e.pred[n] /\ e.seen[n].id = e.id, "untracked instances are crowds") \cup
   Chk(Len(e.seen) = Len(e.truth) /\ \A n \in DOMAIN e.truth : \A i \in DOMAIN e.truth[n] : e.cover[n][i] > 0 => Within(e.seen[n].weights[i] * e.cover[n][i], 1000, e.cover[n][i]), "pixels weigh the less the more cameras see them") \cup
   Chk(e.kept, "the labels are not changed") \cup
   Chk(e.config = e.wantconfig, "settings of the metric") \cup Chk(e.res = <<e.parts[1], e.parts[2], e.parts[3]>>, "results") \cup Chk(e.merged = <<1, 1>>, "all sequences are merged"))
Verdict(e) ==
  Chk(e.ended = "", "no other end: " \o e.ended) \cup
  (IF e.ended # "" THEN {} ELSE
   CASE e.t = "read" -> Read1(e) [] e.t = "write" -> Write1(e) [] e.t = "pack" -> Pack1(e) [] e.t = "color" -> Color1(e)
     [] e.t = "frames" -> Frames1(e) [] e.t = "judge" -> Judge1(e))
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
