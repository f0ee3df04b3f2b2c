---------------------------- MODULE TraceDeltaCoder ------------------------------
(* Events: comp - one compression: x (input in 1/64 quanta, row-major), the written runs and          *)
(* residuals, out (decompressed, in quanta); read - a stream written by the specification; big -      *)
(* values beyond 32 bits compared as text; long - images as stretches; bad - arguments that must be rejected.                     *)
EXTENDS DeltaCoder, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) ==
  CASE e.k = "bad" -> Chk(e.exc = "ValueError", "invalid precision or size is rejected")
    [] e.exc # "" -> {"accepted"}
    [] e.k = "comp" ->
         LET n == e.h * e.w * e.c IN
         Chk(e.same, "the array given is left as it was") \cup
         Chk(e.outshape = <<e.h, e.w, e.c>> /\ e.meta = <<e.h, e.w, e.c>>, "same shape") \cup
         Chk(e.exact, "decoded values are whole numbers of quanta") \cup
         (IF Len(e.out) # n THEN {"same number of pixels"}
          ELSE Chk(\A i \in 1..n : NearestTo(e.out[i], e.x[i]), "values rounded to the nearest quantum") \cup
               Chk(\A i \in 1..n : e.x[i] = 0 => e.out[i] = 0, "zero stays zero") \cup
               (IF ~Readable(e.runs, e.res, n) THEN {"runs cover the image and residuals its non-zero pixels"}
                ELSE Chk(Decode(e.runs, e.res) = ToChannels(e.out, e.h, e.w, e.c), "the stream means the image")))
    [] e.k = "read" ->
         Chk(e.outshape = <<e.h, e.w, e.c>>, "same shape") \cup
         Chk(e.exact, "decoded values are whole numbers of quanta") \cup
         Chk(ToChannels(e.out, e.h, e.w, e.c) = Decode(e.runs, e.res), "a well-formed stream is read as its image")
    [] e.k = "big" ->
         Chk(e.same, "the array given is left as it was") \cup
         Chk(e.out = e.x, "large values survive")
    [] e.k = "long" ->
         LET w == EncodeLong(Stretch(e.x)) IN
         Chk(e.same, "the array given is left as it was") \cup
         Chk(Stretch(e.out) = Stretch(e.x), "long images survive") \cup
         Chk(Stretch(e.res) = Stretch(w.res) /\ e.runs = w.runs, "the stream means the image")
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
