----------------------------- MODULE TraceRuns -----------------------------
(* An event is a history of runs over one results folder, followed by gathering:                    *)
(* runs [frames [c, ts, dur, inp (field -> number), objs], fields, two, calls (the model's, in       *)
(* order: [dur, args (field -> number)]), inits, early, lat (thousandths), ended]; got, err.         *)
EXTENDS Runs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Asked(f, fields) == [i \in DOMAIN fields |-> f.inp[fields[i]]]
RunBad(r) ==
  LET want == [i \in DOMAIN r.frames |-> Asked(r.frames[i], r.fields)]
      given == [i \in DOMAIN r.calls |-> r.calls[i].args] IN
  IF r.ended # "" THEN {"no other end of a run: " \o r.ended}
  ELSE Chk(r.inits = 1 /\ r.early = 0, "a model is initialised once, before all frames")
       \cup Chk(Len(given) = Len(want) /\ \A i \in DOMAIN want : HowMany(given, want[i]) = HowMany(want, want[i]), "a model gets what it asks for, once for each frame")
       \cup Chk(\A i \in DOMAIN r.calls : r.calls[i].names = Len(r.fields), "and nothing else")
       \cup Chk(r.lat = [i \in DOMAIN r.calls |-> r.calls[i].dur], "the time of the model alone, for each frame")
Verdict(e) ==
  IF e.ended # "" THEN {"no other end: " \o e.ended}
  ELSE LET res == AfterAll(e.runs, Len(e.runs)) IN
    UNION {RunBad(e.runs[i]) : i \in DOMAIN e.runs}
    \cup IF \E k \in DOMAIN res : ~Sound(res[k]) THEN Chk(e.err = "ValueError", "detections in images need one image")
         ELSE Chk(e.err = "", "results are gathered: " \o e.err)
              \cup Chk(\A row \in Rows(res) : HowMany(e.got, row) = Times(res, row), "all valid objects of the last runs over all frames")
              \cup Chk(\A i \in DOMAIN e.got : Times(res, e.got[i]) > 0, "nothing else is gathered")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
