--------------------------- MODULE TraceMetricsTools ---------------------------
(* Events: tool, P, G - the files; F - the frames that were evaluated with the library, in order of    *)
(* evaluation (tracking: S, scenes, as sequences of positions in F); lib - the figures this gave, one  *)
(* row of integers (10^-6) per result; rep - what the tool printed: n (frames announced, -1: nothing   *)
(* announced), names, rows; crash.                                                                     *)
EXTENDS MetricsTools, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Close(a, b) == AbsI(a - b) <= 3 + MaxI(AbsI(a), AbsI(b)) \div 100000
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : Close(a[i][j], b[i][j])
Evaluated(e) == SeqToSet(e.F) = Frames(e.tool, e.P, e.G) /\ Distinct(e.F) /\
   (e.tool = "trk" => FlattenSeq(e.S) = [i \in DOMAIN e.F |-> i] /\
        \A i \in DOMAIN e.S : [j \in DOMAIN e.S[i] |-> e.F[e.S[i][j]]] = SceneOf(e.tool, e.P, e.G, e.F[e.S[i][1]].k[1]))
Verdict(e) ==
  IF e.crash # "" THEN {"the tool scores every pair of files"}
  ELSE Chk(e.tool # "trk" => e.rep.n = Cardinality(Keys(e.tool, e.P, e.G)), "the number of frames found is reported") \cup
       Chk(e.rep.names = IF Keys(e.tool, e.P, e.G) = {} THEN <<>> ELSE Names(Settings(e.tool)), "one line per breakdown, by name") \cup
       Chk(SameRows(e.rep.rows, e.lib) \/ ~Evaluated(e), "every figure is that of the frames in the files") \cup
       Chk(Evaluated(e), "(harness) the frames evaluated are the specified ones")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
