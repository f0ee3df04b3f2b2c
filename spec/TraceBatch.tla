-------------------------------- MODULE TraceBatch --------------------------------
(* Events: parse - rows, opts and the groups the parser returned; det/track - keys of the rows, the    *)
(* frames the library was given, what the op (op) and the library (lib) returned; state - the state op,  *)
(* the library's counts, the states of two parts, the result op on the state; match - batches of boxes;   *)
(* scen - one motion batch and the parsed scenarios; motion - the op's outputs and the library's bundles. *)
EXTENDS Batch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Key(k) == <<k[1], k[2]>>
KeysOf(ks) == [i \in DOMAIN ks |-> Key(ks[i])]
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : AbsI(a[i] - b[i]) <= 2
SameOut(op, lib, names) == UNION {Chk(op[o].dims = lib[o].dims /\ Near(op[o].v, lib[o].v), names[o]) : o \in DOMAIN names}
DetNames == <<"average precision", "average precision, heading", "average precision, longitudinal", "precision, recall and counts",
              "precision and recall, heading", "precision and recall, longitudinal", "breakdowns">>
TrackNames == <<"mota", "motp", "misses", "mismatches", "false positives", "score cutoff", "breakdowns">>
Matched(e) == UNION {LET b == e.batches[i] IN {<<Flat(i, e.np, b.sub[1][b.pd[j] + 1]), Flat(i, e.ng, b.sub[2][b.gt[j] + 1])>> : j \in DOMAIN b.pd} : i \in DOMAIN e.batches}
Values(e) == FlattenSeq([i \in DOMAIN e.batches |-> LET b == e.batches[i] IN [j \in DOMAIN b.pd |-> <<Flat(i, e.np, b.sub[1][b.pd[j] + 1]), b.iou[j], b.la[j]>>]])
ParseOk(e) == Chk(Grouped(e.rows, SeqToSet(e.opts), e.groups), "rows are grouped by frame, in order, with their fields")
DetOk(e) == Chk(FramesOk(KeysOf(e.pk), KeysOf(e.gk), e.frames), "CHECK: frames of the comparison") \cup
            (IF e.error # "" THEN {"the operation answers"} ELSE SameOut(e.op, e.lib, DetNames))
TrackOk(e) == Chk(FramesOk(KeysOf(e.pk), KeysOf(e.gk), e.frames) /\ InTime(e.frames) /\ Together(e.frames), "CHECK: frames of the comparison") \cup
              (IF e.error # "" THEN {"the operation answers"} ELSE SameOut(e.op, e.lib, TrackNames))
StateOk(e) == IF e.error # "" THEN {"the operation answers"}
              ELSE Chk(e.state.dims = e.lib.dims /\ Near(e.state.v, e.lib.v), "state holds the counts") \cup
                   Chk(Len(e.a.v) = Len(e.state.v) /\ Len(e.b.v) = Len(e.state.v) /\ \A i \in DOMAIN e.state.v : AbsI(e.a.v[i] + e.b.v[i] - e.state.v[i]) <= 3,
                       "states of parts add up") \cup
                   SameOut(e.result, e.op, DetNames)
MatchOk(e) == IF ~e.sane THEN Chk(e.error # "", "unfitting boxes are refused")
              ELSE IF e.error # "" THEN {"the operation answers"}
              ELSE Chk(\A i \in DOMAIN e.batches : e.batches[i].sub = <<Real(e.batches[i].p), Real(e.batches[i].g)>>, "CHECK: boxes of the comparison") \cup
                   Chk(Len(e.opd) = Cardinality(Matched(e)) /\ Len(e.ogt) = Len(e.opd) /\ {<<e.opd[j], e.ogt[j]>> : j \in DOMAIN e.opd} = Matched(e), "pairs of every batch, numbered through") \cup
                   Chk(Len(e.oiou) = Len(e.opd) /\ Len(e.ola) = Len(e.opd) /\
                       \A v \in SeqToSet(Values(e)) : \E j \in DOMAIN e.opd : e.opd[j] = v[1] /\ AbsI(e.oiou[j] - v[2]) <= 2 /\ AbsI(e.ola[j] - v[3]) <= 2, "overlap and affinity of the pairs")
ScenOk(e) == IF ~Sane(e.x) \/ ~Covered(e.x) THEN Chk(e.crash, "agents without a state cannot be predicted")
             ELSE IF e.crash THEN {"the operation answers"}
             ELSE Chk(e.tracks = Tracks(e.x), "agents with a state become tracks") \cup
                  Chk(e.required = Required(e.x), "agents asked for are required") \cup
                  Chk(e.interest = OfInterest(e.x), "agents asked for are of interest") \cup
                  Chk(e.preds = Predictions(e.x), "predictions belong to their agents")
MotionOk(e) == IF e.error # "" THEN {"the operation answers"}
               ELSE UNION {Chk(Near(e.op[o].v, MotionOut(e.bundles, e.steps, o)), "motion output " \o ToString(o)) : o \in 1..5}
Verdict(e) ==
  CASE e.k = "parse" -> ParseOk(e)
    [] e.k = "det" -> DetOk(e)
    [] e.k = "track" -> TrackOk(e)
    [] e.k = "state" -> StateOk(e)
    [] e.k = "match" -> MatchOk(e)
    [] e.k = "scen" -> ScenOk(e)
    [] e.k = "motion" -> MotionOk(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
