-------------------------------- MODULE Runs --------------------------------
(* Runs of a submitted model over the frames of a data set, the results they leave, and what is     *)
(* gathered of them. Frames are [c, ts, ...]; sizes and scores are in thousandths.                  *)
EXTENDS VCommon
Key(f) == <<f.c, f.ts>>
(* results are kept by frame: those of a run take the place of what an earlier one left there *)
After(res, run) == [k \in DOMAIN res \cup {Key(run.frames[i]) : i \in DOMAIN run.frames} |->
  IF \E i \in DOMAIN run.frames : Key(run.frames[i]) = k
  THEN [objs |-> run.frames[CHOOSE i \in DOMAIN run.frames : Key(run.frames[i]) = k].objs, fields |-> run.fields, two |-> run.two]
  ELSE res[k]]
NoResults == [k \in {} |-> 0]
RECURSIVE AfterAll(_, _)
AfterAll(rs, n) == IF n = 0 THEN NoResults ELSE After(AfterAll(rs, n - 1), rs[n])
(* objects: [box, cls, score]; a box has 7 numbers (length, width and height from the 4th on) or 4 *)
Size(o) == IF Len(o.box) = 7 THEN {o.box[4], o.box[5], o.box[6]} ELSE {o.box[3], o.box[4]}
Counts(o) == o.score >= 30 /\ \A s \in Size(o) : s >= 10
Images == <<"FRONT_IMAGE", "FRONT_LEFT_IMAGE", "FRONT_RIGHT_IMAGE", "SIDE_LEFT_IMAGE", "SIDE_RIGHT_IMAGE">>
IsImage(f) == \E i \in DOMAIN Images : Images[i] = f
CameraOf(f) == CHOOSE i \in DOMAIN Images : Images[i] = f
(* detections in an image belong to one camera *)
Sound(r) == r.two /\ Len(r.objs) > 0 => Len(r.fields) = 1 /\ IsImage(r.fields[1])
Row(k, r, o) == <<k[1], k[2], o.box, o.cls, o.score, IF r.two THEN CameraOf(r.fields[1]) ELSE 0>>
(* how often a row is gathered *)
Times(res, row) == LET k == <<row[1], row[2]>> IN
  IF k \in DOMAIN res THEN Cardinality({i \in DOMAIN res[k].objs : Counts(res[k].objs[i]) /\ Row(k, res[k], res[k].objs[i]) = row}) ELSE 0
Rows(res) == UNION {{Row(k, res[k], res[k].objs[i]) : i \in {j \in DOMAIN res[k].objs : Counts(res[k].objs[j])}} : k \in DOMAIN res}
HowMany(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
=============================================================================
