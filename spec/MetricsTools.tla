----------------------------- MODULE MetricsTools -----------------------------
(* The command line metrics tools: files of predictions and of ground truths become frames (or, for    *)
(* tracking, scenes of frames), which are scored against themselves.                                    *)
(* An object of a file: ctx, cam, ts say when and where it was seen; for ground truths pts and top are  *)
(* the lidar points in it (of all lidars, of the top lidar), dd its annotated difficulty (0: none), mv  *)
(* the camera that sees it best ("": none).                                                             *)
EXTENDS Breakdown
Tools == {"det", "let", "trk"}
Counted(tool, o) == CASE tool = "det" -> o.pts > 0
                      [] tool = "let" -> o.top > 0 /\ o.mv # ""
                      [] OTHER -> TRUE
Level(tool, o) == CASE tool = "trk" -> o.dd
                    [] o.dd # 0 -> o.dd
                    [] OTHER -> IF (IF tool = "det" THEN o.pts ELSE o.top) <= 5 THEN 2 ELSE 1
(* what a frame is; the tracking tool is for one view of a scene and does not tell cameras apart *)
Key(tool, o) == IF tool = "trk" THEN <<o.ctx, o.ts>> ELSE <<o.ctx, o.cam, o.ts>>
Mine(tool, objs, k, gt) == SelectSeq([i \in DOMAIN objs |-> i], LAMBDA i : Key(tool, objs[i]) = k /\ (gt => Counted(tool, objs[i])))
Keys(tool, P, G) == {Key(tool, P[i]) : i \in DOMAIN P} \cup {Key(tool, G[i]) : i \in {j \in DOMAIN G : Counted(tool, G[j])}}
Frame(tool, P, G, k) == [k |-> k, p |-> Mine(tool, P, k, FALSE), g |-> Mine(tool, G, k, TRUE),
                         lv |-> LET g == Mine(tool, G, k, TRUE) IN [i \in DOMAIN g |-> Level(tool, G[g[i]])]]
Frames(tool, P, G) == {Frame(tool, P, G, k) : k \in Keys(tool, P, G)}
(* scenes are told apart by context, and their frames are in order of time *)
SceneOf(tool, P, G, c) == SetToSortSeq({f \in Frames(tool, P, G) : f.k[1] = c}, LAMBDA a, b : Last(a.k) < Last(b.k))
(* what is evaluated *)
Settings(tool) == IF tool = "let" THEN [gens |-> <<OBJECT_TYPE, RANGE, CAMERA>>, lv |-> << <<2>>, <<2>>, <<2>> >>]
                  ELSE [gens |-> <<OBJECT_TYPE, RANGE>>, lv |-> << <<1, 2>>, <<1, 2>> >>]
=============================================================================
