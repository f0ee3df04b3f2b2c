------------------------------ MODULE SimSubmission ------------------------------
(* Simulated scenes. A scenario has tracks [id, now] (now: valid at the current step), sdc (index    *)
(* from 0), ttp (indices). A scene is a sequence of trajectories [id, len] with len the lengths of    *)
(* center_x, center_y, center_z and heading. A rollout set r: [named, scenes].                       *)
EXTENDS VCommon
Steps(ch) == IF ch = "sim_agents" THEN 80 ELSE 91
Rollouts == 32
CurrentStep == 10
Ids(tracks) == [i \in DOMAIN tracks |-> tracks[i].id]
Agents(tracks) == LET t == SelectSeq(tracks, LAMBDA x : x.now) IN Ids(t)
Whole(t, ch) == t.len = [i \in 1..4 |-> Steps(ch)]
SceneOk(tracks, scene, ch) == (\A i \in DOMAIN scene : Whole(scene[i], ch)) /\ SameBag(Ids(scene), Agents(tracks))
SetOk(tracks, r, ch) == r.named /\ Len(r.scenes) = Rollouts /\ \A i \in DOMAIN r.scenes : SceneOk(tracks, r.scenes[i], ch)
Evaluated(sc, ch) == IF ch = "sim_agents" THEN {sc.tracks[sc.sdc + 1].id} \cup {sc.tracks[sc.ttp[i] + 1].id : i \in DOMAIN sc.ttp}
                     ELSE SeqToSet(Agents(sc.tracks))
=============================================================================
