----------------------------- MODULE MC_SimSubmission ----------------------------
(* A scene filled trajectory by trajectory; seen and wrong are what an incremental validator keeps.   *)
EXTENDS SimSubmission, Json
CONSTANTS MaxTraj, Lens, Emit
VARIABLES scene, seen, wrong
vars == <<scene, seen, wrong>>
Tracks == <<[id |-> 5, now |-> TRUE], [id |-> 3, now |-> FALSE], [id |-> 0, now |-> TRUE], [id |-> 9, now |-> TRUE]>>
Ch == "sim_agents"
Good == <<80, 80, 80, 80>>
LenOf == [good |-> Good, x |-> <<79, 80, 80, 80>>, y |-> <<80, 81, 80, 80>>, z |-> <<80, 80, 0, 80>>, h |-> <<80, 80, 80, 91>>, other |-> <<91, 91, 91, 91>>]
Init == scene = <<>> /\ seen = {} /\ wrong = FALSE
Add(id, l) == /\ scene' = Append(scene, [id |-> id, len |-> LenOf[l]])
              /\ seen' = seen \cup {id}
              /\ wrong' = (wrong \/ LenOf[l] # Good \/ id \in seen \/ id \notin SeqToSet(Agents(Tracks)))
Next == Len(scene) < MaxTraj /\ \E id \in {5, 3, 0, 9, 7} : \E l \in Lens : Add(id, l)
Spec == Init /\ [][Next]_vars
Incremental == SceneOk(Tracks, scene, Ch) = (~wrong /\ seen = SeqToSet(Agents(Tracks)))
OrderFree == SceneOk(Tracks, Reverse(scene), Ch) = SceneOk(Tracks, scene, Ch)
RightSize == SceneOk(Tracks, scene, Ch) => Len(scene) = Len(Agents(Tracks))
Once == SceneOk(Tracks, scene, Ch) => Distinct(Ids(scene))
OtherChallenge == SceneOk(Tracks, scene, Ch) => ~SceneOk(Tracks, scene, "scenario_gen")
WrongForGood == [][wrong => wrong']_vars
PrintCase == Emit => PrintT("@@C " \o ToJson([scene |-> scene]))
=============================================================================
