------------------------------ MODULE MC_RedLight ------------------------------
(* An object moves about two lanes, one of them with a light which changes.                             *)
EXTENDS RoadMap, Json
CONSTANTS Xs, Ys, States, MaxT, Emit
VARIABLES path, lights, ran
vars == <<path, lights, ran>>
Lanes == <<[id |-> 7, pts |-> <<<<0, 0>>, <<4, 0>>, <<8, 4>>>>], [id |-> 9, pts |-> <<<<0, 3>>, <<4, 3>>>>]>>
Stop == <<2, 0>>
Signal(s) == <<[lane |-> 7, state |-> s, stop |-> Stop]>>
Init == path = <<>> /\ lights = <<>> /\ ran = <<>>
Next == /\ Len(path) < MaxT
        /\ \E x \in Xs : \E y \in Ys : \E s \in States :
             /\ path' = Append(path, <<x, y>>) /\ lights' = Append(lights, s)
             /\ ran' = Append(ran, IF path = <<>> THEN {FALSE} ELSE Violations(path[Len(path)], <<x, y>>, Lanes, Signal(s)))
Spec == Init /\ [][Next]_vars
T == Len(path)
(* red when passing, near the lane, and forward *)
OnlyAtRed == \A t \in 1..T : TRUE \in ran[t] => lights[t] \in Stops /\ t > 1 /\ path[t - 1][1] < Stop[1] /\ path[t][1] > Stop[1]
(* who runs two lights has gone back in between *)
BackBetween == \A s, t \in 1..T : (s < t /\ TRUE \in ran[s] /\ TRUE \in ran[t]) => \E k \in s..t : path[k][1] < Stop[1]
OtherLane == \A t \in 1..T : path[t][2] = 3 => (path[t][1] <= 4 => ran[t] = {FALSE})
PrintCase == (Emit /\ T = MaxT) => PrintT("@@C " \o ToJson([path |-> path, lights |-> lights]))
=============================================================================
