-------------------------------- MODULE MC_Rater ---------------------------------
(* A rated trajectory is driven step by step (one step a second), beside a second one standing still *)
(* at the origin; then a prediction is placed around it and scored.                                  *)
EXTENDS Rater, Json
CONSTANTS Moves, Offsets, Labels, Speeds, Emit
VARIABLES path, pred, lab, sp
vars == <<path, pred, lab, sp>>
MoveOf == [e |-> <<64, 0>>, n |-> <<0, 64>>, k |-> <<-96, 128>>, s |-> <<0, 0>>]
OffOf == [o |-> <<0, 0>>, a |-> <<16, 0>>, b |-> <<0, 32>>, c |-> <<0, -33>>, d |-> <<128, 0>>, e |-> <<-160, 7>>, f |-> <<640, 640>>]
Still == [i \in 1..5 |-> <<0, 0>>]
Init == path = <<>> /\ pred = <<>> /\ lab = 0 /\ sp = 0
Drive == Len(path) < 5 /\ lab = 0
         /\ \E m \in Moves : LET d == MoveOf[m]  p == IF path = <<>> THEN <<0, 0>> ELSE path[Len(path)] IN path' = Append(path, <<p[1] + d[1], p[2] + d[2]>>)
         /\ UNCHANGED <<pred, lab, sp>>
Place == Len(path) = 5 /\ lab = 0
         /\ \E o1, o2 \in Offsets : pred' = [t \in 1..5 |-> LET o == OffOf[IF t <= 3 THEN o1 ELSE o2] IN <<path[t][1] + o[1], path[t][2] + o[2]>>]
         /\ lab' \in Labels
         /\ sp' \in Speeds
         /\ UNCHANGED path
Next == Drive \/ Place
Spec == Init /\ [][Next]_vars
Scene == [rated |-> <<[path |-> path, label |-> lab], [path |-> Still, label |-> 40]>>, freq |-> 1, secs |-> 5, slots |-> 3,
          preds |-> <<pred>>, w |-> <<1>>, total |-> 1, speed |-> sp, lat |-> 10, lng |-> 40, decay |-> "1/10", floor |-> 40]
Done == lab # 0
Sc == Score(Scene, Rated(Scene), pred)
Swapped == [Scene EXCEPT !.rated = <<@[2], @[1]>>]
Alone == [Scene EXCEPT !.rated = <<@[1]>>, !.slots = 1]
OrderIrrelevant == Done => Score(Swapped, Rated(Swapped), pred) = Sc
PaddingIrrelevant == Done => \A k \in {2, 5} : Score([Scene EXCEPT !.slots = k], Rated([Scene EXCEPT !.slots = k]), pred) = Sc
Same == Done /\ pred = path => Score(Alone, Rated(Alone), pred) = lab * 32768
Bounded == Done => Sc >= 0 /\ Sc <= MaxI(MaxI(lab, 40), Scene.floor) * 32768
FloorOutside == Done => (~FullyInside(Scene, Rated(Scene), pred) => Sc >= Lowest(Scene))
MoreRatedNeverHurts == Done => (Mean2(Scene, Rated(Scene), pred) >= Mean2(Alone, Rated(Alone), pred))
(* a slower start shrinks the region *)
SlowerNotInside == Done => \A v \in {0, 1400, 6200} : v <= sp /\ FullyInside([Scene EXCEPT !.speed = v], Rated(Scene), pred) => FullyInside(Scene, Rated(Scene), pred)
SlowerNotBetter == Done => \A v \in {0, 1400, 6200} : v <= sp => Mean2([Scene EXCEPT !.speed = v], Rated(Scene), pred) <= Mean2(Scene, Rated(Scene), pred) + 50
InsideScoresLabel == Done /\ FullyInside(Alone, Rated(Alone), pred) => Score(Alone, Rated(Alone), pred) = lab * 32768
HeadingWhole == Len(path) = 5 => \A t \in {3, 5} : LET d == HeadingAt(path, t) IN d # <<0, 0>> /\ Len2(d) * Len2(d) = d[1] * d[1] + d[2] * d[2]
HeadingKept == Len(path) = 5 => \A t \in 2..5 : path[t] = path[t - 1] => HeadingAt(path, t) = HeadingAt(path, t - 1)
DecayFalls == \A n \in 0..40 : \A d \in {"1/10", "1/2", "4/5", "1"} : Decay(d, <<n + 1, 7>>) <= Decay(d, <<n, 7>>)
PrintCase == (Emit /\ Done) => PrintT("@@C " \o ToJson([path |-> path, pred |-> pred, lab |-> lab, sp |-> sp]))
=============================================================================
