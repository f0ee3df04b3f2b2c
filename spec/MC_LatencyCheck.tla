---------------------------- MODULE MC_LatencyCheck ----------------------------
(* A run and a submission that start equal and drift apart one change at a time; n filler objects at   *)
(* places of their own agree in both, so that the allowed fraction comes into play.                    *)
EXTENDS LatencyCheck, Json
CONSTANTS Fillers, MaxChanges, Frs, Emit
VARIABLES lat, full, n, k
vars == <<lat, full, n, k>>
O(fr, ty, cl, x, sc) == [fr |-> fr, ty |-> ty, cl |-> cl, x |-> x, l |-> 100, y |-> 0, w |-> 20, sc |-> sc]
Start == <<O("a", 1, 1, 0, 500), O("a", 1, 1, 5, 520), O("a", 2, 2, 0, 300)>> \o (IF "b" \in Frs THEN <<O("b", 1, 1, 0, 900)>> ELSE <<>>)
Fill(m) == [i \in 1..m |-> O("a", 1, 10 + i, 0, 700)]
Thr == 900
Init == n \in Fillers /\ lat = Start \o Fill(n) /\ full = Start \o Fill(n) /\ k = 0
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Change(s) == {DropAt(s, i) : i \in 1..MinI(4, Len(s))} \cup {Append(s, O(fr, 1, 1, x, 500)) : fr \in Frs, x \in {0, 50}}
             \cup {[s EXCEPT ![i].x = @ + d] : i \in 1..MinI(3, Len(s)), d \in {5, 60}} \cup {[s EXCEPT ![i].sc = @ + d] : i \in 1..MinI(3, Len(s)), d \in {50, 51}}
             \cup {[s EXCEPT ![i].ty = 3 - @] : i \in {1} \cap DOMAIN s} \cup {[s EXCEPT ![i].fr = "c"] : i \in {1} \cap DOMAIN s}
Next == /\ k < MaxChanges /\ k' = k + 1 /\ n' = n
        /\ ((lat' \in Change(lat) /\ full' = full) \/ (full' \in Change(full) /\ lat' = lat))
Spec == Init /\ [][Next]_vars
Out == Outcome(lat, full, Thr, 0)
EqualAccepted == lat = full => TRUE \in Out
OrderFree == /\ Outcome(Reverse(lat), full, Thr, 0) = Out /\ Outcome(lat, Reverse(full), Thr, 0) = Out
             /\ Len(lat) > 1 => Outcome(Swap(lat, 1), full, Thr, 0) = Out
MoreTolerantAcceptsMore == Out = {TRUE} => TRUE \in Outcome(lat, full, 500, 0)
UnseenIgnored == Outcome(lat, Append(full, O("zz", 1, 1, 0, 500)), Thr, 0) = Out /\ Outcome(Append(lat, O("a", 0, 1, 0, 500)), full, Thr, 0) = Out
MissingFrameRejected == (\E fr \in Frames(lat, 0) : fr \notin Frames(full, 0)) => Out = {FALSE}
NothingAccepted == Outcome(<<>>, full, Thr, 0) = {TRUE}
(* with f agreeing fillers a single change on one side costs at most two disagreements *)
OneChange == (k = 1 /\ n >= 40 /\ \A fr \in Frames(lat, 0) : fr \in Frames(full, 0) /\ fr = "a") => Out = {TRUE}
PrintCase == Emit => PrintT("@@C " \o ToJson([lat |-> SubSeq(lat, 1, Len(lat)), full |-> full]))
=============================================================================
