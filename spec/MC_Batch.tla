-------------------------------- MODULE MC_Batch --------------------------------
(* Rows arriving in any interleaving of their frames, put into their groups one at a time.            *)
EXTENDS Batch, Json
CONSTANTS MaxRows, Fs, Ss, Emit
VARIABLES rows, groups
vars == <<rows, groups>>
None == [x \in {} |-> <<>>]
Init == rows = <<>> /\ groups = None
Add(s, f) == LET r == [s |-> s, f |-> f, vals |-> [n |-> Len(rows), o |-> 7]] k == KeyOf(r)
             IN /\ rows' = Append(rows, r)
                /\ groups' = IF k \in DOMAIN groups THEN [groups EXCEPT ![k] = Append(@, r.vals)]
                             ELSE [x \in DOMAIN groups \cup {k} |-> IF x = k THEN <<r.vals>> ELSE groups[x]]
Next == Len(rows) < MaxRows /\ \E s \in Ss : \E f \in Fs : Add(s, f)
Spec == Init /\ [][Next]_vars
AsSeq == LET ks == SetToSeq(DOMAIN groups) IN [i \in DOMAIN ks |-> [s |-> ks[i][1], f |-> ks[i][2], objs |-> groups[ks[i]]]]
Incremental == Grouped(rows, {"n", "o"}, AsSeq)
NothingLost == SumSeq([i \in DOMAIN AsSeq |-> Len(AsSeq[i].objs)]) = Len(rows)
Swap(i) == [rows EXCEPT ![i] = rows[i + 1], ![i + 1] = rows[i]]
InterleavingFree == \A i \in 1..(Len(rows) - 1) : KeyOf(rows[i]) # KeyOf(rows[i + 1]) => Grouped(Swap(i), {"n", "o"}, AsSeq)
OrderMatters == \A i \in 1..(Len(rows) - 1) : KeyOf(rows[i]) = KeyOf(rows[i + 1]) => ~Grouped(Swap(i), {"n", "o"}, AsSeq)
OthersUntouched == [][\A k \in DOMAIN groups : groups'[k] = groups[k] \/ k = KeyOf(rows'[Len(rows')])]_vars
PrintCase == (Emit /\ Len(rows) > 0) => PrintT("@@C " \o ToJson([rows |-> [i \in DOMAIN rows |-> <<rows[i].s, rows[i].f>>]]))
=============================================================================
