-------------------------------- MODULE MC_Merge --------------------------------
(* Partial results of frames are merged pairwise in any association; the total is what counts.     *)
EXTENDS Detection
CONSTANTS N, Emit
VARIABLES parts, orig
vars == <<parts, orig>>
Ms == [tp : 0..1, fp : 0..1, fn : {0}, ha : {1}, la : {1}, cut : {0}, det : {<<>>, <<"f">>}]
Init == /\ orig \in [1..N -> Ms]
        /\ parts = [i \in 1..N |-> [orig[i] EXCEPT !.det = IF @ = <<>> THEN @ ELSE <<i>>]]
MergeAt(i) == /\ i < Len(parts)
              /\ parts' = [k \in 1..(Len(parts) - 1) |->
                    IF k < i THEN parts[k] ELSE IF k = i THEN MergeM(parts[i], parts[i + 1]) ELSE parts[k + 1]]
              /\ UNCHANGED orig
Next == \E i \in DOMAIN parts : MergeAt(i)
Spec == Init /\ [][Next]_vars
Tot(f(_)) == SumOver(DOMAIN parts, LAMBDA i : f(parts[i]))
Conserved == /\ Tot(LAMBDA m : m.tp) = SumOver(1..N, LAMBDA i : orig[i].tp)
             /\ Tot(LAMBDA m : m.fp) = SumOver(1..N, LAMBDA i : orig[i].fp)
             /\ Tot(LAMBDA m : m.ha) = N
FramesKept == FlattenSeq([i \in DOMAIN parts |-> parts[i].det])
                = SelectSeq([i \in 1..N |-> i], LAMBDA i : orig[i].det # <<>>)
=============================================================================
