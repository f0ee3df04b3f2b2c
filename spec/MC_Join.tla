------------------------------- MODULE MC_Join -------------------------------
(* Two tables filled row by row: left keyed by s (and t), right by s (and o).                          *)
EXTENDS Join, Json
CONSTANTS MaxRows, Vals, LKeys, RKeys, Emit
VARIABLES a, b, side
vars == <<a, b, side>>
KeyCols == [s |-> <<"s">>, st |-> <<"s", "t">>, so |-> <<"s", "o">>, ts |-> <<"t", "s">>, sto |-> <<"s", "t", "o">>]
Init == /\ side = "a"
        /\ \E k \in LKeys : a = [keys |-> KeyCols[k], vals |-> <<"l">>, rows |-> <<>>]
        /\ \E k \in RKeys : b = [keys |-> KeyCols[k], vals |-> <<"r">>, rows |-> <<>>]
Rows(t) == [k : [DOMAIN t.keys -> Vals], v : {<<ToString(Len(t.rows))>>}]
AddA == side = "a" /\ Len(a.rows) < MaxRows /\ \E r \in Rows(a) : a' = [a EXCEPT !.rows = Append(@, r)] /\ UNCHANGED <<b, side>>
Turn == side = "a" /\ side' = "b" /\ UNCHANGED <<a, b>>
AddB == side = "b" /\ Len(b.rows) < MaxRows /\ \E r \in Rows(b) : b' = [b EXCEPT !.rows = Append(@, r)] /\ UNCHANGED <<a, side>>
Next == AddA \/ Turn \/ AddB
Spec == Init /\ [][Next]_vars
Opts == [lnull : BOOLEAN, rnull : BOOLEAN, lgroup : BOOLEAN, rgroup : BOOLEAN]
C == Common(a, b)
Flip(o) == [lnull |-> o.rnull, rnull |-> o.lnull, lgroup |-> o.rgroup, rgroup |-> o.lgroup]
Swap(m, n) == [i \in DOMAIN m.rows |-> [on |-> m.rows[i].on, v |-> SubSeq(m.rows[i].v, n + 1, Len(m.rest)) \o SubSeq(m.rows[i].v, 1, n)]]
At(o) == Merge(a, b, o)
(* joining the other way round gives the same rows with the sides exchanged *)
Keyed == SeqToSet(a.keys) \cap SeqToSet(b.keys) = {"s"}
(* nothing lost: with both sides nullable every record is in the result; grouped sides meet each key once *)
Good(o, m) ==
    LET ons == [i \in DOMAIN m.rows |-> m.rows[i].on]
    IN /\ \A i \in DOMAIN m.rows : Len(m.rows[i].v) = Len(m.rest)
       /\ Keyed => SameBag(Swap(m, Len(a.keys)), Merge(b, a, Flip(o)).rows)
       /\ o.lnull /\ o.rnull => SeqToSet(ons) = SeqToSet(Ons(a, C)) \cup SeqToSet(Ons(b, C))
       /\ ~o.lnull /\ ~o.rnull => SeqToSet(ons) = SeqToSet(Ons(a, C)) \cap SeqToSet(Ons(b, C))
       /\ o.lgroup /\ o.rgroup /\ Others(a, C) # <<>> /\ Others(b, C) # <<>> => Distinct(ons)
       /\ o.lnull \/ LET n == Merge(a, b, [o EXCEPT !.lnull = TRUE]).rows IN Len(n) >= Len(m.rows) /\ SubSeq(n, 1, Len(m.rows)) = m.rows
       /\ o.lgroup \/ o.rgroup \/ o.lnull \/ o.rnull \/ Len(m.rows) = SumOver(SeqToSet(ons), LAMBDA x : CountIn(Ons(a, C), LAMBDA y : y = x) * CountIn(Ons(b, C), LAMBDA y : y = x))
Joins == side = "b" => \A o \in Opts : Good(o, At(o))
PrintCase == (Emit /\ side = "b") => PrintT("@@C " \o ToJson([a |-> a, b |-> b]))
=============================================================================
