--------------------------- MODULE MC_Components ---------------------------
(* Component types grown field by field. stack: the chain of open types; names repeat between levels.  *)
EXTENDS Components, Json
CONSTANTS MaxFields, MaxDepth, FieldNames, Emit
VARIABLES stack, n, done
vars == <<stack, n, done>>
Type(name, comp, key) == [comp |-> comp, name |-> name, iskey |-> key, fields |-> <<>>]
Init == stack = <<[t |-> Type("C", TRUE, FALSE), f |-> "", rep |-> FALSE]>> /\ n = 0 /\ done = FALSE
Top == stack[Len(stack)]
Used(t) == {t.fields[i].name : i \in DOMAIN t.fields}
Put(t, f) == [t EXCEPT !.fields = Append(@, f)]
AddLeaf(x, rep) == /\ x \notin Used(Top.t) /\ n < MaxFields
                   /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.t = Put(Top.t, [name |-> x, rep |-> rep, arrow |-> "t" \o ToString(n), sub |-> <<>>])]]
                   /\ n' = n + 1 /\ UNCHANGED done
Open(x, rep, key) == /\ x \notin Used(Top.t) /\ n < MaxFields /\ Len(stack) <= MaxDepth
                     /\ key => Len(stack) = 1
                     /\ stack' = Append(stack, [t |-> Type("N" \o ToString(n), FALSE, key), f |-> x, rep |-> rep])
                     /\ n' = n + 1 /\ UNCHANGED done
Close == /\ Len(stack) > 1 /\ Top.t.fields # <<>>
         /\ LET k == Len(stack) - 1
            IN stack' = [SubSeq(stack, 1, k) EXCEPT ![k] = [@ EXCEPT !.t = Put(stack[k].t, [name |-> Top.f, rep |-> Top.rep, arrow |-> "", sub |-> <<Top.t>>])]]
         /\ UNCHANGED <<n, done>>
Finish == Len(stack) = 1 /\ Top.t.fields # <<>> /\ done' = TRUE /\ UNCHANGED <<stack, n>>
Next == ~done /\ (\/ \E x \in FieldNames, rep \in BOOLEAN : AddLeaf(x, rep)
                  \/ \E x \in FieldNames, rep \in BOOLEAN, key \in BOOLEAN : Open(x, rep, key)
                  \/ Close \/ Finish)
Spec == Init /\ [][Next]_vars
T == stack[1].t
(* one value of the type: every leaf its own number; and the same with every nested part of the top absent *)
RECURSIVE Number(_, _)
Number(t, p) == Node([i \in DOMAIN t.fields |-> IF Nested(t.fields[i]) THEN Number(Sub(t.fields[i]), p \o ToString(i)) ELSE Leaf(p \o ToString(i))])
Absent == [absent |-> TRUE, leaf |-> "", parts |-> <<>>]
Hollow(t) == Node([i \in DOMAIN t.fields |-> IF Nested(t.fields[i]) THEN Absent ELSE Leaf("1")])
NamesDiffer == done => Distinct(Names(T))
SameColumns == done => \A x \in {Number(T, "v"), Hollow(T)} : LET c == Flatten(T, x) IN [i \in DOMAIN c |-> c[i].n] = Names(T)
RoundTrip == done => \A x \in {Number(T, "v"), Hollow(T)} : SameValue(T, Read(T, "", Flatten(T, x)), x)
ReadAgain == done => \A x \in {Number(T, "v"), Hollow(T)} : Flatten(T, Read(T, "", Flatten(T, x))) = Flatten(T, x)
NothingElse == done => Read(T, "", <<[n |-> "zz", v |-> "9"]>> \o Flatten(T, Number(T, "v"))) = Number(T, "v")
(* only the columns of a shared key have the same name in another component of the same shape *)
OtherName == done => LET U == [T EXCEPT !.name = "D"]
                     IN \A i \in DOMAIN T.fields : LET a == Names([T EXCEPT !.fields = <<T.fields[i]>>])
                                                       b == Names([U EXCEPT !.fields = <<T.fields[i]>>])
                                                   IN IF Shared(T, T.fields[i]) THEN a = b ELSE SeqToSet(a) \cap SeqToSet(b) = {}
PrintCase == (Emit /\ done) => PrintT("@@C " \o ToJson(T))
=============================================================================
