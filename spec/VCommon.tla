------------------------------- MODULE VCommon -------------------------------
(* Operators every module of this specification uses.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Chk(b, name) == IF b THEN {} ELSE {name}      \* a named clause of a verdict

AbsI(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
SeqToSet(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SeqToSet(s)) = Len(s)
CountIn(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
(* multiset of a sequence, as a function value -> multiplicity *)
Bag(s) == [v \in SeqToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = v})]
SameBag(s, t) == Len(s) = Len(t) /\ Bag(s) = Bag(t)
(* a/b = c/d without division *)
RatEq(a, b, c, d) == a * d = c * b
(* x (scaled by k) approximates num/den within tol/k;  num*k must stay below 2^31 *)
Approx(x, num, den, k, tol) ==
   LET q == (num * k) \div den IN AbsI(x - q) <= tol + 1
Within(x, y, tol) == AbsI(x - y) <= tol
=============================================================================
