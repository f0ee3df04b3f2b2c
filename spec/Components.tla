---------------------------- MODULE Components ----------------------------
(* A dataset component: a tree of typed fields whose leaves are the columns of a table.               *)
(*   type  : [comp, name, iskey, fields]   comp: a component; iskey: a key of a component             *)
(*   field : [name, rep, arrow, sub]       sub: <<>> for a leaf, <<type>> for a nested part           *)
(* A value of a type is [absent, leaf, parts]: parts has one value per field, a leaf carries a string. *)
EXTENDS VCommon

Null == "null"
Nested(f) == f.sub # <<>>
Sub(f) == f.sub[1]
Shared(T, f) == T.comp /\ Nested(f) /\ Sub(f).iskey        \* the key of a component: shared between components
Col(T, f) == (IF T.comp /\ ~Shared(T, f) THEN "[" \o T.name \o "]." ELSE "") \o f.name \o (IF f.rep THEN "[*]" ELSE "")
Under(p, s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.n = p \o "." \o s[i].n]]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* the columns, in the order of the fields: name and stored type *)
RECURSIVE Schema(_)
Schema(T) == Concat([i \in DOMAIN T.fields |->
    LET f == T.fields[i] IN IF Nested(f) THEN Under(Col(T, f), Schema(Sub(f))) ELSE <<[n |-> Col(T, f), t |-> f.arrow]>>])
Names(T) == [i \in DOMAIN Schema(T) |-> Schema(T)[i].n]

(* the columns of one value; a part that is absent still has all of its columns *)
RECURSIVE Nulls(_)
Nulls(T) == Concat([i \in DOMAIN T.fields |->
    LET f == T.fields[i] IN IF Nested(f) THEN Under(Col(T, f), Nulls(Sub(f))) ELSE <<[n |-> Col(T, f), v |-> Null]>>])
RECURSIVE Flatten(_, _)
Flatten(T, x) == Concat([i \in DOMAIN T.fields |->
    LET f == T.fields[i] IN LET y == x.parts[i] IN
      IF ~Nested(f) THEN <<[n |-> Col(T, f), v |-> y.leaf]>>
      ELSE Under(Col(T, f), IF y.absent THEN Nulls(Sub(f)) ELSE Flatten(Sub(f), y))])

(* reading a row back: every leaf is found by its full name; row: sequence of [n, v], other columns may be there *)
Lookup(row, n) == row[CHOOSE i \in DOMAIN row : row[i].n = n].v
HasCol(row, n) == \E i \in DOMAIN row : row[i].n = n
Leaf(v) == [absent |-> FALSE, leaf |-> v, parts |-> <<>>]
Node(ps) == [absent |-> FALSE, leaf |-> "", parts |-> ps]
RECURSIVE Read(_, _, _)
Read(T, prefix, row) == Node([i \in DOMAIN T.fields |->
    LET f == T.fields[i] IN IF Nested(f) THEN Read(Sub(f), prefix \o Col(T, f) \o ".", row) ELSE Leaf(Lookup(row, prefix \o Col(T, f)))])
Readable(T, row) == \A i \in DOMAIN Schema(T) : HasCol(row, Schema(T)[i].n)

(* an absent part cannot be told from one whose leaves are all null *)
RECURSIVE Empty(_)
Empty(T) == Node([i \in DOMAIN T.fields |-> IF Nested(T.fields[i]) THEN Empty(Sub(T.fields[i])) ELSE Leaf(Null)])
RECURSIVE Norm(_, _)
Norm(T, x) == IF x.absent THEN Empty(T)
              ELSE Node([i \in DOMAIN T.fields |-> IF Nested(T.fields[i]) THEN Norm(Sub(T.fields[i]), x.parts[i]) ELSE Leaf(x.parts[i].leaf)])
SameValue(T, x, y) == Norm(T, x) = Norm(T, y)
=============================================================================
