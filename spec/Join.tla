-------------------------------- MODULE Join --------------------------------
(* Joining two tables of component columns on the key columns they share.                             *)
(*   table : [keys, vals, rows]  names of key and other columns; row: [k, v], a text for every column  *)
(* A grouped column holds the texts of its group in the order of the rows, written "<a;b>".            *)
EXTENDS VCommon

KeyAt(t, r, c) == r.k[CHOOSE i \in DOMAIN t.keys : t.keys[i] = c]
Common(a, b) == SelectSeq(a.keys, LAMBDA c : c \in SeqToSet(b.keys))
Others(t, C) == SelectSeq(t.keys, LAMBDA c : c \notin SeqToSet(C))
On(t, r, C) == [i \in DOMAIN C |-> KeyAt(t, r, C[i])]
Ons(t, C) == [i \in DOMAIN t.rows |-> On(t, t.rows[i], C)]

(* a table seen from the join: the common key, the rest of the keys and the values *)
View(t, C) == LET other == Others(t, C)
              IN [keys |-> C, rest |-> other \o t.vals,
                  rows |-> [i \in DOMAIN t.rows |-> [on |-> On(t, t.rows[i], C),
                                                     v |-> [j \in DOMAIN other |-> KeyAt(t, t.rows[i], other[j])] \o t.rows[i].v]]]
ListOf(s) == "<" \o (IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o ";" \o b, s[1], Tail(s))) \o ">"
Firsts(w) == SelectSeq([i \in DOMAIN w.rows |-> i], LAMBDA i : \A j \in 1..(i - 1) : w.rows[j].on # w.rows[i].on)
Group(w) ==
    LET first == Firsts(w)
        mem == [g \in DOMAIN first |-> SelectSeq(w.rows, LAMBDA r : r.on = w.rows[first[g]].on)]
    IN [w EXCEPT !.rows = [g \in DOMAIN first |->
           [on |-> mem[g][1].on, v |-> [j \in DOMAIN w.rest |-> ListOf([i \in DOMAIN mem[g] |-> mem[g][i].v[j]])]]]]
Side(t, C, group) == IF group /\ Others(t, C) # <<>> THEN Group(View(t, C)) ELSE View(t, C)

Missing(w) == [j \in DOMAIN w.rest |-> "null"]
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
MapSeq(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
Matched(L, R) == Concat(MapSeq(L.rows, LAMBDA x : MapSeq(SelectSeq(R.rows, LAMBDA r : r.on = x.on), LAMBDA r : [on |-> x.on, v |-> x.v \o r.v])))
OnlyIn(A, B) == LET there == {B.rows[i].on : i \in DOMAIN B.rows} IN SelectSeq(A.rows, LAMBDA r : r.on \notin there)
LeftOnly(L, R) == MapSeq(OnlyIn(L, R), LAMBDA r : [on |-> r.on, v |-> r.v \o Missing(R)])
RightOnly(L, R) == MapSeq(OnlyIn(R, L), LAMBDA r : [on |-> r.on, v |-> Missing(L) \o r.v])

(* opt: [lnull, rnull, lgroup, rgroup] *)
Merge(a, b, opt) ==
    LET C == Common(a, b)
        L == Side(a, C, opt.lgroup)
        R == Side(b, C, opt.rgroup)
    IN [keys |-> C, rest |-> L.rest \o R.rest,
        rows |-> Matched(L, R) \o (IF opt.rnull THEN LeftOnly(L, R) ELSE <<>>) \o (IF opt.lnull THEN RightOnly(L, R) ELSE <<>>)]
=============================================================================
