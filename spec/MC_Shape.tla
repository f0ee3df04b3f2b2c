-------------------------------- MODULE MC_Shape --------------------------------
(* Every two-state future: start pose along one of four headings, displacement and final heading on   *)
(* a lattice, slow or fast, with valid and missing states around. The classes are total, single away  *)
(* from the boundaries, mirror left and right, and ignore rotation and translation.                    *)
EXTENDS Motion, Json
CONSTANTS Reach, Emit
VARIABLES tr, done
Heads == {<<1, 0>>, <<0, 1>>, <<3, -4>>}
Ends == {<<1, 0>>, <<2, 1>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<0, -1>>, <<5, -3>>, <<2, -1>>}
Coords == {x * 6 : x \in -Reach..Reach} \cup {2, -9, 11}
Rot(v, h) == <<v[1] * h[1] - v[2] * h[2], v[1] * h[2] + v[2] * h[1]>>
MkSt(v, p, g, s) == <<v, p[1], p[2], g[1], g[2], 4, 2, s, 0>>
Track(h, d, g, s, vs) ==
  [id |-> 1, type |-> 1, st |-> <<MkSt(1, <<5, 5>>, h, 4), MkSt(vs[1], <<0, 0>>, h, s[1]),
     MkSt(vs[2], <<d[1] + 3, d[2]>>, <<1, 1>>, 90), MkSt(vs[3], d, g, s[2])>>]
Init == tr = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \E h \in Heads, x, y \in Coords, g \in Ends, s \in {<<4, 4>>, <<4, 8>>, <<12, 0>>},
              vs \in {<<1, 1, 1>>, <<1, 1, 0>>} : tr' = Track(h, <<x, y>>, g, s, vs)
        \/ /\ ~done /\ done' = TRUE
           /\ \E x, y \in {0, 12}, vs \in [1..3 -> {0, 1}] : tr' = Track(<<1, 0>>, <<x, y>>, <<1, 0>>, <<4, 4>>, vs)
Spec == Init /\ [][Next]_<<tr, done>>
MapSt(t, f(_), g(_)) == [t EXCEPT !.st = [i \in DOMAIN t.st |->
   LET s == t.st[i]  p == f(<<s[2], s[3]>>)  h == g(<<s[4], s[5]>>)  v == g(<<s[8], s[9]>>)
   IN <<s[1], p[1], p[2], h[1], h[2], s[6], s[7], v[1], v[2]>>]]
Sh == Shapes(2, tr)
InvTotal == done => ((Sh = {}) = (~Valid(tr.st[2]) \/ (~Valid(tr.st[3]) /\ ~Valid(tr.st[4]))))
(* a quarter turn: exact boundary cases may fall either way once rotated *)
Quarter(v) == Rot(v, <<0, 1>>)
InvTurn == done => LET r == Shapes(2, MapSt(tr, Quarter, Quarter)) IN /\ Sh \subseteq r \/ r \subseteq Sh
                              /\ Clear(2, tr) => r = Sh
InvShift == done => Shapes(2, MapSt(tr, LAMBDA p : <<p[1] + 17, p[2] - 40>>, LAMBDA g : g)) = Sh
MirrorTrack == MapSt(tr, LAMBDA p : <<p[1], -p[2]>>, LAMBDA g : <<g[1], -g[2]>>)
InvMirror == (done /\ Clear(2, tr)) => (Clear(2, MirrorTrack) /\ Shapes(2, MirrorTrack) = {Mirror(s) : s \in Sh})
PrintCase == (Emit /\ done) => PrintT("@@C " \o ToJson(tr.st))
=============================================================================
