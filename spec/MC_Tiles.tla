------------------------------ MODULE MC_Tiles ------------------------------
(* All small grids, cut one cell after the other.                                                  *)
EXTENDS Tiles, Json
CONSTANTS Most, Sizes, Emit
VARIABLES h, w, size, n
Init == h \in 1 .. Most /\ w \in 1 .. Most /\ size \in Sizes /\ Fits(h, w, size) /\ n = 0
Next == n < NumTiles(h, w, size) /\ n' = n + 1 /\ UNCHANGED <<h, w, size>>
Spec == Init /\ [][Next]_<<h, w, size, n>>
Grid == [y \in 1 .. h |-> [x \in 1 .. w |-> <<y, x>>]]
Back == Joined(Cut(Grid, size), h, w, size) = Grid
(* a tile has its part of the grid, in place, and neighbours of what it has in the mirrored rest *)
Placed == n > 0 => LET t == Cut(Grid, size)[n] IN
  \A c \in DOMAIN t : LET y == PlaceY(n, c, w, size)
                          x == PlaceX(n, c, w, size) IN
    /\ (y <= h /\ x <= w => t[c] = <<y, x>>)
    /\ t[c][1] >= h - (size - 1) \/ y <= h
    /\ (c % size # 0 => AbsI(t[c][2] - t[c + 1][2]) = 1 /\ t[c][1] = t[c + 1][1])
Everything == {<<y, x>> : y \in 1 .. h, x \in 1 .. w} \subseteq UNION {SeqToSet(Cut(Grid, size)[t]) : t \in 1 .. NumTiles(h, w, size)}
Least == (NumTiles(h, w, size) - Up(w, size)) * size * size < h * Up(w, size) * size
PrintCase == (Emit /\ n = 0) => PrintT("@@C " \o ToJson([h |-> h, w |-> w, size |-> size]))
=============================================================================
