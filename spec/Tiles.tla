-------------------------------- MODULE Tiles --------------------------------
(* A grid of vectors cut into square tiles, and put together again; and the vectors that tokens    *)
(* stand for. A grid is a sequence of rows of cells; a tile is the sequence of its cells, row by row. *)
EXTENDS VCommon
Up(n, k) == (n + k - 1) \div k
(* what lies beyond the last of n rows or columns is seen in a mirror there *)
Mirror(i, n) == IF i <= n THEN i ELSE 2 * n - i
(* mirrors cannot show more than there is *)
Fits(h, w, size) == Up(h, size) * size < 2 * h /\ Up(w, size) * size < 2 * w
NumTiles(h, w, size) == Up(h, size) * Up(w, size)
(* the place of cell c of tile t, 1-based *)
PlaceY(t, c, w, size) == ((t - 1) \div Up(w, size)) * size + ((c - 1) \div size) + 1
PlaceX(t, c, w, size) == ((t - 1) % Up(w, size)) * size + ((c - 1) % size) + 1
Cut(g, size) ==
  LET h == Len(g)
      w == Len(g[1]) IN
  [t \in 1 .. NumTiles(h, w, size) |-> [c \in 1 .. size * size |-> g[Mirror(PlaceY(t, c, w, size), h)][Mirror(PlaceX(t, c, w, size), w)]]]
Joined(ts, h, w, size) ==
  [y \in 1 .. h |-> [x \in 1 .. w |->
     ts[((y - 1) \div size) * Up(w, size) + ((x - 1) \div size) + 1][((y - 1) % size) * size + ((x - 1) % size) + 1]]]
=============================================================================
