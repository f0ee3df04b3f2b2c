------------------------------ MODULE MC_CameraSeg ------------------------------
(* Labels of one or two sequences, written and read with every option.                                   *)
EXTENDS CameraSeg, Json
CONSTANTS Pix, Gids, Divs, Wants, MaxN, Emit
VARIABLES labs, opt
vars == <<labs, opt>>
Maps == {<<>>} \cup {<<[l |-> 1, g |-> g, t |-> TRUE]>> : g \in Gids}
        \cup {<<[l |-> 2, g |-> g, t |-> FALSE], [l |-> 1, g |-> h, t |-> TRUE]>> : g \in Gids, h \in Gids}
Init == labs = <<>> /\ opt \in [global : BOOLEAN, sequential : BOOLEAN, want : Wants]
Next == /\ Len(labs) < MaxN
        /\ \E p \in Pix : \E q \in Pix : \E m \in Maps : \E s \in {"a", "b"} : \E d \in Divs :
             /\ (labs = <<>>) => s = "a"
             /\ labs' = Append(labs, [seq |-> s, div |-> d, px |-> <<p, q>>, map |-> m])
        /\ UNCHANGED opt
(* pixels by number *)
PixelOf(k) == CASE k = 0 -> <<1, 0>> [] k = 1 -> <<1, 1>> [] OTHER -> <<2, 2>>
Lab(n) == [labs[n] EXCEPT !.px = <<PixelOf(labs[n].px[1]), PixelOf(labs[n].px[2])>>]
Ls == [n \in DOMAIN labs |-> Lab(n)]
Spec == Init /\ [][Next]_vars
D == ReadDiv(Ls, opt.sequential, opt.global, opt.want)
Out == [n \in DOMAIN labs |-> ReadLabel(Ls, n, opt.sequential, opt.global, D)]
Good == (labs # <<>> /\ Fits(Ls, opt.sequential, opt.global, D)) =>
  LET o == Out IN
  /\ ClassesKept(Ls, o, D)
  /\ opt.global => /\ Consistent(Ls, o, D) /\ OthersKept(Ls, o, D)
                   /\ opt.sequential => Compact(Ls, o, D)
                   /\ ~opt.sequential => GlobalKept(Ls, o, D)
(* without a wish for a divisor, mapped instances always fit *)
AlwaysFits == (labs # <<>> /\ opt.want = 0 /\ opt.global /\ \A n \in DOMAIN labs : LocalMax(Ls[n]) < Ls[1].div) => Fits(Ls, opt.sequential, TRUE, D)
Small == labs # <<>> => \A k \in Known(Ls) : NewIds(Ls, opt.sequential)[k] <= (IF opt.sequential THEN Cardinality(Known(Ls)) ELSE Room(Ls))
(* what is written is read back *)
Round == labs # <<>> =>
  LET px == <<<<1, Maxes(Globals(Ls[1]))>>, <<2, labs[1].div>>, Ls[1].px[1]>>
      w == Written(px, "a", opt.want + 1)
      d == ReadDiv(<<w>>, FALSE, TRUE, 0) IN
  /\ MapOK(w) /\ Fits(<<w>>, FALSE, TRUE, d)
  /\ [i \in DOMAIN px |-> Unpack(ReadLabel(<<w>>, 1, FALSE, TRUE, d)[i], d)] = px
PrintCase == (Emit /\ Len(labs) = MaxN) => PrintT("@@C " \o ToJson([labs |-> Ls, opt |-> opt]))
=============================================================================
