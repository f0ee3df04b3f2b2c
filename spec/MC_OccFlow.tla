------------------------------ MODULE MC_OccFlow ------------------------------
(* Two agents move on a small grid, seen or hidden at any of the steps.                                  *)
EXTENDS OccFlow, Json
CONSTANTS Places, Past, Fut, Wps, Emit
VARIABLES sc, t
vars == <<sc, t>>
CS(k) == <<<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<4, 3>>>>[k]
St(x, y, v) == [x |-> 100 * x, y |-> 100 * y, yaw |-> <<5, 0>>, l |-> 100, w |-> 100, v |-> v]
Total == Past + 1 + Fut
Agent(ty, s) == [type |-> ty, st |-> <<s>>]
Init == /\ t = 1
        /\ \E wp \in Wps : \E n \in BOOLEAN : \E k \in {1, 2} : \E ty \in {1, 2} : \E x \in Places : \E v, u \in BOOLEAN :
             /\ Fut % wp = 0
             /\ sc = [h |-> 3, w |-> 4, sx |-> 1, sy |-> 1, ppm |-> <<1, 1>>, norm |-> n, nl |-> 1, nw |-> 1, past |-> Past, fut |-> Fut, wp |-> wp,
                      sdc |-> [x |-> 0, y |-> 0, yaw |-> CS(k)],
                      agents |-> <<Agent(1, St(x, 0, v)), Agent(ty, St(0, x, u))>>]
Next == /\ t < Total
        /\ t' = t + 1
        /\ \E x \in Places : \E v, u \in BOOLEAN :
             sc' = [sc EXCEPT !.agents[1].st = Append(@, St(x, 0, v)), !.agents[2].st = Append(@, St(0, t % 3, u))]
Spec == Init /\ [][Next]_vars
Whole == t = Total
P == Points(sc)
All == <<"past", "current", "future">>
(* every agent is seen or hidden, and not both *)
Split == Whole => \A ty \in {1, 2} :
  /\ Drawn(sc, ty, <<"future">>, TRUE, FALSE) \cap Drawn(sc, ty, <<"future">>, FALSE, TRUE) = {}
  /\ Drawn(sc, ty, <<"future">>, TRUE, FALSE) \cup Drawn(sc, ty, <<"future">>, FALSE, TRUE) = Drawn(sc, ty, <<"future">>, TRUE, TRUE)
  /\ \A k \in 1..Now(sc) : Sure(sc, P, Drawn(sc, ty, <<"future">>, FALSE, TRUE), k) = {}
(* the vehicle's place is where the configuration says, whichever way it heads *)
Centre == Image(sc, At(sc, sc.sdc.x, sc.sdc.y)) = <<One * sc.sx, One * sc.sy>>
Ahead == sc.norm => Image(sc, At(sc, sc.sdc.x + 20 * sc.sdc.yaw[1], sc.sdc.y + 20 * sc.sdc.yaw[2])) = <<One * sc.sx, One * (sc.sy - 1)>>
(* following the flow back leads to where something was *)
Traced == Whole => \A ty \in {1, 2} : LET A == Drawn(sc, ty, All, TRUE, TRUE) IN
  \A k \in sc.wp + 1..Total : \A c \in FlowCells(sc, P, A, k, k - sc.wp) :
    FlowClear(P, A, k, k - sc.wp, c) =>
      LET f == FlowAt(P, A, k, k - sc.wp, c)
          d == <<c[1] + f[1] \div 1000, c[2] + f[2] \div 1000>> IN
      Cardinality(FlowHere(P, A, k, k - sc.wp, c)) = 1 /\ InGrid(sc, d) => d \in Maybe(sc, P, A, k - sc.wp)
Known == Whole => \A ty \in {1, 2} : \A k \in 1..Total : LET A == Drawn(sc, ty, All, TRUE, TRUE) IN Sure(sc, P, A, k) \subseteq Maybe(sc, P, A, k)
PrintCase == Emit /\ Whole => PrintT("@@C " \o ToJson(sc))
=============================================================================
