-------------------------------- MODULE Scenes --------------------------------
(* Scenarios, the scenes simulated from them, and the trajectories of either. A track is           *)
(* [id, type, ok]: ok says at which steps it is valid. The value of field f of track i at step k is *)
(* a number that tells all three; fields 1..4 are x, y, z, heading, 5..7 are length, width, height. *)
(* An object of a set of trajectories is [id, type, ok, v]: v[f] its values over time.             *)
EXTENDS VCommon
Log(i, k, f) == 1000 * i + 10 * k + f
Sim(j, k, f) == 500000 + 1000 * j + 10 * k + f
States(i, tr) == [id |-> tr.id, type |-> tr.type, ok |-> tr.ok, v |-> [f \in 1 .. 7 |-> [k \in DOMAIN tr.ok |-> Log(i, k, f)]]]
FromScenario(trs) == [i \in DOMAIN trs |-> States(i, trs[i])]
Failed == <<[id |-> -1]>>
(* part of the time: as in Python, ends count from the back when negative; 1000 is no end *)
Bound(x, n) == IF x < 0 THEN MaxI(0, n + x) ELSE MinI(x, n)
PartOf(s, a, b) == SubSeq(s, Bound(a, Len(s)) + 1, Bound(b, Len(s)))
Part(ts, a, b) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.ok = PartOf(@, a, b), !.v = [f \in 1 .. 7 |-> PartOf(@[f], a, b)]]]
Pick(ts, idx) == [n \in DOMAIN idx |-> ts[idx[n]]]
(* objects by id: each must be there, once *)
Known1(ts, ids) == \A n \in DOMAIN ids : Cardinality({i \in DOMAIN ts : ts[i].id = ids[n]}) = 1
PlaceOf(ts, id) == CHOOSE i \in DOMAIN ts : ts[i].id = id
ById(ts, ids) == IF Known1(ts, ids) THEN [n \in DOMAIN ids |-> ts[PlaceOf(ts, ids[n])]] ELSE Failed
(* who is simulated: what is valid now (cur: steps of history before now); who is evaluated *)
NowOk(trs, cur) == SelectSeq(trs, LAMBDA r : r.ok[cur + 1])
SimIds(trs, cur) == [n \in DOMAIN NowOk(trs, cur) |-> NowOk(trs, cur)[n].id]
EvalIds(trs, cur, kind, sdc, pred) == IF kind = "gen" THEN SimIds(trs, cur)
  ELSE SetToSortSeq({trs[sdc].id} \cup {trs[pred[n]].id : n \in DOMAIN pred}, LAMBDA a, b : a < b)
(* the scene that follows the log: the future of agents to be simulated, or all of it when a scene is made from nothing *)
ToScene(trs, cur, fut, kind) ==
  LET ts == ById(FromScenario(trs), SimIds(trs, cur)) IN
  IF ts = Failed THEN Failed
  ELSE LET part == IF kind = "sim" THEN Part(ts, cur + 1, 1000) ELSE ts IN
       IF \A n \in DOMAIN part : Len(part[n].ok) = (IF kind = "sim" THEN fut ELSE cur + 1 + fut) THEN part ELSE Failed
(* and back: history, then the scene; sizes stay as they are now; valid all the time or as in the log *)
Same(x, n) == [k \in 1 .. n |-> x]
FromScene(sc, trs, cur, useLog) ==
  LET full == ById(FromScenario(trs), [n \in DOMAIN sc |-> sc[n].id]) IN
  IF full = Failed THEN Failed
  ELSE LET hist == Part(full, 0, cur + 1)
           later == Part(full, cur + 1, 1000) IN
       [n \in DOMAIN sc |-> LET len == Len(sc[n].v[1]) IN
         [id |-> sc[n].id, type |-> hist[n].type,
          ok |-> hist[n].ok \o (IF useLog THEN later[n].ok ELSE Same(TRUE, len)),
          v |-> [f \in 1 .. 7 |-> hist[n].v[f] \o (IF f <= 4 THEN sc[n].v[f] ELSE Same(hist[n].v[f][cur + 1], len))]]]
(* a scene made from nothing: everything is its own, but what is valid now in the log is valid all the time *)
FromMade(sc, trs, cur) ==
  LET full == ById(FromScenario(trs), [n \in DOMAIN sc |-> sc[n].id]) IN
  IF full = Failed THEN Failed ELSE [n \in DOMAIN sc |-> [sc[n] EXCEPT !.ok = Same(full[n].ok[cur + 1], Len(sc[n].v[1]))]]
=============================================================================
