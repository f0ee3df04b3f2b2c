------------------------------ MODULE MC_Scenes ------------------------------
(* A log of a few tracks over a few steps: the scene that follows it, and its trajectories.        *)
EXTENDS Scenes, Json
CONSTANTS Ids, Tracks, Cur, Fut, Emit
VARIABLES trs, steps
Init == trs = <<>> /\ steps \in {Cur + 1 + Fut, Cur + Fut, Cur + 1}
Next == /\ Len(trs) < Tracks
        /\ \E id \in Ids, ok \in [1 .. steps -> BOOLEAN] : trs' = Append(trs, [id |-> id, type |-> 1 + (id % 3), ok |-> ok])
        /\ UNCHANGED steps
Spec == Init /\ [][Next]_<<trs, steps>>
Unique == Cardinality({trs[i].id : i \in DOMAIN trs}) = Len(trs)
Whole == steps = Cur + 1 + Fut
Follow == ToScene(trs, Cur, Fut, "sim")
Made == ToScene(trs, Cur, Fut, "gen")
Works == (trs # <<>> /\ Whole /\ Unique) => Follow # Failed /\ Made # Failed
Fails == (trs # <<>> /\ ~Whole /\ SimIds(trs, Cur) # <<>>) => Follow = Failed /\ Made = Failed
(* there and back: the log of who is valid now, but for the sizes, which are those of now *)
Back == (trs # <<>> /\ Whole /\ Unique) =>
  LET want == ById(FromScenario(trs), SimIds(trs, Cur))
      got == FromScene(Follow, trs, Cur, TRUE) IN
  /\ DOMAIN got = DOMAIN want
  /\ \A n \in DOMAIN want : /\ got[n].id = want[n].id /\ got[n].type = want[n].type /\ got[n].ok = want[n].ok
                            /\ \A f \in 1 .. 7 : IF f <= 4 THEN got[n].v[f] = want[n].v[f]
                                                 ELSE \A k \in 1 .. steps : got[n].v[f][k] = want[n].v[f][MinI(k, Cur + 1)]
(* simulated objects are there all the time after now, in any scene *)
AllTheTime == (trs # <<>> /\ Whole /\ Unique) =>
  /\ \A n \in DOMAIN Follow : LET o == FromScene(Follow, trs, Cur, FALSE)[n] IN \A k \in Cur + 1 .. steps : o.ok[k]
  /\ \A n \in DOMAIN Made : LET o == FromMade(Made, trs, Cur)[n] IN o.v = Made[n].v /\ \A k \in 1 .. steps : o.ok[k]
(* the scene from nothing has the one that follows the log at its end *)
EndsAlike == (trs # <<>> /\ Whole /\ Unique) => Part(Made, Cur + 1, 1000) = Follow
Halves == \A a \in 0 .. steps : LET ts == FromScenario(trs) IN
  \A i \in DOMAIN ts : Part(ts, 0, a)[i].v[1] \o Part(ts, a, 1000)[i].v[1] = ts[i].v[1] /\ Part(ts, 0, a - steps)[i].ok = (IF a = steps THEN <<>> ELSE Part(ts, 0, a)[i].ok)
PrintCase == (Emit /\ trs # <<>>) => PrintT("@@C " \o ToJson([trs |-> trs, steps |-> steps]))
=============================================================================
