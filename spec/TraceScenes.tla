----------------------------- MODULE TraceScenes -----------------------------
(* Events, with tracks trs [id, type, n, off]: off the steps at which it is not valid. Objects got  *)
(* are [id, type, n, off, v], values as runs <<first, step, number>>; err an exception or "".        *)
(* "traj": ops applied in turn. "ids": sim, gen, evals, evalg. "scene": kind. "back": sc, kind, useLog. *)
(* "pairs": [name, want, got].                                                                       *)
EXTENDS Scenes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Cur == 10
Fut == 80
Set(s) == {s[i] : i \in DOMAIN s}
Oks(r) == [k \in 1 .. r.n |-> k \notin Set(r.off)]
Tracks(s) == [i \in DOMAIN s |-> [id |-> s[i].id, type |-> s[i].type, ok |-> Oks(s[i])]]
Spread(runs) == FoldLeft(LAMBDA a, r : a \o [k \in 1 .. r[3] |-> r[1] + (k - 1) * r[2]], <<>>, runs)
Objects(s) == [i \in DOMAIN s |-> [id |-> s[i].id, type |-> s[i].type, ok |-> Oks(s[i]), v |-> [f \in 1 .. 7 |-> Spread(s[i].v[f])]]]
Compare(want, e) ==
  IF want = Failed THEN Chk(e.err = "ValueError", "what cannot be is refused")
  ELSE IF e.err # "" THEN {"not refused: " \o e.err}
  ELSE LET got == TLCEval(Objects(e.got)) IN
       Chk([n \in DOMAIN got |-> got[n].id] = [n \in DOMAIN want |-> want[n].id], "the objects, in order") \cup
       (IF Len(got) # Len(want) THEN {} ELSE
       Chk(\A n \in DOMAIN got : got[n].type = want[n].type, "types of objects") \cup
       Chk(\A n \in DOMAIN got : got[n].ok = want[n].ok, "when objects are valid") \cup
       Chk(\A n \in DOMAIN got : \A f \in 1 .. 4 : got[n].v[f] = want[n].v[f], "where objects are") \cup
       Chk(\A n \in DOMAIN got : \A f \in 5 .. 7 : got[n].v[f] = want[n].v[f], "how large objects are"))
Do(ts, o) == IF ts = Failed THEN Failed
             ELSE CASE o[1] = "slice" -> Part(ts, o[2], o[3]) [] o[1] = "gather" -> Pick(ts, o[2]) [] o[1] = "ids" -> ById(ts, o[2])
Traj(e) == Compare(FoldLeft(LAMBDA ts, o : TLCEval(Do(ts, o)), TLCEval(FromScenario(Tracks(e.trs))), e.ops), e)
IdsV(e) == LET trs == TLCEval(Tracks(e.trs)) IN
  Chk(e.sim = SimIds(trs, Cur), "who is simulated") \cup Chk(e.gen = SimIds(trs, Cur), "who is in a made scene") \cup
  Chk(e.evals = EvalIds(trs, Cur, "sim", e.sdc, e.pred), "who is evaluated") \cup Chk(e.evalg = EvalIds(trs, Cur, "gen", e.sdc, e.pred), "who is evaluated in a made scene")
SceneV(e) == Compare(TLCEval(ToScene(Tracks(e.trs), Cur, Fut, e.kind)), e)
BackV(e) == LET sc == TLCEval([n \in DOMAIN e.sc |-> [id |-> e.sc[n].id, type |-> e.sc[n].type, ok |-> <<>>, v |-> [f \in 1 .. 7 |-> [k \in 1 .. e.sc[n].n |-> Sim(n, k, f)]]]])
                trs == TLCEval(Tracks(e.trs)) IN
  Compare(TLCEval(IF e.kind = "sim" THEN FromScene(sc, trs, Cur, e.useLog) ELSE FromMade(sc, trs, Cur)), e)
Verdict(e) ==
  IF e.ended # "" THEN {"no other end: " \o e.ended}
  ELSE CASE e.t = "traj" -> Traj(e) [] e.t = "ids" -> IdsV(e) [] e.t = "scene" -> SceneV(e) [] e.t = "back" -> BackV(e)
         [] e.t = "pairs" -> UNION {Chk(p[2] = p[3], p[1]) : p \in Set(e.pairs)}
         [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
