---------------------------- MODULE TraceSimSubmission ---------------------------
(* Events: scene - one scene offered; set - one rollout set; ids - which agents are simulated and     *)
(* evaluated. exc is the class of the exception raised, "" when accepted.                            *)
EXTENDS SimSubmission, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Judge(ok, exc) == IF ok THEN Chk(exc = "", "a well-formed submission is accepted")
                  ELSE Chk(exc # "", "a malformed submission is rejected") \cup Chk(exc \in {"", "ValueError"}, "rejections are value errors")
Verdict(e) ==
  CASE e.k = "scene" -> Judge(SceneOk(e.tracks, e.scene, e.ch), e.exc)
    [] e.k = "set" -> Judge(SetOk(e.tracks, e.r, e.ch), e.exc)
    [] e.k = "ids" -> IF e.exc # "" THEN {"agents are told"}
                      ELSE Chk(e.agents = Agents(e.sc.tracks), "simulated agents are those valid now") \cup
                           Chk(SeqToSet(e.evaluated) = Evaluated(e.sc, e.ch) /\ Distinct(e.evaluated), "evaluated agents, each once") \cup
                           Chk(e.ch # "sim_agents" \/ \A i \in 2..Len(e.evaluated) : e.evaluated[i - 1] < e.evaluated[i], "evaluated agents in order") \cup
                           Chk(e.steps = Steps(e.ch) /\ e.rollouts = Rollouts /\ e.current = CurrentStep, "configuration of the challenge")
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
