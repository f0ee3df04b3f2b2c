------------------------------ MODULE MC_Submission ------------------------------
(* A submission is put together object by object: every arrangement of up to MaxM prediction sets of    *)
(* up to two joint predictions of up to MaxT objects out of three, against every set of required agents. *)
EXTENDS Motion, Json
CONSTANTS MaxM, MaxT, Emit
VARIABLES mm, req
Cfg == [tps |-> 1, pps |-> 1, hist |-> 0, fut |-> 1, slo |-> 0, shi |-> 100, sclo |-> 1000, schi |-> 1000,
        steps |-> <<[step |-> 0, lat |-> 2000, lon |-> 4000]>>, k |-> 2]
St(x) == <<1, x, 0, 1, 0, 4, 2, 40, 0>>
Sc == [id |-> "s", req |-> req,
       tracks |-> [i \in 1..3 |-> [id |-> i, type |-> 1, st |-> <<St(0), St(10)>>]]]
Obj(i) == [id |-> i, x |-> <<10>>, y |-> <<0>>]
Init == mm = <<>> /\ req \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0, 1>>, <<>>}
NewSet == Len(mm) < MaxM /\ mm' = Append(mm, <<>>)
NewJoint == /\ mm # <<>> /\ Len(Last(mm)) < 2
            /\ mm' = [mm EXCEPT ![Len(mm)] = Append(@, [c |-> 8, t |-> <<>>])]
NewObject == /\ mm # <<>> /\ Last(mm) # <<>> /\ Len(Last(Last(mm)).t) < MaxT
             /\ \E i \in 1..3 : mm' = [mm EXCEPT ![Len(mm)][Len(mm[Len(mm)])].t = Append(@, Obj(i))]
Next == (NewSet \/ NewJoint \/ NewObject) /\ UNCHANGED req
Spec == Init /\ [][Next]_<<mm, req>>
Count(j, id) == CountIn(j.t, LAMBDA t : t.id = id)
(* said differently: each joint prediction of a set has the same count of every object, and these      *)
(* counts over all sets add up to one for the required objects and zero for the others                  *)
Uniform(m) == \A i, k \in DOMAIN m : \A id \in 1..3 : Count(m[i], id) = Count(m[k], id)
Total(id) == SumOver(DOMAIN mm, LAMBDA i : IF mm[i] = <<>> THEN 0 ELSE Count(mm[i][1], id))
Need(id) == IF (id - 1) \in SeqToSet(req) THEN 1 ELSE 0
Same == Accept(Cfg, Sc, [id |-> "s", mm |-> mm]) = ((\A i \in DOMAIN mm : Uniform(mm[i])) /\ \A id \in 1..3 : Total(id) = Need(id))
PrintCase == Emit => PrintT("@@C " \o ToJson([req |-> req, mm |-> [i \in DOMAIN mm |-> [k \in DOMAIN mm[i] |-> Ids(mm[i][k])]]]))
=============================================================================
