---------------------------- MODULE MC_MetricsTools ----------------------------
(* Files written object by object, objects of different frames changing places.                        *)
EXTENDS MetricsTools, Json
CONSTANTS MaxP, MaxG, Ctxs, Cams, Times, Kinds, Emit
VARIABLES tool, P, G, done
vars == <<tool, P, G, done>>
Kind == [plain |-> [pts |-> 6, top |-> 6, dd |-> 0, mv |-> "FRONT"], few |-> [pts |-> 5, top |-> 5, dd |-> 0, mv |-> "SIDE_LEFT"],
         none |-> [pts |-> 0, top |-> 0, dd |-> 1, mv |-> "FRONT"], side |-> [pts |-> 9, top |-> 0, dd |-> 0, mv |-> "FRONT_RIGHT"],
         hidden |-> [pts |-> 9, top |-> 9, dd |-> 0, mv |-> ""], hard |-> [pts |-> 50, top |-> 50, dd |-> 2, mv |-> "FRONT_LEFT"],
         easy |-> [pts |-> 2, top |-> 1, dd |-> 1, mv |-> "SIDE_RIGHT"]]
Seen == [ctx : Ctxs, cam : Cams, ts : Times]
Init == tool \in Tools /\ P = <<>> /\ G = <<>> /\ done = FALSE
NewP(w) == ~done /\ Len(P) < MaxP /\ P' = Append(P, w) /\ UNCHANGED <<tool, G, done>>
NewG(w, k) == ~done /\ Len(G) < MaxG /\ G' = Append(G, w @@ Kind[k]) /\ UNCHANGED <<tool, P, done>>
Flip(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
SwapP == ~done /\ \E i \in 1..(Len(P) - 1) : Key(tool, P[i]) # Key(tool, P[i + 1]) /\ P' = Flip(P, i) /\ UNCHANGED <<tool, G, done>>
SwapG == ~done /\ \E i \in 1..(Len(G) - 1) : Key(tool, G[i]) # Key(tool, G[i + 1]) /\ G' = Flip(G, i) /\ UNCHANGED <<tool, P, done>>
Close == ~done /\ done' = TRUE /\ UNCHANGED <<tool, P, G>>
Next == (\E w \in Seen : NewP(w) \/ \E k \in Kinds : NewG(w, k)) \/ SwapP \/ SwapG \/ Close
Spec == Init /\ [][Next]_vars
F == Frames(tool, P, G)
EachPredictionOnce == \A i \in DOMAIN P : Cardinality({f \in F : i \in SeqToSet(f.p)}) = 1
EachCountedTruthOnce == \A i \in DOMAIN G : Cardinality({f \in F : i \in SeqToSet(f.g)}) = IF Counted(tool, G[i]) THEN 1 ELSE 0
NothingElse == \A f \in F : f.p # <<>> \/ f.g # <<>>
OneMoment == \A f \in F : \A i \in SeqToSet(f.p) : \A j \in SeqToSet(f.g) : Key(tool, P[i]) = Key(tool, G[j])
Graded == tool # "trk" => \A f \in F : \A i \in DOMAIN f.lv : f.lv[i] \in {1, 2} /\ (G[f.g[i]].dd # 0 => f.lv[i] = G[f.g[i]].dd)
(* what the frames hold, whatever the order in the files *)
Content(PP, GG) == {[k |-> f.k, p |-> Bag([i \in DOMAIN f.p |-> PP[f.p[i]]]), g |-> Bag([i \in DOMAIN f.g |-> GG[f.g[i]]])] : f \in Frames(tool, PP, GG)}
OrderDoesNotMatter == [][Len(P') = Len(P) /\ Len(G') = Len(G) => Content(P, G) = Content(P', G')]_vars
PrintCase == (Emit /\ done) => PrintT("@@C " \o ToJson([tool |-> tool, P |-> P, G |-> G]))
=============================================================================
