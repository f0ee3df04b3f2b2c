--------------------------- MODULE MC_SimLikelihood ---------------------------
(* A feature of few objects, steps and rollouts, filled in sample by sample; then single samples move.  *)
EXTENDS SimLikelihood, Json
CONSTANTS NR, NO, NT, Values, Kinds, Smooths, MaxMoves, Emit
VARIABLES cfg, log, sim, filled, moves
vars == <<cfg, log, sim, filled, moves>>
Cfgs == {c \in [kind : Kinds, min : {0}, max : {4}, bins : {2, 4}, smooth : Smooths, indep : BOOLEAN, agg : BOOLEAN] :
         c.kind = "bernoulli" => c.bins = 2}
Vals(c) == IF c.kind = "bernoulli" THEN {0, 1} ELSE Values
Slots == (1..NR) \X (1..NO) \X (1..NT)
SlotNo(x) == ((x[1] - 1) * NO + x[2] - 1) * NT + x[3]
Init == /\ cfg \in Cfgs /\ filled = 0 /\ moves = 0
        /\ sim = [r \in 1..NR |-> [o \in 1..NO |-> [t \in 1..NT |-> 0]]]
        /\ log \in [1..NO -> [1..NT -> Vals(cfg)]]
Fill == /\ filled < NR * NO * NT
        /\ \E v \in Vals(cfg), x \in Slots : SlotNo(x) = filled + 1 /\ sim' = [sim EXCEPT ![x[1]][x[2]][x[3]] = v]
        /\ filled' = filled + 1 /\ UNCHANGED <<cfg, log, moves>>
Full == filled = NR * NO * NT
(* a simulated sample becomes the logged one *)
Agree == /\ Full /\ moves < MaxMoves /\ moves' = moves + 1
         /\ \E x \in Slots : sim[x[1]][x[2]][x[3]] # log[x[2]][x[3]] /\ sim' = [sim EXCEPT ![x[1]][x[2]][x[3]] = log[x[2]][x[3]]]
         /\ UNCHANGED <<cfg, log, filled>>
SwapRollouts == /\ Full /\ moves < MaxMoves /\ moves' = moves + 1 /\ NR > 1
                /\ sim' = [sim EXCEPT ![1] = sim[2], ![2] = sim[1]] /\ UNCHANGED <<cfg, log, filled>>
Next == Fill \/ Agree \/ SwapRollouts
Spec == Init /\ [][Next]_vars
Of(o, t) == P(cfg, log, sim, o, t)
Proper == Full => \A x \in Cells(log) : LET p == Of(x[1], x[2]) IN 0 <= p.n /\ p.n <= p.d
OneInAll == Full => \A x \in Cells(log) :
              SumOver(0..(Bins(cfg) - 1), LAMBDA b : PBin(cfg, log, sim, x[1], x[2], b).n) = Of(x[1], x[2]).d
(* certain agreement is the best there is *)
Agreed == Full => \A x \in Cells(log) :
            (\A y \in Pool(cfg, log, sim, x[1], x[2]) : Bin(cfg, sim[y[1]][y[2]][y[3]]) = Bin(cfg, log[x[1]][x[2]])) <=>
            Of(x[1], x[2]).d - Of(x[1], x[2]).n = (Bins(cfg) - 1) * cfg.smooth
LnRises == Full => \A x, y \in Cells(log) : LET p == Of(x[1], x[2]) q == Of(y[1], y[2]) IN
             p.d = q.d /\ p.n < q.n /\ p.n > 0 => Ln(p.n, p.d) < Ln(q.n, q.d)
(* an object's own sample coming to agree helps that object's step; other objects and steps are not touched unless pooled *)
OnlyItsPool == [][Full /\ filled' = filled =>
                  \A x \in Cells(log) :
                    LET p == Of(x[1], x[2])
                        q == Of(x[1], x[2])' IN
                    p # q => \E y \in Pool(cfg, log, sim, x[1], x[2]) : sim[y[1]][y[2]][y[3]] # sim'[y[1]][y[2]][y[3]]]_vars
AgreeingHelps == [][(\E x \in Slots : Full /\ sim' = [sim EXCEPT ![x[1]][x[2]][x[3]] = log[x[2]][x[3]]]) =>
                    \E x \in Slots : sim'[x[1]][x[2]][x[3]] = log[x[2]][x[3]] /\ Of(x[2], x[3]).n <= Of(x[2], x[3])'.n]_vars
OrderOfRollouts == [][SwapRollouts => \A x \in Cells(log) : Of(x[1], x[2]) = Of(x[1], x[2])']_vars
PrintCase == Emit /\ Full /\ moves = 0 => PrintT("@@C " \o ToJson([cfg |-> cfg, log |-> log, sim |-> sim]))
=============================================================================
