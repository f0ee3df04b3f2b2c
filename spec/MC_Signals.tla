------------------------------- MODULE MC_Signals -------------------------------
(* Signals along a scenario: lanes come into view, change state, go out of view. The converter       *)
(* writes one step's slots at a time.                                                                *)
EXTENDS Conversion, Json
CONSTANTS Lanes, MaxT, Emit
VARIABLES sig, seen, cfg, out
vars == <<sig, seen, cfg, out>>
Init == sig = <<>> /\ seen = <<>> /\ out = <<>> /\ cfg = [np |-> 0]
Config == /\ cfg.np = 0
          /\ \E np \in 1..MaxT, nf \in 0..2, sl \in 0..2 : cfg' = [np |-> np, nf |-> nf, sl |-> sl, na |-> 1, nm |-> 1, src |-> 1]
          /\ UNCHANGED <<sig, seen, out>>
Live == cfg.np > 0 /\ out = <<>> /\ Len(sig) < MaxT
LanesOf(x) == {x[k].lane : k \in DOMAIN x}
Appear == \E ln \in Lanes \ LanesOf(seen), st \in 1..2 : Live /\ seen' = Append(seen, [lane |-> ln, state |-> st]) /\ UNCHANGED <<sig, cfg, out>>
Vanish == \E ln \in LanesOf(seen) : Live /\ seen' = SelectSeq(seen, LAMBDA x : x.lane # ln) /\ UNCHANGED <<sig, cfg, out>>
Change == \E k \in DOMAIN seen : Live /\ seen' = [seen EXCEPT ![k].state = 3 - @] /\ UNCHANGED <<sig, cfg, out>>
Tick == Live /\ sig' = Append(sig, seen) /\ UNCHANGED <<seen, cfg, out>>
SlotsOf(t) == [k \in 1..cfg.sl |-> IF SignalAt(sig, t, k, cfg) THEN sig[t][k] ELSE [lane |-> -1, state |-> -1]]
Convert == /\ cfg.np > 0 /\ Len(sig) = MaxT /\ Len(out) < Steps(cfg)
           /\ out' = Append(out, SlotsOf(Len(out) + 1)) /\ UNCHANGED <<sig, seen, cfg>>
Next == Config \/ Appear \/ Vanish \/ Change \/ Tick \/ Convert
Spec == Init /\ [][Next]_vars
Whole == cfg.np > 0 /\ Len(out) = Steps(cfg)
(* a step with at most as many signals as slots loses none, and its slots name no other lane *)
Kept == Whole => \A t \in DOMAIN out : LET got == {x \in SeqToSet(out[t]) : x.lane # -1}
                                           src == IF t \in DOMAIN sig THEN SeqToSet(sig[t]) ELSE {}
                                       IN got \subseteq src /\ (Cardinality(src) <= cfg.sl => got = src)
(* a lane that is in view with the same state in two steps looks the same in both *)
NoGhost == Whole => \A t \in DOMAIN out : t > Len(sig) => \A k \in DOMAIN out[t] : out[t][k].lane = -1
Packed == Whole => \A t \in DOMAIN out : \A k \in 2..cfg.sl : out[t][k].lane # -1 => out[t][k - 1].lane # -1
PrintCase == (Emit /\ Whole) => PrintT("@@C " \o ToJson([sig |-> sig, np |-> cfg.np, nf |-> cfg.nf, sl |-> cfg.sl]))
=============================================================================
