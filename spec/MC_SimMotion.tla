----------------------------- MODULE MC_SimMotion -----------------------------
(* A trajectory grows step by step: positions by one of Steps, headings by one of Turns.                 *)
EXTENDS SimTraffic, Json
CONSTANTS StepsX, StepsY, Turns, MaxT, Emit
VARIABLES p
Vars == <<p>>
N == Len(p.x)
Init == p = [x |-> <<0>>, y |-> <<0>>, z |-> <<0>>, h |-> <<0>>, v |-> <<TRUE>>]
Grow(dx, dy, dh, ok) ==
  p' = [x |-> Append(p.x, p.x[N] + dx), y |-> Append(p.y, p.y[N] + dy), z |-> Append(p.z, p.z[N] + dy),
        h |-> Append(p.h, Wrap(p.h[N] + dh)), v |-> Append(p.v, ok)]
Next == N < MaxT /\ \E dx \in StepsX : \E dy \in StepsY : \E dh \in Turns : \E ok \in {TRUE, N % 2 = 0} : Grow(dx, dy, dh, ok)
Spec == Init /\ [][Next]_Vars
Inner == 2..(N - 1)
Back(s) == [i \in 1..N |-> s[N + 1 - i]]
(* run backwards: the same speeds, turns the other way *)
Rev == [x |-> Back(p.x), y |-> Back(p.y), z |-> Back(p.z), h |-> Back(p.h), v |-> Back(p.v)]
Backwards == \A t \in Inner : /\ Norm100(Move(Rev, N + 1 - t)) = Norm100(Move(p, t))
                              /\ (Turn2(p.h, t) # -180 => Turn2(Rev.h, N + 1 - t) = -Turn2(p.h, t))
(* turning or shifting the frame changes nothing *)
Shifted == [p EXCEPT !.x = [i \in 1..N |-> -p.y[i] + 300], !.y = [i \in 1..N |-> p.x[i] - 70], !.h = [i \in 1..N |-> Wrap(p.h[i] + 130)]]
Frames == \A t \in Inner : Norm100(Move(Shifted, t)) = Norm100(Move(p, t)) /\ Turn2(Shifted.h, t) = Turn2(p.h, t)
(* a turn of less than a quarter per step is told exactly, across the wrap too *)
Turned == \A t \in Inner : Turn2(p.h, t) = Wrap(Wrap(p.h[t + 1] - p.h[t]) + Wrap(p.h[t] - p.h[t - 1]))
Smooth == \A t \in 3..(N - 2) : AbsI(Turn4(p.h, t)) <= 2 * (Max(Turns) - Min(Turns))
(* what an acceleration is made of is seen *)
Seen == \A t \in AccelOk(p.v) : t \in 3..(N - 2) /\ (t - 2 >= 1 => p.v[t - 2]) /\ p.v[t] /\ p.v[t + 2]
PrintCase == (Emit /\ N = MaxT) => PrintT("@@C " \o ToJson(p))
=============================================================================
