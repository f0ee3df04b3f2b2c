----------------------------- MODULE MC_Camera -----------------------------
(* One camera prepared with image after image and queried in between.                                  *)
EXTENDS Camera, Json
CONSTANTS MaxOps, Dirs, Turns, Emit
VARIABLES cal, img, hist
vars == <<cal, img, hist>>
E3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Z90 == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
X90 == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
Rots == [e |-> E3, z |-> Z90, x |-> X90]
NoImg == [R |-> E3, T |-> <<0, 0, 0>>, v |-> <<0, 0, 0>>, om |-> <<0, 0, 0>>, tp |-> 0, trig |-> 0, done |-> 0, sh |-> 0]
Imgs == {[R |-> Rots[r], T |-> <<1, -2, 0>>, v |-> v, om |-> om, tp |-> tp, trig |-> 4, done |-> 4 + 2 + 64, sh |-> 2] :
           r \in Turns, v \in {<<0, 0, 0>>, <<8, -4, 0>>}, om \in {<<0, 0, 0>>, <<0, 1, -2>>}, tp \in {4, 36}}
Init == /\ \E d \in Dirs : \E r \in Turns : cal = [f |-> 64, g |-> 72, cu |-> 30, cv |-> 36, w |-> 64, h |-> 64, k |-> <<0, 0, 0, 0, 0>>, R |-> Rots[r], T |-> <<1, 0, 2>>, dir |-> d]
        /\ img = NoImg /\ hist = <<>>
Prepare == \E i \in Imgs : i # img /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "prepare") /\ img' = i /\ hist' = Append(hist, [op |-> "prepare", img |-> i])
Look == /\ hist # <<>> /\ hist[Len(hist)].op = "prepare"
        /\ \E u \in {0, 30, 64}, v \in {10, 50} : hist' = Append(hist, [op |-> "look", u |-> u * 1024, v |-> v * 1024, depth |-> 8 * 1024])
        /\ UNCHANGED img
Next == Len(hist) < MaxOps /\ (Prepare \/ Look) /\ UNCHANGED cal
Spec == Init /\ [][Next]_vars
Looked == IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].op = "look"
q == hist[Len(hist)]
Near(a, b, t) == \A i \in 1..3 : AbsI(a[i] - b[i]) <= t
P8(p) == Div(Add(p, <<64, 64, 64>>), 128)
T(u, v) == PixelTime(cal, img, u, v)
(* what a pixel sees is seen by that pixel; (1/128 m of rounding to points in 1/8 m is 2 pixels at 8 m) *)
RoundTrip == Looked => LET p == Unproject(cal, img, q.u, q.v, q.depth)
                           c == ToCam(cal, img, T(q.u, q.v), P8(p), <<0, 0, 0>>)
                       IN Near(c, Ray(cal, q.u, q.v, q.depth), 72) /\ Sees(cal, q.u, q.v, c, 64)
(* forward and backward readout mirror each other, all pixels are read between trigger and done *)
Mirror == Looked => LET o == [cal EXCEPT !.dir = CASE cal.dir = "LR" -> "RL" [] cal.dir = "RL" -> "LR" [] cal.dir = "TB" -> "BT" [] cal.dir = "BT" -> "TB" [] OTHER -> "GS"]
                    IN T(q.u, q.v) = PixelTime(o, img, 1024 * cal.w - q.u, 1024 * cal.h - q.v)
Exposed == (Looked /\ Rolling(cal)) => LET t == T(q.u, q.v) + 1024 * img.tp IN 1024 * img.trig <= t - 512 * img.sh /\ t + 512 * img.sh <= 1024 * img.done
(* standing still, the shutter does not matter *)
Still == Looked /\ img.v = <<0, 0, 0>> /\ img.om = <<0, 0, 0>> =>
            Near(Unproject(cal, img, q.u, q.v, q.depth), Unproject([cal EXCEPT !.dir = "GS"], img, q.u, q.v, q.depth), 0)
(* moving along with the vehicle's velocity, without turning, hides the shutter as well *)
Along8 == Looked /\ img.om = <<0, 0, 0>> =>
            LET p == Unproject([cal EXCEPT !.dir = "GS"], img, q.u, q.v, q.depth)
            IN Near(ToCam(cal, img, T(q.u, q.v), P8(p), img.v), ToCam(cal, img, 0, P8(p), <<0, 0, 0>>), 2)
InFront == Looked => ToCam(cal, img, T(q.u, q.v), P8(Unproject(cal, img, q.u, q.v, q.depth)), <<0, 0, 0>>)[1] > 0
PrintCase == (Emit /\ Len(hist) = MaxOps) => PrintT("@@C " \o ToJson([cal |-> cal, hist |-> hist]))
=============================================================================
