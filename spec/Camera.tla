------------------------------- MODULE Camera -------------------------------
(* A calibrated camera on a moving vehicle, prepared with one image at a time.                         *)
(* Lengths in 1/1024 m (points are given in 1/8 m), pixels in 1/1024, times in 2^-20 s (given in 2^-10) *)
(* rotations are matrices of 0 and +-1, angular velocities in 1/8 rad/s, distortion coefficients in 1/32. *)
(*   cal : [f, g, cu, cv, w, h, k (k1 k2 k3 k4 k5), R, T, dir]; f, g: focal lengths; dir: "TB" "BT" "LR" "RL" "GS"           *)
(*   img : [R, T, v, om, tp, trig, done, sh]                                                           *)
EXTENDS VCommon

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Row(m, i) == m[i]
ColOf(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Apply(m, x) == <<Dot(m[1], x), Dot(m[2], x), Dot(m[3], x)>>
ApplyT(m, x) == <<Dot(ColOf(m, 1), x), Dot(ColOf(m, 2), x), Dot(ColOf(m, 3), x)>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Div(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

Rolling(cal) == cal.dir # "GS"
Sideways(cal) == cal.dir \in {"LR", "RL"}
Along(cal, u, v) == CASE cal.dir = "LR" -> u [] cal.dir = "RL" -> cal.w * 1024 - u [] cal.dir = "TB" -> v [] OTHER -> cal.h * 1024 - v
Extent(cal) == IF Sideways(cal) THEN cal.w ELSE cal.h
(* when the pixel is exposed, relative to the time of the pose: the middle of its exposure *)
Readout(img) == img.done - img.trig - img.sh
PixelTime(cal, img, u, v) ==
   IF ~Rolling(cal) THEN 0
   ELSE 1024 * (img.trig - img.tp) + 512 * img.sh + (Readout(img) * (Along(cal, u, v) \div 16) * 16) \div Extent(cal)

(* the camera at time t after the pose: position (world), its velocity (1/8 m/s), how a world offset turns into camera axes *)
CamAt0(cal, img) == Add(Mul(1024, Apply(img.R, cal.T)), Mul(1024, img.T))
CamVel(cal, img) == Add(Mul(8, img.v), Cross(Apply(img.R, img.om), Apply(img.R, cal.T)))
CamPos(cal, img, t) == Add(CamAt0(cal, img), Div(Mul(t, CamVel(cal, img)), 8192))
OmCam(cal, img) == ApplyT(cal.R, img.om)
Turn(cal, img, t, sign, x) == Add(x, Div(Mul(sign, Cross(Div(Mul(t, OmCam(cal, img)), 256), x)), 32768))
ToCam(cal, img, t, P, vf) ==
   LET d == Sub(Add(Mul(128, P), Div(Mul(t, vf), 1024)), CamPos(cal, img, t))
   IN Turn(cal, img, t, -1, ApplyT(cal.R, ApplyT(img.R, d)))
ToWorld(cal, img, t, c) == Add(Apply(img.R, Apply(cal.R, Turn(cal, img, t, 1, c))), CamPos(cal, img, t))

(* pinhole without distortion: pixel (u, v) sees the camera point c *)
Straight(cal) == \A i \in 1..5 : cal.k[i] = 0
Sees(cal, u, v, c, tol) == AbsI((u \div 16 - 64 * cal.cu) * c[1] + 64 * cal.f * c[2]) <= tol * c[1] /\
                           AbsI((v \div 16 - 64 * cal.cv) * c[1] + 64 * cal.g * c[3]) <= tol * c[1]
Ray(cal, u, v, depth) == <<depth, -(((u - 1024 * cal.cu) \div 16) * depth) \div (64 * cal.f), -(((v - 1024 * cal.cv) \div 16) * depth) \div (64 * cal.g)>>
(* the world point a pixel sees at a depth *)
Unproject(cal, img, u, v, depth) == ToWorld(cal, img, PixelTime(cal, img, u, v), Ray(cal, u, v, depth))

(* with distortion, directions in eighths: a = 8 * right/ahead, b = 8 * down/ahead *)
Eighths(c) == c[1] > 0 /\ (8 * c[2]) % c[1] = 0 /\ (8 * c[3]) % c[1] = 0 /\ AbsI(c[2]) <= c[1] /\ AbsI(c[3]) <= c[1]
A(c) == (-8 * c[2]) \div c[1]
B(c) == (-8 * c[3]) \div c[1]
R2(a, b) == a * a + b * b                                           \* in 1/64
Radial(k, a, b) == LET r == R2(a, b) IN 8388608 + k[1] * r * 4096 + k[2] * r * r * 64 + k[5] * r * r * r     \* in 2^-23
Sane(k, a, b) == LET n == Radial(k, a, b) IN 6710887 <= n /\ n <= 10066329                                      \* 0.8 .. 1.2
Bent(k, a, b, tang) == a * Radial(k, a, b) + tang * 32768                                                      \* in 2^-26
BentU(k, a, b) == Bent(k, a, b, 2 * k[3] * a * b + k[4] * (R2(a, b) + 2 * a * a))
BentV(k, a, b) == Bent(k, b, a, 2 * k[4] * a * b + k[3] * (R2(a, b) + 2 * b * b))
PixelOf(f, c, bent) == (f * (bent \div 64)) \div 1024 + 1024 * c
(* bending weak enough for the direction to be recovered by iterating *)
Mild(k, a, b) == LET r == R2(a, b) + 8 IN
   4096 * 2 * AbsI(k[1]) * r + 64 * 4 * AbsI(k[2]) * r * r + 6 * AbsI(k[5]) * r * r * r + 32768 * 6 * (AbsI(k[3]) + AbsI(k[4])) * (AbsI(a) + AbsI(b) + 1) < 2500000

InImage(cal, u, v) == 0 <= u /\ u < 1024 * cal.w /\ 0 <= v /\ v < 1024 * cal.h
(* the whole span of times any pixel of the image, or just outside, is exposed *)
Span(cal, img) == IF Rolling(cal) THEN {1024 * (img.trig - img.tp) + 512 * img.sh + 1024 * Readout(img) * i : i \in {-1, 0, 1, 2}} \cup {0} ELSE {0}
Ahead(cal, img, P, vf) == \A t \in Span(cal, img) : ToCam(cal, img, t, P, vf)[1] > 64
Behind(cal, img, P, vf) == \A t \in Span(cal, img) : ToCam(cal, img, t, P, vf)[1] < -64 
=============================================================================
