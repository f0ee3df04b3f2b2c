----------------------------- MODULE TraceCamera -----------------------------
(* Events of one camera: prepare - an image is set; world - the world point a pixel sees at a depth, and *)
(* that point projected again; image - a world point (1/8 m) moving with velocity v projected, and the   *)
(* answer taken back to the world; vehicle - the same as world in the vehicle's frame; in - the bounds.   *)
(* crash: the camera did not answer. Numbers out of range arrive as huge ones.                           *)
EXTENDS Camera, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, cam, now
Huge == 1000000000
Near(a, b, t) == \A i \in 1..3 : AbsI(a[i]) < Huge /\ AbsI(a[i] - b[i]) <= t
Inner(cal, u, v, m) == m <= u /\ u < 1024 * cal.w - m /\ m <= v /\ v < 1024 * cal.h - m
Outer(cal, u, v, m) == ~(-m <= u /\ u < 1024 * cal.w + m /\ -m <= v /\ v < 1024 * cal.h + m)
(* the flag: in front and, if asked, within the image (m: what rounding may move the pixel) *)
Flag(cal, e, u, v, m) == Chk(e.ok \/ (e.check /\ ~Inner(cal, u, v, m)), "a visible point is reported visible") \cup
                         Chk(~e.ok \/ ~e.check \/ ~Outer(cal, u, v, m), "a point outside the image is flagged")
Some(cal, u, v) == -512 * cal.w < u /\ u < 1536 * cal.w /\ -512 * cal.h < v /\ v < 1536 * cal.h
(* turning is linear in time: its error is of second order *)
Slack(img, depth) == IF img.om = <<0, 0, 0>> THEN 0 ELSE AbsI(depth) \div 384
(* the point crosses the rows slowly enough for its time to be found *)
L1(a) == AbsI(a[1]) + AbsI(a[2]) + AbsI(a[3])
Tame(cal, img, depth, vf) ==
   \/ ~Rolling(cal)
   \/ 4 * MaxI(cal.f, cal.g) * Readout(img) * (L1(CamVel(cal, img)) \div 8 + L1(vf) + (L1(img.om) * depth) \div 8192 + 1) <= Extent(cal) * depth
World(cal, img, e) ==
   (IF Straight(cal) THEN Chk(Near(e.p, Unproject(cal, img, e.u, e.v, e.depth), 6), "a pixel sees the point of its time") ELSE {}) \cup
   IF ~Tame(cal, img, e.depth, <<0, 0, 0>>) THEN {} ELSE
   Chk(AbsI(e.uvd[1] - e.u) <= e.tol /\ AbsI(e.uvd[2] - e.v) <= e.tol, "the point a pixel sees is seen at that pixel") \cup
   Chk(AbsI(e.uvd[3] - e.depth) <= 3 + Slack(img, e.depth), "the depth comes back") \cup Flag(cal, e, e.u, e.v, e.tol)
Image(cal, img, e) ==
   LET u == e.uvd[1] IN LET v == e.uvd[2] IN LET d == e.uvd[3] IN
   IF Behind(cal, img, e.p, e.v) THEN Chk(~e.ok /\ e.uvd = <<-1024, -1024, -1024>>, "a point behind the camera is flagged")
   ELSE IF ~Ahead(cal, img, e.p, e.v) THEN {}
   ELSE IF Straight(cal) THEN
       IF ~Some(cal, u, v) THEN Chk(~e.check \/ ~e.ok, "a point outside the image is flagged")
       ELSE LET c == ToCam(cal, img, PixelTime(cal, img, u, v), e.p, e.v)
            IN Chk(c[1] > 0 \/ ~Tame(cal, img, ToCam(cal, img, 0, e.p, e.v)[1], e.v), "a point ahead is projected") \cup
               (IF c[1] <= 0 \/ c[1] > 32768 \/ ~Tame(cal, img, c[1], e.v) THEN {} ELSE
                 Chk(Sees(cal, u, v, c, 6 + 32000 \div c[1]), "a point is projected where its pixel's time sees it") \cup
                 Chk(AbsI(d - c[1]) <= 6, "the depth is the distance along the camera's axis") \cup
                 Flag(cal, e, u, v, 2) \cup
                 Chk(e.v # <<0, 0, 0>> \/ Near(e.back, Mul(128, e.p), 8 + Slack(img, 2 * d)), "projecting back recovers the point"))
   ELSE IF Rolling(cal) THEN {}
   ELSE LET c == ToCam(cal, img, 0, e.p, e.v)
        IN IF ~Eighths(c) THEN {}
           ELSE LET a == A(c) IN LET b == B(c) IN
                Chk(AbsI(d - c[1]) <= 2, "the depth is the distance along the camera's axis") \cup
                IF Sane(cal.k, a, b)
                THEN Chk(AbsI(u - PixelOf(cal.f, cal.cu, BentU(cal.k, a, b))) <= 2 /\ AbsI(v - PixelOf(cal.g, cal.cv, BentV(cal.k, a, b))) <= 2, "a point is projected through the distortion") \cup
                     Flag(cal, e, u, v, 2) \cup
                     Chk(~Mild(cal.k, a, b) \/ Near(e.back, Mul(128, e.p), 3), "projecting back recovers the point")
                ELSE Chk(~e.ok, "too strong a distortion is flagged") \cup
                     Chk((a >= 0) = (u >= 1024 * cal.cu) \/ a = 0, "the side a point overshoots on") \cup
                     Chk((b >= 0) = (v >= 1024 * cal.cv) \/ b = 0, "the side a point overshoots on") \cup
                     Chk(~InImage(cal, u, v), "a point with too strong a distortion is outside")
Verdict(e, cal, img) ==
  CASE e.k = "prepare" -> Chk(~Rolling(e.cal) \/ AbsI(e.offset + PixelTime(e.cal, e.img, 1024 * e.cal.cu, 1024 * e.cal.cv)) <= 2, "the time of the principal point")
    [] e.k = "world" -> World(cal, img, e)
    [] e.k = "image" -> Image(cal, img, e)
    [] e.k = "vehicle" -> Chk(~Straight(cal) \/ Near(e.p, Add(Apply(cal.R, Ray(cal, e.u, e.v, e.depth)), Mul(1024, cal.T)), 3), "a pixel's ray in the vehicle's frame")
    [] e.k = "in" -> Chk(e.ok = InImage(cal, e.u, e.v), "the bounds of the image")
    [] e.k = "real" -> Chk(AbsI(e.uvd[1] - e.u) <= e.tol /\ AbsI(e.uvd[2] - e.v) <= e.tol, "the point a pixel sees is seen at that pixel") \cup
                       Chk(AbsI(e.uvd[3] - e.depth) <= 6 * (1 + e.depth \div 8192), "the depth comes back") \cup
                       Chk(e.ok, "a visible point is reported visible")
    [] OTHER -> {"the camera answers"}
Init == l = 1 /\ bad = <<>> /\ cam = <<>> /\ now = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ IF e.k = "prepare" THEN cam' = e.cal /\ now' = e.img ELSE UNCHANGED <<cam, now>>
           /\ LET v == Verdict(e, cam, now)
              IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad, cam, now>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
