------------------------------- MODULE DeltaCoder --------------------------------
(* The range image codec. An image is a channel-major sequence of whole numbers of quanta. It is     *)
(* written as run lengths of alternating kind, the first run being of non-zero pixels, and the       *)
(* differences of successive non-zero pixels.                                                        *)
EXTENDS VCommon
(* -- the writer, pixel by pixel: w = [runs, res, last] ------------------------------------------- *)
W0 == [runs |-> <<0>>, res |-> <<>>, last |-> 0]
KindOf(runs) == IF Len(runs) % 2 = 1 THEN 1 ELSE 0
Put(w, v) ==
  LET k == IF v # 0 THEN 1 ELSE 0
      runs == IF KindOf(w.runs) = k THEN [w.runs EXCEPT ![Len(w.runs)] = @ + 1] ELSE Append(w.runs, 1)
  IN IF k = 0 THEN [w EXCEPT !.runs = runs]
     ELSE [runs |-> runs, res |-> Append(w.res, v - w.last), last |-> v]
Encode(img) == FoldLeft(Put, W0, img)
(* -- the reader: run by run; d = [img, k, next, last] -------------------------------------------- *)
Sums(res) == FoldLeft(LAMBDA acc, r : Append(acc, r + (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])), <<>>, res)
Decode(runs, res) ==
  LET v == Sums(res)
      ReadRun(d, n) == [img |-> d.img \o (IF d.k = 1 THEN SubSeq(v, d.used + 1, d.used + n) ELSE [i \in 1..n |-> 0]),
                        k |-> 1 - d.k, used |-> IF d.k = 1 THEN d.used + n ELSE d.used]
  IN FoldLeft(ReadRun, [img |-> <<>>, k |-> 1, used |-> 0], runs).img
Readable(runs, res, n) ==
  LET ones == SumSeq([i \in DOMAIN runs |-> IF i % 2 = 1 THEN runs[i] ELSE 0])
  IN (\A i \in DOMAIN runs : runs[i] >= 0) /\ ones = Len(res) /\ SumSeq(runs) = n
(* -- long images: stretches <<value, count>> of equal neighbours, channel-major --------------------- *)
Stretch(ss) == FoldLeft(LAMBDA acc, s : IF s[2] = 0 THEN acc
                                        ELSE IF acc # <<>> /\ acc[Len(acc)][1] = s[1] THEN [acc EXCEPT ![Len(acc)] = <<s[1], @[2] + s[2]>>]
                                        ELSE Append(acc, <<s[1], s[2]>>), <<>>, ss)
PutMany(w, s) ==
  LET k == IF s[1] # 0 THEN 1 ELSE 0
      runs == IF KindOf(w.runs) = k THEN [w.runs EXCEPT ![Len(w.runs)] = @ + s[2]] ELSE Append(w.runs, s[2])
  IN IF k = 0 THEN [w EXCEPT !.runs = runs]
     ELSE [runs |-> runs, res |-> w.res \o <<<<s[1] - w.last, 1>>, <<0, s[2] - 1>>>>, last |-> s[1]]
EncodeLong(ss) == FoldLeft(PutMany, W0, ss)
(* -- order of pixels: row-major h x w x c to channel-major --------------------------------------- *)
ToChannels(img, h, w, c) == [i \in 1..(h * w * c) |->
   LET ch == (i - 1) \div (h * w)  p == (i - 1) % (h * w) IN img[p * c + ch + 1]]
(* -- quantisation: x in 1/64 quanta ---------------------------------------------------------------*)
NearestTo(q, x) == AbsI(64 * q - x) <= 32
=============================================================================
