----------------------------- MODULE MC_DeltaCoder -------------------------------
(* A writer sends pixels; a reader may start at any time on what was sent; readers accept streams    *)
(* whose runs were cut in two by empty runs.                                                         *)
EXTENDS DeltaCoder, Json
CONSTANTS MaxAbs, MaxPixels, Emit
Values == (0 - MaxAbs)..MaxAbs
VARIABLES img, w
vars == <<img, w>>
Init == img = <<>> /\ w = W0
Next == Len(img) < MaxPixels /\ \E v \in Values : img' = Append(img, v) /\ w' = Put(w, v)
Spec == Init /\ [][Next]_vars
RoundTrip == Decode(w.runs, w.res) = img
WellFormed == Readable(w.runs, w.res, Len(img))
Minimal == \A i \in 2..Len(w.runs) : w.runs[i] > 0
FirstKind == Len(img) > 0 => ((w.runs[1] = 0) = (img[1] = 0))
Batch == Encode(img) = w
(* cutting a run by an empty run of the other kind changes nothing *)
Cuttable == \A i \in DOMAIN w.runs : \A k \in 0..w.runs[i] :
   Decode(SubSeq(w.runs, 1, i - 1) \o <<k, 0, w.runs[i] - k>> \o SubSeq(w.runs, i + 1, Len(w.runs)), w.res) = img
(* two different images have different codes *)
Injective == \A v1, v2 \in Values : v1 # v2 => Put(w, v1) # Put(w, v2)
ChannelOrder == \A h, ww \in 1..3, c \in 1..2 : h * ww * c = Len(img) =>
   LET t == ToChannels(img, h, ww, c) IN
   \A y \in 0..(h - 1), x \in 0..(ww - 1), k \in 0..(c - 1) : t[k * h * ww + y * ww + x + 1] = img[(y * ww + x) * c + k + 1]
(* stretch by stretch is the same as pixel by pixel *)
Singles(v) == [i \in DOMAIN v |-> <<v[i], 1>>]
LongWay == LET e == EncodeLong(Stretch(Singles(img))) IN e.runs = w.runs /\ Stretch(e.res) = Stretch(Singles(w.res))
Grows == [][Len(img') = Len(img) + 1 /\ Len(w'.res) >= Len(w.res) /\ Len(w'.runs) >= Len(w.runs)]_vars
PrintCase == (Emit /\ Len(img) > 0) => PrintT("@@C " \o ToJson([img |-> img, runs |-> w.runs, res |-> w.res]))
=============================================================================
