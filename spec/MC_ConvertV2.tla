----------------------------- MODULE MC_ConvertV2 -----------------------------
(* Items with every field set lose fields one after another.                                           *)
EXTENDS ConvertV2, Json
CONSTANTS MaxGone, Emit
VARIABLES kind, n, gone, last,
          missing,   \* the paths that are not set, or not set in the first element of a repeated message
          env        \* the paths of the kind: [all, each, list, below]
vars == <<kind, n, gone, last, missing, env>>
Each(m) == m \in {"each0", "eachF", "each-must", "each0?"}
Ends == {"label.box", "label.metadata", "label.association", "label.camera_synced_box", "label.camera_keypoints", "label.laser_keypoints",
         "image.camera_segmentation_label"}
Under(q, p) == p = q \/ (Len(p) > Len(q) /\ SubSeq(p, 1, Len(q) + 1) = q \o ".")
Env(k) ==
  LET rows == TLCEval(SeqToSet(Columns(k)))
      leaves == {r.p : r \in rows} \ {""}
      all == TLCEval(leaves \cup Inner(k) \cup {q \in Ends : q \notin leaves /\ \E p \in leaves : Under(q, p)}) IN
  [all |-> all, each |-> Inner(k) \cup {r.p : r \in {x \in rows : Each(x.m)}}, list |-> {r.p : r \in {x \in rows : x.m \in {"list", "list?"}}},
   below |-> [q \in all |-> {p \in all : Under(q, p)}]]
Text(p) == IF p = "label.id" /\ kind = "projected_box" THEN "abcdefghijklmnopqrstuv_SIDE_LEFT"
           ELSE IF p = "label.most_visible_camera_name" THEN "FRONT_RIGHT" ELSE p
Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Full(p) == IF p = "calibration.intrinsic" THEN <<"[">> \o [i \in 1..9 |-> p \o Digits[i]]
           ELSE IF p \in env.each THEN <<"[">> \o [i \in 1..n |-> IF i = 1 /\ p \in missing THEN "-" ELSE p \o Digits[i]]
           ELSE IF p \in env.list THEN <<"[", p \o "1", p \o "2">> ELSE <<Text(p)>>
(* a repeated message is set while the message around it is and it has elements *)
Kept(p) == IF p \in env.each THEN n > 0 /\ ~\E q \in gone \cap Ends : p \in env.below[q] ELSE p \notin missing
Src == TLCEval([p \in {q \in env.all : Kept(q)} |-> Full(p)])
Init == kind \in Kinds /\ n \in 0..2 /\ gone = {} /\ last = "" /\ missing = {} /\ env = Env(kind) /\ (n # 2 => env.each # {})
Clear == \E p \in env.all \ missing : /\ Cardinality(gone) < MaxGone /\ gone' = gone \cup {p} /\ last' = p
                                      /\ missing' = missing \cup env.below[p] /\ UNCHANGED <<kind, n, env>>
Next == Clear
Spec == Init /\ [][Next]_vars
Out == LET s == Src IN Outcome(kind, s)
Rec == LET s == Src IN Row(kind, s)
(* nothing that is set is lost, nothing shows up in two places *)
Elements(v) == IF v # <<>> /\ v[1] = "[" THEN SeqToSet(Tail(v)) \ {"-"} ELSE SeqToSet(v)
Carried == LET s == Src IN UNION {Elements(s[p]) : p \in {q \in DOMAIN s : ~(q \in Ends \cup Inner(kind))}}
Complete == Out = "row" /\ kind \notin {"projected_box", "synced_box"} =>
              LET w == Rec IN Carried \subseteq UNION {Elements(w[c]) : c \in DOMAIN w}
NotTwice == Out = "row" => LET w == Rec
                               E == TLCEval([c \in DOMAIN w |-> Elements(w[c]) \ {"null", "0", "", "false"}]) IN
              \A c, d \in DOMAIN w : c # d => E[c] \cap E[d] = {}
Nothing == (Out = "nothing") => gone # {}
(* losing a field never changes the value of a column that does not come from it *)
OnlyItsColumns == [][Out = "row" /\ Out' = "row" =>
                       LET v == TLCEval(Rec)
                           w == TLCEval(Rec')
                           rows == TLCEval(Columns(kind)) IN
                       \A i \in DOMAIN rows : v[rows[i].c] # w[rows[i].c] => rows[i].p \in env.below[last'] \/ rows[i].m = "levels"]_vars
PrintCase == Emit => PrintT("@@C " \o ToJson([kind |-> kind, n |-> n, gone |-> SetToSeq(gone)]))
=============================================================================
