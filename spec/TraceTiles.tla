----------------------------- MODULE TraceTiles -----------------------------
(* Events. "cut": g, size, got (tiles as sequences of cells). "join": ts, h, w, size, got.           *)
(* "book": size, tokens, got, err. "tokens": old, more, got, kept. "pairs": [name, want, got].       *)
EXTENDS Tiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Set(s) == {s[i] : i \in DOMAIN s}
Book(e) == IF \E n \in DOMAIN e.tokens : e.tokens[n] < 0 \/ e.tokens[n] >= e.size THEN Chk(e.err = "ValueError", "tokens that are not in the book are refused")
           ELSE Chk(e.err = "" /\ e.got = [n \in DOMAIN e.tokens |-> <<7 * e.tokens[n], 7 * e.tokens[n] + 1>>], "what tokens stand for")
Verdict(e) ==
  IF e.ended # "" THEN {"no other end: " \o e.ended}
  ELSE CASE e.t = "cut" -> Chk(e.got = Cut(e.g, e.size), "tiles of a grid")
         [] e.t = "join" -> Chk(e.got = Joined(e.ts, e.h, e.w, e.size), "a grid of tiles")
         [] e.t = "book" -> Book(e)
         [] e.t = "tokens" -> Chk(e.got = e.old \o e.more, "tokens of cameras after those there are") \cup Chk(e.kept, "all else in a scenario stays") \cup Chk(e.alone, "the scenario given is left alone")
         [] e.t = "pairs" -> UNION {Chk(p[2] = p[3], p[1]) : p \in Set(e.pairs)}
         [] OTHER -> {"unknown event"}
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
