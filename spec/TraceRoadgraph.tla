---------------------------- MODULE TraceRoadgraph ----------------------------
(* Validates recorded road graph features. Coordinates come in 1/1000 grid units, directions in      *)
(* 1/1000.                                                                                           *)
EXTENDS Roadgraph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
XyzOk(g, s) == \A k \in 1..3 : AbsI(s.den * g[k] - 1000 * s.num[k]) <= s.den
DirOk(g, d) ==
  IF d = Zero3 THEN g = Zero3
  ELSE /\ Within(Sq(g), 1000000, 4000)
       /\ \A a, b \in 1..3 : AbsI(g[a] * d[b] - g[b] * d[a]) <= AbsI(d[a]) + AbsI(d[b]) + 1
       /\ g[1] * d[1] + g[2] * d[2] + g[3] * d[3] > 0
At3(f, i) == <<f[3 * i - 2], f[3 * i - 1], f[3 * i]>>
Verdict(e) ==
  IF e.crash # "" THEN {"no crash or hang"}
  ELSE IF ~e.ok THEN {"accepted"}
  ELSE LET n == MaxI(e.cfg.max, 0)
       IN IF ~(Len(e.id) = n /\ Len(e.type) = n /\ Len(e.valid) = n /\ Len(e.xyz) = 3 * n /\ Len(e.dir) = 3 * n)
          THEN {"road graph features have their sizes"}
          ELSE LET s == Samples(e.map, e.cfg)  m == Len(s)
               IN Chk(\A i \in 1..m : e.valid[i] = 1, "samples are marked valid") \cup
                  Chk(\A i \in 1..m : e.id[i] = s[i].id, "samples carry their feature, highest priority kinds first") \cup
                  Chk(\A i \in 1..m : e.type[i] = s[i].type, "samples carry their kind") \cup
                  Chk(\A i \in 1..m : XyzOk(At3(e.xyz, i), s[i]), "samples lie along the feature, spaced as configured") \cup
                  Chk(\A i \in 1..m : DirOk(At3(e.dir, i), s[i].dir), "unit direction to the next sample, none at the end") \cup
                  Chk(\A i \in (m + 1)..n : e.valid[i] = 0 /\ e.id[i] = -1 /\ e.type[i] = -1 /\ At3(e.xyz, i) = <<-4000, -4000, -4000>>
                                            /\ At3(e.dir, i) = <<-1000, -1000, -1000>>, "unused rows are invalid")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
