------------------------------ MODULE TraceMapPlot -------------------------------
(* One event per drawn map: the lines (in the order of the figure) and the clouds of the figure.      *)
(* A feature that is a single position may be drawn as a marker instead of a line.                   *)
EXTENDS MapPlot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Verdict(e) ==
  IF e.exc # "" THEN {"drawn"}
  ELSE LET want == Lines(e.map)
       IN Chk(Len(e.lines) = Len(want), "one line for each feature with points") \cup
          (IF Len(e.lines) # Len(want) THEN {} ELSE
            Chk(\A i \in DOMAIN want : e.lines[i].pts = want[i].pts, "the points of the feature in order, polygons closed") \cup
            Chk(\A i \in DOMAIN want : e.lines[i].color = want[i].color, "the colour of the feature's type") \cup
            Chk(\A i \in DOMAIN want : e.lines[i].dash = want[i].dash \/ (e.lines[i].mode = "markers" /\ Len(want[i].pts) = 1), "the dash of the feature's type") \cup
            Chk(\A i \in DOMAIN want : e.lines[i].mode = "lines" \/ (e.lines[i].mode = "markers" /\ Len(want[i].pts) = 1), "features are lines")) \cup
          Chk(SeqToSet(e.clouds) = {[name |-> c.name, pts |-> c.pts, color |-> Color(c.name)] : c \in Clouds(e.map)}
              /\ Distinct(e.clouds), "the points of each type in its colour")
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN bad' = IF v = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [l |-> l, v |-> v])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT("@@V " \o ToJson(bad))
=============================================================================
