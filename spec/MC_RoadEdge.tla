------------------------------ MODULE MC_RoadEdge ------------------------------
(* A road edge grows point by point, or is one of some closed rings, and is seen from every point around. *)
EXTENDS RoadMap, Json
CONSTANTS Coords, MaxPts, Views, RingsOn, Emit
VARIABLES e, kind
vars == <<e, kind>>
Pt(x, y) == <<x, y, 0>>
Rings == << <<Pt(0, 0), Pt(4, 0), Pt(4, 4), Pt(0, 4), Pt(0, 0)>>,
            <<Pt(0, 0), Pt(6, 0), Pt(6, 2), Pt(2, 2), Pt(2, 6), Pt(0, 6), Pt(0, 0)>>,
            <<Pt(0, 0), Pt(6, 1), Pt(1, 3), Pt(0, 0)>>,
            <<Pt(0, 0), Pt(5, -2), Pt(2, 0), Pt(5, 2), Pt(0, 0)>>,
            <<Pt(0, 0), Pt(3, 3), Pt(6, 0), Pt(4, 5), Pt(2, 5), Pt(0, 0)>> >>
Init == \/ kind = "open" /\ e \in {[pts |-> <<Pt(0, 0), Pt(x, y)>>, closed |-> FALSE] : x \in Coords, y \in Coords \ {0}}
        \/ kind = "ring" /\ RingsOn /\ e \in {[pts |-> Rings[i], closed |-> TRUE] : i \in DOMAIN Rings}
Straight(a, b, c) == Cross(Sub(b, a), Sub(c, b)) = 0 /\ Dot(Sub(b, a), Sub(c, b)) < 0
Grow == /\ kind = "open" /\ Len(e.pts) < MaxPts
        /\ \E x \in Coords : \E y \in Coords :
             /\ <<x, y, 0>> # e.pts[Len(e.pts)] /\ ~Straight(e.pts[Len(e.pts) - 1], e.pts[Len(e.pts)], Pt(x, y))
             /\ e' = [e EXCEPT !.pts = Append(@, Pt(x, y))]
        /\ UNCHANGED kind
(* a ring starts at another of its points *)
Rotate == /\ kind = "ring" /\ e' = [e EXCEPT !.pts = Append(SubSeq(@, 2, Len(@)), @[2])] /\ UNCHANGED kind
Next == Grow \/ Rotate
Spec == Init /\ [][Next]_vars
Grid == {<<x, y, 0>> : x \in Views, y \in Views}
Rev(k) == [k EXCEPT !.pts = Reverse(@)]
Of(p, k) == Distances(p, <<k>>)
Neg(S) == {-v : v \in S}
Flips == \A p \in Grid : Of(p, Rev(e)) = Neg(Of(p, e))
Double(k) == [k EXCEPT !.pts = [i \in 1..(2 * Len(@) - 1) |-> IF i % 2 = 1 THEN <<2 * @[(i + 1) \div 2][1], 2 * @[(i + 1) \div 2][2], 0>>
              ELSE <<@[i \div 2][1] + @[i \div 2 + 1][1], @[i \div 2][2] + @[i \div 2 + 1][2], 0>>]]
Scaled(k) == [k EXCEPT !.pts = [i \in DOMAIN @ |-> <<2 * @[i][1], 2 * @[i][2], 0>>]]
(* more points on the same line change nothing *)
Cut == \A p \in Grid : Of(<<2 * p[1], 2 * p[2], 0>>, Double(e)) = Of(<<2 * p[1], 2 * p[2], 0>>, Scaled(e))
(* an edge twice is as good as once; a far one does not matter *)
Twice == \A p \in Grid : Distances(p, <<e, e>>) = Of(p, e)
Above == \A p \in Grid : Distances(p, <<e, [e EXCEPT !.pts = [i \in DOMAIN @ |-> <<@[i][1], @[i][2], 1>>]]>>) = Of(p, e)
(* inside a ring is on the road: crossings of a ray just above the point's height *)
Crosses(p, a, b) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ LET c == Cross(Sub(b, a), Sub(p, a)) IN IF b[2] > a[2] THEN c > 0 ELSE c < 0
Inside(p) == Cardinality({i \in Segs(e) : Crosses(p, e.pts[i], e.pts[i + 1])}) % 2 = 1
Walled == kind = "ring" => \A p \in Grid : 0 \notin Of(p, e) => (Max(Of(p, e)) < 0) = Inside(p)
Sure == kind = "ring" => \A p \in Grid : Cardinality(Of(p, e)) = 1
PrintCase == Emit => PrintT("@@C " \o ToJson([pts |-> e.pts, closed |-> e.closed]))
=============================================================================
