------------------------------ MODULE MC_Breakdown ------------------------------
(* Walks objects over a lattice that straddles every boundary; each object and configuration     *)
(* must fall into at most one shard, and shards and names line up. Prints objects for replay.    *)
EXTENDS Breakdown, Json
CONSTANTS Coords, Speeds, Dims, Emit
VARIABLES o, phase
PM(S) == S \cup {-v : v \in S}
vars == <<o, phase>>
Base == [ty |-> 1, x |-> 0, y |-> 0, z |-> 0, dl |-> 64, dw |-> 64, dh |-> 64,
         vx |-> 0, vy |-> 0, hx |-> TRUE, hy |-> TRUE, cam |-> -1, hm |-> FALSE, mv |-> "", sc |-> 500000]
CamChoices == {<<-1, FALSE, "">>} \cup {<<c, FALSE, "">> : c \in 0..8}
              \cup {<<-1, TRUE, n>> : n \in {"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT",
                                             "SIDE_RIGHT", "UNKNOWN", "REAR", "bogus"}}
Init == phase = 0 /\ o \in {[Base EXCEPT !.ty = t] : t \in 0..4}
Move == phase = 0 /\ phase' = 1 /\ \E x, y \in PM(Coords) : o' = [o EXCEPT !.x = x, !.y = y]
Rise == phase = 0 /\ phase' = 1 /\ \E x, z \in PM(Coords) : o' = [o EXCEPT !.x = x, !.z = z]
Drive == phase = 0 /\ phase' = 1 /\ \E a, b \in PM(Speeds), h, k \in BOOLEAN :
            o' = [o EXCEPT !.vx = a, !.vy = b, !.hx = h, !.hy = k]
Grow == phase = 0 /\ phase' = 1 /\ \E a, b, c \in Dims : o' = [o EXCEPT !.dl = a, !.dw = b, !.dh = c]
Film == phase = 0 /\ phase' = 1 /\ \E c \in CamChoices, x, y \in {-640, 0, 640} :
            o' = [o EXCEPT !.cam = c[1], !.hm = c[2], !.mv = c[3], !.x = x, !.y = y]
Next == Move \/ Rise \/ Drive \/ Grow \/ Film
Spec == Init /\ [][Next]_vars

InRange == \A g \in Generators : Shard(g, o) \in {NONE} \cup (0..(NumShards(g) - 1))
TypedInOne == \A g \in Generators \ {CAMERA} : (o.ty # 0 => Shard(g, o) # NONE)
Untyped == \A g \in Generators : (o.ty = 0 /\ g \notin {ONE_SHARD, ALL_BUT_SIGN}) => Shard(g, o) = NONE
TypeBlock == \A g \in Generators \ {ONE_SHARD, ALL_BUT_SIGN} :
   Shard(g, o) # NONE => Shard(g, o) \div Len(Parts(g)) = o.ty - 1
Meets == \A g \in Generators : (Shard(g, o) # NONE /\ ~(g = CAMERA /\ o.hm)) => Shard(g, o) \in MatchShards(g, o)
NamesUnique == \A g \in Generators : \A s, t \in 0..(NumShards(g) - 1) :
   s # t => ShardName(g, s) # ShardName(g, t)
PrintCase == Emit /\ phase = 1 => PrintT("@@C " \o ToJson(o))
=============================================================================
