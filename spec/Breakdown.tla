------------------------------- MODULE Breakdown -------------------------------
(* How objects are sharded for per-breakdown metrics, and how the shards are named.              *)
(* An object o: ty 0..4; x, y, z and dims dl, dw, dh in 1/64 m; vx, vy in 1/64 m/s with hx, hy   *)
(* telling whether they are set; cam = camera number of a 2-D object or -1; hm, mv = most        *)
(* visible camera name (set?, name); sc score in ppm.                                             *)
EXTENDS VCommon

ONE_SHARD == 1   OBJECT_TYPE == 2   RANGE == 3   VELOCITY == 7
ALL_BUT_SIGN == 8   SIZE == 9   CAMERA == 10
Generators == {ONE_SHARD, OBJECT_TYPE, RANGE, VELOCITY, ALL_BUT_SIGN, SIZE, CAMERA}
NumTypes == 4
TypeNames == <<"TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST">>
SIGN == 3

(* parts per type, with the suffix of each part *)
Parts(g) ==
  CASE g = OBJECT_TYPE -> <<"">>
    [] g = RANGE -> <<"_[0, 30)", "_[30, 50)", "_[50, +inf)">>
    [] g = SIZE -> <<"_small", "_large">>
    [] g = VELOCITY -> <<"_STATIONARY", "_SLOW", "_MEDIUM", "_FAST", "_VERY_FAST">>
    [] g = CAMERA -> <<"_FRONT", "_FRONT-LEFT", "_FRONT-RIGHT", "_SIDE-LEFT", "_SIDE-RIGHT">>
    [] OTHER -> <<>>
GenName(g) == CASE g = ONE_SHARD -> "ONE_SHARD" [] g = OBJECT_TYPE -> "OBJECT_TYPE"
                [] g = RANGE -> "RANGE" [] g = VELOCITY -> "VELOCITY"
                [] g = SIZE -> "SIZE" [] g = CAMERA -> "CAMERA" [] OTHER -> ""
NumShards(g) == CASE g = ONE_SHARD -> 1 [] g = ALL_BUT_SIGN -> 2 [] OTHER -> NumTypes * Len(Parts(g))
ShardName(g, s) ==
  CASE g = ONE_SHARD -> "ONE_SHARD"
    [] g = ALL_BUT_SIGN -> IF s = 0 THEN "ALL_BUT_SIGN" ELSE "SIGN"
    [] OTHER -> GenName(g) \o "_" \o TypeNames[(s \div Len(Parts(g))) + 1] \o Parts(g)[(s % Len(Parts(g))) + 1]
GroundTruthOnly(g) == g \in {VELOCITY, CAMERA}

(* ---- the defining quantities ------------------------------------------------------------ *)
U == 64
RangePart(o) == LET r2 == o.x * o.x + o.y * o.y + o.z * o.z
                IN IF r2 < (30 * U) * (30 * U) THEN 0 ELSE IF r2 < (50 * U) * (50 * U) THEN 1 ELSE 2
SizePart(o) == IF MaxI(o.dl, MaxI(o.dw, o.dh)) < 7 * U THEN 0 ELSE 1
SpeedPart(o) ==
  LET v2 == IF o.hx /\ o.hy THEN o.vx * o.vx + o.vy * o.vy ELSE 0
  IN IF 25 * v2 < U * U THEN 0                 \* below 0.2 m/s
     ELSE IF v2 < U * U THEN 1
     ELSE IF v2 < 9 * U * U THEN 2
     ELSE IF v2 < 100 * U * U THEN 3 ELSE 4

(* Cameras look at 0, +-45, +-90 degrees and see 25.2 degrees to each side. Directions of the   *)
(* sector edges in 1/10000 (cos, sin).                                                           *)
Edge(d) == CASE d = 198 -> <<9409, 3387>> [] d = 252 -> <<9048, 4258>>
             [] d = 648 -> <<4258, 9048>> [] d = 702 -> <<3387, 9409>>
             [] d = 1152 -> <<-4258, 9048>>
LeftOf(e, o) == e[1] * o.y - e[2] * o.x > 0       \* o is counter-clockwise of ray e (within 180)
Mirror(e) == <<e[1], -e[2]>>
InSector(lo, hi, o) == LeftOf(lo, o) /\ LeftOf(<<-hi[1], -hi[2]>>, o)
SeesPart(k, o) ==
  IF o.x = 0 /\ o.y = 0 THEN k = 0
  ELSE CASE k = 0 -> InSector(Mirror(Edge(252)), Edge(252), o)
         [] k = 1 -> InSector(Edge(198), Edge(702), o)
         [] k = 2 -> InSector(Mirror(Edge(702)), Mirror(Edge(198)), o)
         [] k = 3 -> InSector(Edge(648), Edge(1152), o)
         [] k = 4 -> InSector(Mirror(Edge(1152)), Mirror(Edge(648)), o)
FovParts(o) == {k \in 0..4 : SeesPart(k, o)}
CamNames == <<"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT">>
CamPart(o) ==
  IF o.cam >= 0 THEN (IF o.cam \in 1..5 THEN o.cam - 1 ELSE -1)
  ELSE IF o.hm THEN (IF \E k \in 1..5 : CamNames[k] = o.mv
                     THEN (CHOOSE k \in 1..5 : CamNames[k] = o.mv) - 1 ELSE -1)
  ELSE IF FovParts(o) = {} THEN -1 ELSE Min(FovParts(o))

(* ---- the sharding ------------------------------------------------------------------------ *)
NONE == -1
Shard(g, o) ==
  IF g = ONE_SHARD THEN 0
  ELSE IF g = ALL_BUT_SIGN THEN (IF o.ty = SIGN THEN 1 ELSE 0)
  ELSE IF o.ty = 0 THEN NONE
  ELSE LET part == CASE g = OBJECT_TYPE -> 0 [] g = RANGE -> RangePart(o) [] g = SIZE -> SizePart(o)
                     [] g = VELOCITY -> SpeedPart(o) [] g = CAMERA -> CamPart(o)
       IN IF part < 0 THEN NONE ELSE Len(Parts(g)) * (o.ty - 1) + part

(* Shards an object is matched in: a detection breakdown over a property only ground truths have *)
(* must let every prediction meet the ground truths of all values it could belong to.            *)
MatchShards(g, o) ==
  IF ~GroundTruthOnly(g) THEN {Shard(g, o)} \ {NONE}
  ELSE IF o.ty = 0 THEN {}
  ELSE IF g = VELOCITY THEN {5 * (o.ty - 1) + k : k \in 0..4}
  ELSE IF o.cam >= 0 THEN {Shard(g, o)} \ {NONE}
  ELSE {5 * (o.ty - 1) + k : k \in FovParts(o)}
ShardsOf(g, o, isDet) == IF isDet THEN MatchShards(g, o) ELSE {Shard(g, o)} \ {NONE}

(* ---- subsets: 1-based positions, in order, of the objects of a shard at or above a cutoff ---- *)
Subset(g, s, objs, isDet, cut) ==
  SelectSeq([i \in DOMAIN objs |-> i],
            LAMBDA i : s \in ShardsOf(g, objs[i], isDet) /\ (cut = NONE \/ objs[i].sc >= cut))

(* ---- enumeration order of results: generator, shard, difficulty ------------------------------ *)
LevelName(d) == CASE d = 1 -> "LEVEL_1" [] d = 2 -> "LEVEL_2" [] OTHER -> "UNKNOWN"
Levels(cfg, k) == IF cfg.lv[k] = <<>> THEN <<2>> ELSE cfg.lv[k]
(* cfg.gens: generator ids; cfg.lv: difficulty levels per generator *)
Slots(cfg) ==
  FlattenSeq([k \in DOMAIN cfg.gens |->
     FlattenSeq([s \in 1..NumShards(cfg.gens[k]) |->
        [d \in DOMAIN Levels(cfg, k) |->
           [g |-> cfg.gens[k], s |-> s - 1, d |-> Levels(cfg, k)[d], k |-> k]]])])
Names(cfg) == LET sl == Slots(cfg) IN [i \in DOMAIN sl |-> ShardName(sl[i].g, sl[i].s) \o "_" \o LevelName(sl[i].d)]
=============================================================================
