---------------------------------- MODULE Batch ----------------------------------
(* Batched tensors. A row is [f, s, vals]: frame id, sequence id ("" when there is none) and its      *)
(* fields. opts: the names of the fields that were given as tensors.                                *)
EXTENDS VCommon
(* ---- grouping ------------------------------------------------------------------------------ *)
KeyOf(r) == <<r.s, r.f>>
Keys(rows) == {KeyOf(rows[i]) : i \in DOMAIN rows}
Of(rows, k) == SelectSeq(rows, LAMBDA r : KeyOf(r) = k)
Given(vals, opts) == [x \in DOMAIN vals \cap opts |-> vals[x]]
(* groups: sequence of [s, f, objs] in any order *)
Grouped(rows, opts, groups) ==
  /\ SameBag([i \in DOMAIN groups |-> KeyOf(groups[i])], SetToSeq(Keys(rows)))
  /\ \A i \in DOMAIN groups : LET g == Of(rows, KeyOf(groups[i]))
                               IN groups[i].objs = [j \in DOMAIN g |-> Given(g[j].vals, opts)]
(* ---- frames of a pair of batches -------------------------------------------------------------- *)
(* fs: sequence of [s, f, p, g]: row numbers (from 1) of predictions and ground truths of the frame   *)
Rows(keys, k) == SelectSeq([i \in DOMAIN keys |-> i], LAMBDA i : keys[i] = k)
FramesOk(pk, gk, fs) ==
  /\ SameBag([i \in DOMAIN fs |-> KeyOf(fs[i])], SetToSeq(SeqToSet(pk) \cup SeqToSet(gk)))
  /\ \A i \in DOMAIN fs : fs[i].p = Rows(pk, KeyOf(fs[i])) /\ fs[i].g = Rows(gk, KeyOf(fs[i]))
(* within a sequence, frames are in the order of their ids *)
InTime(fs) == \A i, j \in DOMAIN fs : (i < j /\ fs[i].s = fs[j].s) => fs[i].f < fs[j].f
Together(fs) == \A i, j, k \in DOMAIN fs : (i < j /\ j < k /\ fs[i].s = fs[k].s) => fs[j].s = fs[i].s
(* ---- matching of batches ---------------------------------------------------------------------- *)
(* dims: the extents that count; boxes without extent are padding *)
Real(boxes) == SelectSeq([i \in DOMAIN boxes |-> i], LAMBDA i : \A d \in DOMAIN boxes[i] : boxes[i][d] > 0)
(* pairs the library forms among the real boxes of batch b (from 1), as numbers from 0 into the flattened inputs *)
Flat(b, n, idx) == (b - 1) * n + idx - 1
(* ---- motion batches -------------------------------------------------------------------------- *)
(* x: one scenario, valid[a][t], mask[m][n], index[m][n] (from 0)                                   *)
AnyValid(v) == \E t \in DOMAIN v : v[t]
TrackAgents(x) == SelectSeq([a \in DOMAIN x.valid |-> a], LAMBDA a : AnyValid(x.valid[a]))
TrackOf(x, a) == CHOOSE i \in DOMAIN TrackAgents(x) : TrackAgents(x)[i] = a
Asked(x) == FlattenSeq([m \in DOMAIN x.mask |-> SelectSeq([n \in DOMAIN x.mask[m] |-> <<m, n>>], LAMBDA q : x.mask[q[1]][q[2]])])
AgentOf(x, q) == x.index[q[1]][q[2]] + 1
Sane(x) == \A i \in DOMAIN Asked(x) : AgentOf(x, Asked(x)[i]) \in DOMAIN x.valid
(* every agent asked for has a state *)
Covered(x) == \A i \in DOMAIN Asked(x) : AnyValid(x.valid[AgentOf(x, Asked(x)[i])])
Tracks(x) == LET ta == TrackAgents(x)
             IN [i \in DOMAIN ta |-> [id |-> x.id[ta[i]], type |-> x.type[ta[i]],
                                      states |-> [t \in DOMAIN x.valid[ta[i]] |-> [v |-> x.gt[ta[i]][t], valid |-> x.valid[ta[i]][t]]]]]
Required(x) == LET q == Asked(x) IN [i \in DOMAIN q |-> TrackOf(x, AgentOf(x, q[i])) - 1]
OfInterest(x) == LET q == Asked(x) IN [i \in DOMAIN q |-> x.id[AgentOf(x, q[i])]]
GroupsOf(x) == SelectSeq([m \in DOMAIN x.mask |-> m], LAMBDA m : \E n \in DOMAIN x.mask[m] : x.mask[m][n])
Predictions(x) ==
  LET gs == GroupsOf(x)
  IN [i \in DOMAIN gs |-> LET m == gs[i]
                              ns == SelectSeq([n \in DOMAIN x.mask[m] |-> n], LAMBDA n : x.mask[m][n])
                          IN [k \in DOMAIN x.score[m] |->
                                [score |-> x.score[m][k],
                                 of |-> [j \in DOMAIN ns |-> [id |-> x.id[x.index[m][ns[j]] + 1], xy |-> x.pred[m][k][ns[j]]]]]]]
(* ---- motion results ---------------------------------------------------------------------------- *)
MotionTypes == <<1, 2, 3>>
Slot(bundles, ty, st) == LET c == {i \in DOMAIN bundles : bundles[i].type = ty /\ bundles[i].step = st}
                         IN IF c = {} THEN <<>> ELSE bundles[CHOOSE i \in c : TRUE].v
Missing == -100000
MotionOut(bundles, steps, o) ==   \* output o of the op (1..5)
  FlattenSeq([t \in 1..3 |-> [s \in DOMAIN steps |-> LET v == Slot(bundles, MotionTypes[t], steps[s])
                                                     IN IF v = <<>> THEN Missing ELSE v[o]]])
=============================================================================
