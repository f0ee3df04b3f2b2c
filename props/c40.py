"""C40: scenarios become simulated scenes, and scenes trajectories."""
import importlib

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

_M = {}
F = ("x", "y", "z", "heading", "length", "width", "height")
P = ("center_x", "center_y", "center_z", "heading", "length", "width", "height")


def mods():
    if not _M:
        tfs.install()
        D.pb()
        imp = importlib.import_module
        _M["t"] = imp("waymo_open_dataset.utils.trajectory_utils")
        _M["c"] = imp("waymo_open_dataset.utils.sim_agents.converters")
        _M["s"] = imp("waymo_open_dataset.utils.sim_agents.submission_specs")
        _M["sc"] = D.module("protos.scenario_pb2")
        _M["sub"] = D.module("protos.sim_agents_submission_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def scenario(trs, sdc=0, pred=()):
    s = _M["sc"].Scenario(scenario_id="s", current_time_index=10, sdc_track_index=sdc)
    for i, tr in enumerate(trs):
        t = s.tracks.add(id=tr["id"], object_type=tr["type"])
        off = set(tr["off"])
        for k in range(tr["n"]):
            st = t.states.add(valid=k + 1 not in off)
            for f, p in enumerate(P):
                setattr(st, p, 1000 * (i + 1) + 10 * (k + 1) + f + 1)
    for p in pred:
        s.tracks_to_predict.add(track_index=p - 1)
    return s


def runs(row):
    """a row as runs [first, step, number]"""
    row, out, i = [int(round(float(x))) for x in row], [], 0
    while i < len(row):
        j = i + 1
        d = row[j] - row[i] if j < len(row) else 0
        while j < len(row) and row[j] - row[j - 1] == d:
            j += 1
        if j == i + 2 and d not in (0, 10):
            j, d = i + 1, 0
        out.append([row[i], d, j - i])
        i = j
    return out


def objects(t):
    N = tfs.N
    rows = [N(getattr(t, f)) for f in F]
    ok, ids, ty = N(t.valid), N(t.object_id), N(t.object_type)
    return [{"id": int(ids[i]), "type": int(ty[i]), "n": int(ok.shape[-1]), "off": [k + 1 for k in range(ok.shape[-1]) if not ok[i, k]],
             "v": [runs(r[i]) for r in rows]} for i in range(len(ids))]


def scene_objects(js):
    return [{"id": t.object_id, "type": t.object_type, "n": len(t.valid), "off": [k + 1 for k, v in enumerate(t.valid) if not v], "v": [runs(getattr(t, p)) for p in P]} for t in js.simulated_trajectories]


def attempt(fn):
    try:
        return fn(), ""
    except ValueError:
        return [], "ValueError"
    except tfs.NotModelled:
        raise
    except Exception as e:
        return [], type(e).__name__ + ": " + str(e)[:80]


def case_traj(c):
    T, tf = _M["t"], _M["tf"]

    def go():
        t = T.ObjectTrajectories.from_scenario(scenario(c["trs"]))
        for o in c["ops"]:
            if o[0] == "slice":
                kw = {}
                if o[1] or o[3]:
                    kw["start_index"] = o[1]
                if o[2] != 1000:
                    kw["end_index"] = o[2]
                t = t.slice_time(**kw)
            elif o[0] == "gather":
                t = t.gather_objects(tf.constant([i - 1 for i in o[1]], dtype=tf.int32))
            else:
                t = t.gather_objects_by_id(tf.constant(o[1], dtype=tf.int32))
        return objects(t)
    got, err = attempt(go)
    return [{"t": "traj", "trs": c["trs"], "ops": [o[:3] for o in c["ops"]], "got": got, "err": err, "ended": ""}]


def kind(k):
    C = _M["s"].ChallengeType
    return C.SIM_AGENTS if k == "sim" else C.SCENARIO_GEN


def case_scene(c):
    s = scenario(c["trs"])
    kept = s.SerializeToString()
    got, err = attempt(lambda: scene_objects(_M["c"].scenario_to_joint_scene(s, kind(c["kind"])) if c["kind"] == "gen" or c["say"] else _M["c"].scenario_to_joint_scene(s)))
    out = [{"t": "scene", "trs": c["trs"], "kind": c["kind"], "got": got, "err": err, "ended": ""},
           {"t": "pairs", "pairs": [["the scenario is left alone", True, s.SerializeToString() == kept]], "ended": ""}]
    if not err and c["kind"] == "sim":      # a scene that follows the log is fit for a submission
        _, bad = attempt(lambda: _M["s"].validate_joint_scene(_M["c"].scenario_to_joint_scene(s), s, kind("sim")))
        out.append({"t": "pairs", "pairs": [["a scene that follows the log is valid", "", bad]], "ended": ""})
    return out


def case_ids(c):
    s = scenario(c["trs"], c["sdc"] - 1, c["pred"])
    S = _M["s"]
    return [{"t": "ids", "trs": c["trs"], "sdc": c["sdc"], "pred": c["pred"], "sim": list(S.get_sim_agent_ids(s, kind("sim"))), "gen": list(S.get_sim_agent_ids(s, kind("gen"))),
             "evals": list(S.get_evaluation_sim_agent_ids(s, kind("sim"))), "evalg": list(S.get_evaluation_sim_agent_ids(s, kind("gen"))), "ended": ""}]


def case_back(c):
    s = scenario(c["trs"])
    js = _M["sub"].JointScene()
    for j, o in enumerate(c["sc"]):
        t = js.simulated_trajectories.add(object_id=o["id"])
        if c["kind"] == "gen" or c["extra"]:
            t.object_type = o["type"]
        for f, p in enumerate(P):
            if f < 4 or c["kind"] == "gen" or c["extra"]:
                getattr(t, p).extend(500000 + 1000 * (j + 1) + 10 * (k + 1) + f + 1 for k in range(o["n"]))
    C = _M["c"]
    if c["kind"] == "sim":
        fn = lambda: objects(C.joint_scene_to_trajectories(js, s, use_log_validity=True) if c["useLog"] else C.joint_scene_to_trajectories(js, s))
    else:
        fn = lambda: objects(C.simulated_scenariogen_to_trajectories(js, s, kind("gen")))
    got, err = attempt(fn)
    return [{"t": "back", "kind": c["kind"], "useLog": c["useLog"], "trs": c["trs"], "sc": c["sc"], "got": got, "err": err, "ended": ""}]


DO = {"traj": case_traj, "scene": case_scene, "ids": case_ids, "back": case_back}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


def rand_tracks(rng, n, some=True, repeat=.1):
    m = rng.randint(1, 4)
    ids = rng.sample(range(1, 90), m)
    if m > 1 and rng.random() < repeat:
        ids[rng.randrange(1, m)] = ids[0]
    out = []
    for i in ids:
        p = rng.choice([0, .1, .5, .9])
        off = [k for k in range(1, n + 1) if rng.random() < p]
        if rng.random() < .4:
            off = [k for k in off if k != 11]
        out.append({"id": i, "type": rng.randint(1, 3), "n": n, "off": off})
    if some and all(11 in t["off"] for t in out):
        out[0]["off"].remove(11)
    return out


def rand_traj(rng):
    n = rng.choice([3, 5, 12])
    trs = rand_tracks(rng, n, False)
    ids, ops = [t["id"] for t in trs], []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["slice", "gather", "ids"])
        if k == "slice":
            ops.append([k, rng.choice([0, 1, 2, -1, -2, n]), rng.choice([1000, 1000, 1, 2, 4, -1, -2, n + 1]), rng.random() < .5])
        elif k == "gather":
            pick = [rng.randrange(len(ids)) for _ in range(rng.randint(1, 4))]
            ids = [ids[i] for i in pick]
            ops.append([k, [i + 1 for i in pick], 0])
        else:
            pool = list(dict.fromkeys(ids))
            want = [rng.choice(pool) for _ in range(rng.randint(1, 4))] if rng.random() < .4 else rng.sample(pool, rng.randint(1, len(pool)))
            if rng.random() < .1:
                want[rng.randrange(len(want))] = 99
            ops.append([k, want, 0])
            if 99 in want or any(ids.count(i) > 1 for i in want):
                break
            ids = want
    return {"t": "traj", "trs": trs, "ops": ops}


def rand_scene(rng):
    n = rng.choice([91, 91, 91, 91, 90, 92, 11, 81])
    return {"t": "scene", "trs": rand_tracks(rng, n), "kind": rng.choice(["sim", "gen"]), "say": rng.random() < .5}


def rand_ids(rng):
    trs = rand_tracks(rng, 12, False, 0)
    m = len(trs)
    return {"t": "ids", "trs": trs, "sdc": rng.randint(1, m), "pred": [rng.randint(1, m) for _ in range(rng.randint(0, 4))]}


def rand_back(rng):
    k = rng.choice(["sim", "gen"])
    use = k == "sim" and rng.random() < .5
    n = 91 if use else rng.choice([91, 91, 11])
    trs = rand_tracks(rng, n, False, .05)
    ids = [t["id"] for t in trs]
    want = rng.sample(ids, rng.randint(1, len(ids)))
    if rng.random() < .05:
        want[0] = 99
    m = 80 if use else rng.choice([80, 80, 5]) if k == "sim" else rng.choice([91, 91, 7])
    return {"t": "back", "kind": k, "useLog": use, "trs": trs, "sc": [{"id": i, "type": rng.randint(1, 3), "n": m} for i in want], "extra": rng.random() < .5}


CFG = """SPECIFICATION Spec
CONSTANTS Ids = {%s}
Tracks = 2
Cur = 1
Fut = %d
Emit = TRUE
INVARIANTS Works Fails Back AllTheTime EndsAlike Halves PrintCase
"""


def grown(c, fut):
    """tracks of the model over all the steps of a scenario"""
    ends = [0, 10, 11] + [11 + 80 * (i + 1) // fut for i in range(fut)]
    if c["steps"] == fut + 1:
        ends[-1] = 90
        ends = ends[:c["steps"]] + [90]
    n = ends[c["steps"]]
    return [{"id": t["id"], "type": t["type"], "n": n, "off": [k + 1 for i in range(c["steps"]) for k in range(ends[i], ends[i + 1]) if not t["ok"][i]]} for t in c["trs"]]


def run(ctx):
    rng = ctx.rng
    mods()
    fut = ctx.pick(2, 3)
    cs = ctx.model_cases("MC_Scenes", CFG % ("7, 3", fut), name="a log of a few tracks, the scene that follows it, and back")
    rng.shuffle(cs)
    cases = []
    for c in cs[:ctx.pick(350, 5000)]:
        trs = grown(c, fut)
        if not any(11 not in t["off"] for t in trs):
            continue
        for k in ("sim", "gen"):
            cases.append({"t": "scene", "trs": trs, "kind": k, "say": True})
        ids = [t["id"] for t in trs if 11 not in t["off"]]
        if trs[0]["n"] == 91:
            cases.append({"t": "back", "kind": "sim", "useLog": True, "trs": trs, "sc": [{"id": i, "type": 1, "n": 80} for i in ids], "extra": False})
        cases.append({"t": "back", "kind": "gen", "useLog": False, "trs": trs, "sc": [{"id": i, "type": 2, "n": 91} for i in ids], "extra": False})
    n = ctx.pick(1, 12)
    for f, k in ((rand_traj, 600), (rand_scene, 200), (rand_ids, 300), (rand_back, 250)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceScenes", [events[i:i + 60] for i in range(0, len(events), 60)], "scenes", samples=len(events))
