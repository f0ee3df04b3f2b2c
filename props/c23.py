"""C23: simulation submissions."""
import copy

from vlib.pyrun import guarded
from . import detlib as D

TRACKS = [{"id": 5, "now": True}, {"id": 3, "now": False}, {"id": 0, "now": True}, {"id": 9, "now": True}]
STEPS = {"sim_agents": 80, "scenario_gen": 91}


def scenario(sc):
    s = D.module("protos.scenario_pb2").Scenario()
    s.scenario_id = "abc"
    s.sdc_track_index = sc.get("sdc", 0)
    for i in sc.get("ttp", []):
        s.tracks_to_predict.add(track_index=i)
    for n, t in enumerate(sc["tracks"]):
        p = s.tracks.add(id=t["id"])
        for i in range(t.get("n", 91)):
            st = p.states.add()
            if i == 10:
                st.valid = t["now"]
            elif t.get("other") and i in (0, 9, 11, 20):
                st.valid = True
    return s


def trajectory(t, m):
    p = m.SimulatedTrajectory()
    if t["id"] or t.get("told", True):
        p.object_id = t["id"]
    for f, n in zip(("center_x", "center_y", "center_z", "heading"), t["len"]):
        getattr(p, f).extend([.5] * n)
    for f, n in t.get("more", []):
        getattr(p, f).extend([1] * n)
    return p


def joint(scene, m):
    p = m.JointScene()
    for t in scene:
        p.simulated_trajectories.append(trajectory(t, m))
    return p


def do(j):
    S = D.module("utils.sim_agents.submission_specs")
    m = D.module("protos.sim_agents_submission_pb2")
    ch = S.ChallengeType(j["ch"])
    if j["k"] == "ids":
        sc = scenario(j["sc"])
        c = S.get_submission_config(ch)
        return {"agents": list(S.get_sim_agent_ids(sc, ch)), "evaluated": list(S.get_evaluation_sim_agent_ids(sc, ch)),
                "steps": c.n_simulation_steps, "rollouts": c.n_rollouts, "current": c.current_time_index}
    sc = scenario({"tracks": j["tracks"]})
    if j["k"] == "scene":
        p = joint(j["scene"], m)
        b = p.SerializeToString()
        S.validate_joint_scene(p, sc, ch)
    else:
        p = m.ScenarioRollouts()
        if j["r"]["named"]:
            p.scenario_id = "abc"
        memo = {}
        for s in j["r"]["scenes"]:
            k = str(s)
            if k not in memo:
                memo[k] = joint(s, m)
            p.joint_scenes.append(memo[k])
        b = p.SerializeToString()
        if j["ch"] == "sim_agents" and j.get("default"):
            S.validate_scenario_rollouts(p, sc)
        else:
            S.validate_scenario_rollouts(p, sc, ch)
    if p.SerializeToString() != b:
        raise AssertionError("the submission was changed")
    return {}


def good(tracks, ch):
    return [{"id": t["id"], "len": [STEPS[ch]] * 4} for t in tracks if t["now"]]


def spoil(rng, scene, tracks, ch):
    """One or two changes that usually, not always, break a scene."""
    s = copy.deepcopy(scene)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(8)
        if k == 0 and s:
            s.pop(rng.randrange(len(s)))
        elif k == 1 and s:
            s.insert(rng.randrange(len(s) + 1), copy.deepcopy(rng.choice(s)))
        elif k == 2:
            s.append({"id": rng.choice([t["id"] for t in tracks] + [77, -1, 0]), "len": [STEPS[ch]] * 4})
        elif k == 3 and s:
            rng.choice(s)["len"][rng.randrange(4)] += rng.choice([-1, 1, -STEPS[ch], 11, -11])
        elif k == 4 and s:
            rng.choice(s)["len"][:] = [80 + 91 - STEPS[ch]] * 4
        elif k == 5 and s:
            rng.choice(s)["id"] = rng.choice([t["id"] for t in tracks] + [78])
        elif k == 6:
            rng.shuffle(s)
        elif k == 7 and s:
            t = rng.choice(s)
            t["more"] = [(f, rng.choice([0, 1, 80, 91])) for f in ("width", "length", "height", "valid")]
    for t in s:
        t["len"] = [max(0, n) for n in t["len"]]
    return s


def clean(s):
    return [{"id": t["id"], "len": t["len"]} for t in s]


def run(ctx):
    rng = ctx.rng
    D.module("utils.sim_agents.submission_specs")
    cs = ctx.model_cases("MC_SimSubmission", "SPECIFICATION Spec\nCONSTANTS MaxTraj = %d\nLens = {%s}\nEmit = TRUE\nPROPERTY WrongForGood\n"
                         "INVARIANTS Incremental OrderFree RightSize Once OtherChallenge PrintCase\n" % ctx.pick((3, '"good","z"'), (4, '"good","x","h"')),
                         name="filling a scene", workers=8)
    ctx.model("MC_SimSubmission", 'SPECIFICATION Spec\nCONSTANTS MaxTraj = %d\nLens = {"good"}\nEmit = FALSE\nPROPERTY WrongForGood\n'
              "INVARIANTS Incremental OrderFree RightSize Once OtherChallenge\n" % ctx.pick(5, 6), name="longer scenes")
    jobs = [{"k": "scene", "tracks": TRACKS, "scene": c["scene"], "ch": "sim_agents"} for c in cs]
    n0 = len(jobs)
    for l in ("x", "y", "z", "h"):
        i = "xyzh".index(l)
        for d in (-1, 1, -80, 11):
            s = good(TRACKS, "sim_agents")
            s[1]["len"][i] += d
            jobs.append({"k": "scene", "tracks": TRACKS, "scene": s, "ch": "sim_agents"})

    def tracks():
        n = rng.randint(0, 9)
        ids = rng.sample(range(0, rng.choice([12, 5000])), n)
        return [{"id": i, "now": rng.random() < .6, "other": rng.random() < .5} for i in ids]

    for _ in range(ctx.pick(700, 8000)):
        tr, ch = tracks(), rng.choice(list(STEPS))
        s = good(tr, ch)
        rng.shuffle(s)
        if rng.random() < .75:
            s = spoil(rng, s, tr, ch)
        jobs.append({"k": "scene", "tracks": tr, "scene": s, "ch": ch})
    for _ in range(ctx.pick(90, 700)):
        tr, ch = tracks()[:4], rng.choice(list(STEPS))
        g = good(tr, ch)
        sc = [g] * rng.choice([32] * 9 + [31, 33, 0, 1, 64])
        k = rng.random()
        if k < .55 and sc:
            sc = list(sc)
            i = rng.choice([0, len(sc) - 1, rng.randrange(len(sc))])
            sc[i] = spoil(rng, g, tr, ch)
        elif k < .7:
            sc = [rng.sample(g, len(g)) for _ in sc]
        jobs.append({"k": "set", "tracks": tr, "ch": ch, "r": {"named": rng.random() < .9, "scenes": sc}, "default": rng.random() < .5})
    for _ in range(ctx.pick(150, 1500)):
        tr = tracks() or [{"id": 4, "now": rng.random() < .5}]
        n = len(tr)
        jobs.append({"k": "ids", "ch": rng.choice(list(STEPS)), "sc": {
            "tracks": tr, "sdc": rng.randrange(n), "ttp": [rng.randrange(n) for _ in range(rng.randint(0, 4))]}})
    groups = []
    for j, r in zip(jobs, guarded(do, jobs)):
        e = {"k": j["k"], "ch": j["ch"], "exc": r.get("exc", ""), "_msg": r.get("msg", "")}
        if j["k"] == "ids":
            e["sc"] = dict(j["sc"], tracks=[{"id": t["id"], "now": t["now"]} for t in j["sc"]["tracks"]])
        else:
            e["tracks"] = [{"id": t["id"], "now": t["now"]} for t in j["tracks"]]
        if j["k"] == "scene":
            e["scene"] = clean(j["scene"])
        if j["k"] == "set":
            e["r"] = {"named": j["r"]["named"], "scenes": [clean(s) for s in j["r"]["scenes"]]}
            e["_w"] = 20
        e.update(r.get("ok", {}))
        groups.append([e])
    ctx.validate("TraceSimSubmission", groups, "submissions", samples=len(jobs) - n0)
