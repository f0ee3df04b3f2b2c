"""C41: grids cut into tiles and put together, and the vectors of camera tokens."""
import importlib

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        imp = importlib.import_module
        _M["t"] = imp("waymo_open_dataset.utils.compression.tiling")
        _M["w"] = imp("waymo_open_dataset.utils.womd_camera_utils")
        _M["sc"] = D.module("protos.scenario_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def case_tiles(c):
    t, np, tf = _M["t"], _M["np"], _M["tf"]
    h, w, s, d = c["h"], c["w"], c["size"], c["d"]
    dt = np.int32 if c["whole"] else np.float32
    g = np.arange(h * w * d).reshape(h, w, d).astype(dt)
    ts = tfs.N(t.extract_tiles(tf.constant(g), s))
    out = [{"t": "cut", "g": g.astype(int).tolist(), "size": s, "got": ts.reshape(len(ts), s * s, -1).astype(int).tolist(), "ended": ""}]
    back = tfs.N(t.combine_tiles(tf.constant(ts), h, w, s))
    n = len(ts)
    other = (np.arange(n * s * s * d).reshape(n, -1) + 7).astype(dt)
    j = tfs.N(t.combine_tiles(tf.constant(other), h, w, s))
    out.append({"t": "join", "ts": other.reshape(n, s * s, d).astype(int).tolist(), "h": h, "w": w, "size": s, "got": j.astype(int).tolist(), "ended": ""})
    pairs = [["cut and put together", g.astype(int).tolist(), back.astype(int).tolist()], ["tiles are flat", [n, s * s * d], list(ts.shape)], ["numbers keep their type", [str(g.dtype)] * 2, [str(ts.dtype), str(back.dtype)]]]
    if s > 1:
        try:
            t.combine_tiles(tf.constant(np.zeros((n, s * s * d + 1), dtype=dt)), h, w, s)
            pairs.append(["tiles of another size are refused", "ValueError", ""])
        except ValueError:
            pass
    return out + [{"t": "pairs", "pairs": pairs, "ended": ""}]


def case_book(c):
    np = _M["np"]
    n = c["size"]
    book = np.stack([7 * np.arange(n), 7 * np.arange(n) + 1], axis=1).astype(np.float32)
    e = {"t": "book", "size": n, "tokens": c["tokens"], "got": [], "err": "", "ended": ""}
    try:
        e["got"] = _M["w"].get_camera_embedding_from_codebook(book, np.array(c["tokens"])).astype(int).tolist()
    except ValueError:
        e["err"] = "ValueError"
    return [e]


def tokens(s):
    return [[f.camera_tokens[0].camera_name if f.camera_tokens else 0] + list(f.camera_tokens[0].tokens if f.camera_tokens else []) for f in s.frame_camera_tokens]


def case_tokens(c):
    S = _M["sc"].Scenario

    def mk(rows, rest):
        s = S()
        for r in rows:
            f = s.frame_camera_tokens.add()
            if r:
                k = f.camera_tokens.add(camera_name=r[0])
                k.tokens.extend(r[1:])
        if rest:
            s.scenario_id = "a"
            s.timestamps_seconds.extend([0, .1])
            s.tracks.add(id=5).states.add(center_x=3)
        return s
    a, b = mk(c["old"], True), mk(c["more"], c["rest"])
    kept = a.SerializeToString(), b.SerializeToString()
    r = _M["w"].add_camera_tokens_to_scenario(a, b)
    alone = (a.SerializeToString(), b.SerializeToString()) == kept
    got = tokens(r)
    x, y = S(), S()
    x.CopyFrom(r)
    y.CopyFrom(a)
    x.ClearField("frame_camera_tokens")
    y.ClearField("frame_camera_tokens")
    return [{"t": "tokens", "old": tokens(a), "more": tokens(b), "got": got, "kept": x == y, "alone": alone, "ended": ""}]


DO = {"tiles": case_tiles, "book": case_book, "tokens": case_tokens}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


def fits(h, w, s):
    up = lambda n: -(-n // s) * s
    return up(h) < 2 * h and up(w) < 2 * w


def rand_tiles(rng):
    while True:
        h, w, s = rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 5)
        if fits(h, w, s):
            return {"t": "tiles", "h": h, "w": w, "size": s, "d": rng.randint(1, 3), "whole": rng.random() < .3}


def rand_book(rng):
    n = rng.randint(1, 9)
    return {"t": "book", "size": n, "tokens": [rng.choice([rng.randrange(n), rng.randrange(n), rng.randrange(n), 0, n - 1] + ([n, -1] if rng.random() < .3 else [])) for _ in range(rng.randint(1, 5))]}


def rand_tokens(rng):
    row = lambda: [rng.randint(1, 8)] + [rng.randint(0, 8191) for _ in range(rng.randint(0, 4))] if rng.random() < .8 else []
    return {"t": "tokens", "old": [row() for _ in range(rng.choice([0, 0, 1, 2]))], "more": [row() for _ in range(rng.randint(0, 4))], "rest": False}


CFG = """SPECIFICATION Spec
CONSTANTS Most = %d
Sizes = {1, 2, 3, 4%s}
Emit = TRUE
INVARIANTS Back Placed Everything Least PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cs = ctx.model_cases("MC_Tiles", CFG % (ctx.pick(6, 9), ctx.pick("", ", 5, 6")), name="all small grids, cut and put together")
    cases = [{"t": "tiles", "h": c["h"], "w": c["w"], "size": c["size"], "d": 1 + (c["h"] + c["w"]) % 3, "whole": False} for c in cs]
    n = ctx.pick(1, 12)
    for f, k in ((rand_tiles, 250), (rand_book, 250), (rand_tokens, 150)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceTiles", [events[i:i + 80] for i in range(0, len(events), 80)], "tiles", samples=len(events))
