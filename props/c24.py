"""C24: dataset components and their columns."""
import dataclasses
import random
import re
import typing

from vlib.pyrun import guarded
from . import v2stub

PARTS = "box camera_image context keypoints lidar object_asset pose segmentation".split()


def unwrap(t):
    return typing.get_args(t)[0] if typing.get_origin(t) is typing.Union else t


class Types:
    """Python classes for a described type, and descriptions for the dataset's own classes."""

    def __init__(self):
        self.comp = v2stub.load("component")
        self.made = {}
        real, made = self.comp.create_column, self.made

        def noted(arrow_type=None, is_repeated=False, **k):
            f = real(arrow_type=arrow_type, is_repeated=is_repeated, **k)
            made[id(f)] = (f, arrow_type, bool(is_repeated))
            return f

        self.comp.create_column = noted
        v2stub.load("column_types")
        self.mods = [v2stub.load("perception." + m) for m in PARTS]
        self.comp.create_column = real

    def build(self, T, opt):
        C = self.comp
        fs = []
        for f in T["fields"]:
            if f["sub"]:
                t = self.build(f["sub"][0], opt)
                if opt:
                    t = typing.Optional[t]
            else:
                t = int
            bare = not f["rep"] and f["sub"] and f.get("bare")
            fs.append((f["name"], t) if bare else (f["name"], t, C.create_column(
                **({"arrow_type": f["arrow"]} if not f["sub"] else {}), **({"is_repeated": True} if f["rep"] else {}))))
        base = (C.Component,) if T["comp"] else (C.Key,) if T["iskey"] else ()
        # a part is there when it is there, also when it counts as false
        odd = {} if not opt or opt.random() < .7 else {"__len__": lambda self: 0} if opt.random() < .5 else {"__bool__": lambda self: False}
        return dataclasses.make_dataclass(T["name"], fs, bases=base, frozen=True, namespace=odd)

    def describe(self, cls):
        C = self.comp
        fs = []
        for f in dataclasses.fields(cls):
            _, arrow, rep = self.made.get(id(f), (f, None, False))
            t = unwrap(f.type)
            fs.append({"name": f.name, "rep": rep, "arrow": "" if dataclasses.is_dataclass(t) else str(arrow),
                       "sub": [self.describe(t)] if dataclasses.is_dataclass(t) else []})
        return {"comp": issubclass(cls, C.Component), "name": cls.__name__, "iskey": issubclass(cls, C.Key), "fields": fs}

    def real(self):
        out, todo = [], [self.comp.Component]
        while todo:
            for k in todo.pop().__subclasses__():
                if k.__module__.startswith("waymo_open_dataset") and k not in out:
                    out.append(k)
                    todo.append(k)
        out = [k for k in out if dataclasses.fields(k)]
        return sorted(out, key=lambda k: (k.__module__, k.__name__))


class Box:
    """A leaf value that is itself: read back by identity."""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def tok(v):
    return "null" if v is None else v.s if isinstance(v, Box) else "?" + type(v).__name__


def instance(cls, T, rng, absent, p="v"):
    """(object, value tree)"""
    kw, parts = {}, []
    for i, (f, d) in enumerate(zip(dataclasses.fields(cls), T["fields"])):
        if d["sub"]:
            if not d["sub"][0]["iskey"] and rng.random() < absent:
                kw[f.name], t = None, {"absent": True, "leaf": "", "parts": []}
            else:
                kw[f.name], t = instance(unwrap(f.type), d["sub"][0], rng, absent, p + str(i) + ".")
        else:
            v = None if rng.random() < absent / 2 else Box(p + str(i))
            kw[f.name], t = v, {"absent": False, "leaf": tok(v), "parts": []}
        parts.append(t)
    return cls(**kw), {"absent": False, "leaf": "", "parts": parts}


def tree(o, cls, T):
    if o is None:
        return {"absent": True, "leaf": "", "parts": []}
    parts = []
    for f, d in zip(dataclasses.fields(cls), T["fields"]):
        v = getattr(o, f.name) if type(o) is cls else Box("not a %s" % T["name"])
        parts.append(tree(v, unwrap(f.type), d["sub"][0]) if d["sub"] else {"absent": False, "leaf": tok(v), "parts": []})
    return {"absent": False, "leaf": "", "parts": parts}


def do(j):
    rng = random.Random(j["seed"])
    T, cls = j["T"], j["cls"]
    if cls is None:
        cls = j["types"].build(T, rng if j["absent"] > 0 or rng.random() < .3 else None)
    o, x = instance(cls, T, rng, j["absent"])
    e = {"k": "value", "T": T, "x": x, "exc": "", "rexc": "", "schema": [], "cols": [], "row": [], "back": x, "after": x}
    try:
        s = cls.schema()
        e["schema"] = [{"n": n, "t": str(t)} for n, t in zip(s.names, s.types)]
        c = o.to_flatten_dict()
        e["cols"] = [{"n": n, "v": tok(v)} for n, v in c.items()]
        e["after"] = tree(o, cls, T)
    except Exception as ex:
        e["exc"], e["_msg"] = type(ex).__name__, str(ex)[:200]
        return e
    row = list(c.items())
    for n in j["extra"]:
        if n not in c:
            row.append((n, Box("other")))
    if j["drop"] and row:
        del row[rng.randrange(len(row))]
    if j["mix"]:
        rng.shuffle(row)
    e["row"] = [{"n": n, "v": tok(v)} for n, v in row]
    try:
        e["back"] = tree(cls.from_dict(dict(row)), cls, T)
    except Exception as ex:
        e["rexc"], e["_msg"] = type(ex).__name__, str(ex)[:200]
    return e


def grown(rng, fields, depth, names, comp=False, key=False, name="C", many=None):
    T = {"comp": comp, "name": name, "iskey": key, "fields": []}
    for i, n in enumerate(rng.sample(names, min(len(names), rng.randint(1, fields)))):
        f = {"name": n, "rep": rng.random() < .3, "arrow": "t%d(%s)" % (rng.randrange(9), n), "sub": []}
        if depth and rng.random() < .5:
            f.update(arrow="", rep=rng.random() < .3, sub=[grown(rng, fields, depth - 1, names, name="N" + n, key=comp and rng.random() < .2)])
            f["bare"] = rng.random() < .5
        T["fields"].append(f)
    if comp and rng.random() < .8:
        T["fields"] = [f for f in T["fields"] if f["name"] != "key"]
        T["fields"].insert(0, {"name": "key", "rep": False, "arrow": "", "bare": True,
                               "sub": [grown(rng, 4, 0, ["context", "a", "t", "o"], name="K", key=True)]})
    return T


def kind(t):
    s = t.__name__ if isinstance(t, type) and not typing.get_args(t) else str(t)
    m = re.match(r"^(?:typing\.)?[lL]ist\[(.*)\]$", s)
    return "list " + m.group(1) if m else s


def stored(a):
    a = str(a)
    m = re.match(r"^list_\((.*)\)$", a)
    return "list " + stored(m.group(1)) if m else (
        "int" if re.match(r"^u?int\d", a) else "float" if a.startswith("float") else "str" if a.startswith("string") else
        "bytes" if a.startswith("binary") else "bool" if a.startswith("bool") else a)


def leaves(types, cls, rep=False):
    for f in dataclasses.fields(cls):
        _, arrow, r = types.made.get(id(f), (f, None, False))
        t = unwrap(f.type)
        if dataclasses.is_dataclass(t):
            yield from leaves(types, t, rep or r)
        else:
            w = kind(t)
            yield {"arrow": str(arrow), "want": w if re.match(r"^(list )?(int|float|str|bytes|bool)$", w) else "", "kind": stored(arrow)}


def run(ctx):
    rng = ctx.rng
    types = Types()
    inv = "INVARIANTS NamesDiffer SameColumns RoundTrip ReadAgain NothingElse OtherName"
    cs = ctx.model_cases("MC_Components", 'SPECIFICATION Spec\nCONSTANTS MaxFields = 4\nMaxDepth = 2\nFieldNames = {"a","b"}\nEmit = TRUE\n%s PrintCase\n' % inv,
                         name="types of four fields", workers=8)
    if ctx.thorough:
        cs += ctx.model_cases("MC_Components", 'SPECIFICATION Spec\nCONSTANTS MaxFields = 5\nMaxDepth = 3\nFieldNames = {"a","ab"}\nEmit = TRUE\n%s PrintCase\n' % inv,
                              name="types of five fields", workers=8)
    ctx.model("MC_Components", 'SPECIFICATION Spec\nCONSTANTS MaxFields = %d\nMaxDepth = 3\nFieldNames = {"a","x"}\nEmit = FALSE\n%s\n' % (ctx.pick(5, 6), inv), name="larger types")
    jobs = []

    def job(T, cls=None):
        others = [] if rng.random() < .4 else rng.sample(
            ["[D].a", "[D].x", "[D].a.b", "[Cc].x", "key.z", "key.other", "[D].box.center.x", "[D].type", "index", "[D].b[*]", "[Dd].a[*].b"], 4)
        jobs.append({"T": T, "cls": cls, "types": types, "absent": rng.choice([0, 0, .3, .6]), "seed": rng.random(), "extra": others,
                     "mix": rng.random() < .6, "drop": rng.random() < .12})

    for c in cs:
        job(c)
    n0 = len(jobs)
    for _ in range(ctx.pick(1200, 12000)):
        names = rng.choice([["a", "b", "c"], ["x", "y", "z", "center", "size", "heading"], ["a", "ab", "abc", "a_b", "key", "b"], ["key", "a", "t", "o", "C"]])
        job(grown(rng, rng.randint(1, 4), rng.randint(0, 3), names, comp=True, name=rng.choice(["C", "CC", "a"])))
    real = types.real()
    for k in real:
        T = types.describe(k)
        for _ in range(ctx.pick(12, 60)):
            job(T, k)
    groups = []
    for j, r in zip(jobs, guarded(do, jobs)):
        groups.append([r["ok"] if "ok" in r else {"k": "value", "T": j["T"], "exc": r["exc"], "_msg": r["msg"]}])
    cols = []
    for k in real:
        try:
            groups.append([{"k": "kinds", "exc": "", "leaves": list(leaves(types, k)), "_c": k.__name__}])
        except Exception as ex:
            groups.append([{"k": "kinds", "exc": type(ex).__name__, "leaves": []}])
        names = list(k.schema().names)
        cols.append({"own": [n for n in names if n.startswith("[")], "key": [n for n in names if n.startswith("key.")]})
    groups.append([{"k": "set", "names": [k.__name__ for k in real], "cols": cols}])
    ctx.validate("TraceComponents", groups, "components", samples=len(jobs) - n0)
