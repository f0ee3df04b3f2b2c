"""C29: joining component tables."""
from vlib.pyrun import guarded
from . import v2stub


INTS = {"int": "int64", "int32": "int32", "int8": "int8"}


def frame(t, j, pd):
    cols = {}
    for i, c in enumerate(t["keys"]):
        v = [r["k"][i] for r in t["rows"]]
        kind = j["kinds"].get(c, "str")
        s = pd.Series([int(x) for x in v], dtype=INTS[kind]) if kind in INTS else pd.Series(v, dtype="object")
        if kind == "cat":
            s = s.astype(pd.CategoricalDtype(sorted(j["all"])))
        elif kind == "owncat":
            s = s.astype("category")
        cols[c] = s
    for i, c in enumerate(t["vals"]):
        cols[c] = pd.Series([r["v"][i] for r in t["rows"]], dtype="object")
    names = j["order"](list(cols)) if j.get("order") else list(cols)
    return pd.DataFrame({c: cols[c] for c in names})


def txt(v):
    if isinstance(v, list):
        return "<" + ";".join(txt(x) for x in v) + ">"
    if isinstance(v, float):
        return "null" if v != v else str(int(v)) if v == int(v) else str(v)
    return "null" if v is None else str(v)


def table(df, t):
    return {"keys": t["keys"], "vals": t["vals"], "rows": [
        {"k": [txt(df[c].iloc[i]) for c in t["keys"]], "v": [txt(df[c].iloc[i]) for c in t["vals"]]} for i in range(len(df))]}


def do(j):
    import pandas as pd
    m = v2stub.load("dataframe_utils")
    a, b = frame(j["a"], j, pd), frame(j["b"], j, pd)
    o = j["opt"]
    kw = {}
    for n, k in (("left_nullable", "lnull"), ("right_nullable", "rnull"), ("left_group", "lgroup"), ("right_group", "rgroup")):
        if o[k] or j["tell"]:
            kw[n] = o[k]
    if j["prefix"] != "key.":
        kw["key_prefix"] = j["prefix"]
    e = {"exc": "", "rows": [], "cols": [], "types": []}
    try:
        out = m.merge(a, b, **kw)
        e["cols"] = [str(c) for c in out.columns]
        com = [c for c in j["a"]["keys"] if c in j["b"]["keys"]]
        rest = [c for c in j["a"]["keys"] if c not in com] + j["a"]["vals"] + [c for c in j["b"]["keys"] if c not in com] + j["b"]["vals"]
        e["types"] = [[j["kinds"][c], str(out[c].dtype)] for c in com if j["kinds"].get(c) in INTS and c in out.columns]
        e["types"] = [[INTS[k], t] for k, t in e["types"]]
        if set(e["cols"]) >= set(com + rest):
            e["rows"] = [{"on": [txt(out[c].iloc[i]) for c in com], "v": [txt(out[c].iloc[i]) for c in rest]} for i in range(len(out))]
    except Exception as ex:
        e["exc"], e["_msg"] = type(ex).__name__, str(ex)[:300]
    e["a1"], e["b1"] = table(a, j["a"]), table(b, j["b"])
    return e


def run(ctx):
    rng = ctx.rng
    v2stub.load("dataframe_utils")
    cfg = 'SPECIFICATION Spec\nCONSTANTS MaxRows = %d\nVals = {"0","1"}\nLKeys = {%s}\nRKeys = {%s}\nEmit = %s\nINVARIANTS Joins %s\n'
    cs = ctx.model_cases("MC_Join", cfg % (2, '"s","st"', '"s","so","st","ts"', "TRUE", "PrintCase"), name="small tables", workers=8)
    ctx.model("MC_Join", cfg % (ctx.pick(3, 4), '"st"', ctx.pick('"so"', '"s","so"'), "FALSE", ""), name="larger tables")
    jobs = []
    KINDS = ["str", "int", "int32", "int8", "cat", "owncat"]

    def names(t, p):
        return {"keys": [p + k for k in t["keys"]], "vals": t["vals"], "rows": t["rows"]}

    def job(a, b, opt, vals, p="key."):
        kinds = {p + k: rng.choice(KINDS) for k in ("s", "t", "o", "u")}
        jobs.append({"a": names(a, p), "b": names(b, p), "opt": opt, "kinds": kinds, "all": list(vals) + ["99"], "tell": rng.random() < .5,
                     "prefix": p})

    def opts():
        return {k: rng.random() < .5 for k in ("lnull", "rnull", "lgroup", "rgroup")}

    for c in cs:
        job(c["a"], c["b"], opts(), "01")
    n0 = len(jobs)

    def rand(keys, val, n, vals, uniq):
        rows, seen = [], set()
        for _ in range(n):
            k = [rng.choice(vals) for _ in keys]
            if uniq and tuple(k) in seen:
                continue
            seen.add(tuple(k))
            rows.append({"k": k, "v": ["%s%d" % (v, len(rows)) for v in val]})
        return {"keys": keys, "vals": val, "rows": rows}

    for _ in range(ctx.pick(1500, 15000)):
        vals = [str(i) for i in range(rng.choice([2, 3, 6]))]
        ks = ["s", "t", "o", "u"]
        com = rng.sample(ks, rng.choice([1, 1, 2, 2, 3]))
        left = [k for k in ks if k not in com]
        la = rng.sample(left, rng.randint(0, len(left)))
        lb = [k for k in left if k not in la]
        lb = rng.sample(lb, rng.randint(0, len(lb)))
        ka, kb = com + la, com + lb
        rng.shuffle(ka)
        rng.shuffle(kb)
        job(rand(ka, rng.choice([["[L].l"], ["[L].l", "[L].m[*]"], []]), rng.choice([0, 1, 3, 6, 9]), vals, rng.random() < .6),
            rand(kb, rng.choice([["[R].r"], ["[R].r", "[R].key.v"]]), rng.choice([0, 1, 3, 6, 9]), vals, rng.random() < .6), opts(), vals,
            rng.choice(["key.", "key.", "key.", "id_"]))
    groups = []
    for j, r in zip(jobs, guarded(do, jobs)):
        e = {"k": "merge", "a": j["a"], "b": j["b"], "opt": j["opt"], "a1": j["a"], "b1": j["b"], "exc": "", "rows": [], "cols": [], "types": [], "_kinds": j["kinds"]}
        e.update(r["ok"] if "ok" in r else {"exc": r["exc"], "_msg": r["msg"]})
        groups.append([e])
    ctx.validate("TraceJoin", groups, "joins", samples=len(jobs) - n0)
