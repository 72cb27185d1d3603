"""C11: saved, copied and restored models behave like the original."""
import copy
import math
import pickle

import numpy as np

from robsim import data as dat
from robsim.checks.c10 import tame
from robsim.checks.common import *  # noqa

HOW = ["pickle2", "pickle3", "pickle4", "pickle5", "pickle5", "deepcopy", "clone", "pickle2x"]


def gen(rng, tier, idx):
    s = tame(rng, catalog.with_callbacks(rng) if rng.random() < 0.15 else catalog.subject(rng))
    how = rng.choice(HOW)
    if how == "clone" and s["cls"] not in catalog.SKLEARN:
        how = "deepcopy"
    life = subject_ops(rng, "a", s)[:1]
    for _ in range(rng.choice([0, 0, 1, 2])):
        d = catalog.C[s["cls"]]["data"](rng)
        if rng.random() < 0.3:
            d["spoil"] = rng.choice(dat.SPOILS)
        life.append({"op": "fit", "id": "a", "data": d})
    if rng.random() < 0.85:
        life.append({"op": "fit", "id": "a", "data": s["data"]})
    qs = [dict(q, op="q", id="a") for q in s["queries"]]
    life += [q for q in qs if rng.random() < 0.4]
    after = [dict(q) for q in qs]
    if rng.random() < 0.5:
        d = catalog.C[s["cls"]]["data"](rng)
        after.append({"op": "fit", "id": "a", "data": d})
        after += [dict(q, op="q", id="a") for q in catalog.C[s["cls"]]["queries"](rng, d)]
    other = catalog.C[s["cls"]]["data"](rng)
    return {"cls": s["cls"], "how": how, "life": life, "after": after, "other": other,
            "interrupt": rng.choice([None, None, None, 5, 40, 300, 2000]),
            "concurrent": rng.random() < 0.3, "plan": rng.randrange(1 << 30)}


def save(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "clone":
        from sklearn.base import clone

        return clone(o)
    if how == "pickle2x":
        return pickle.dumps(pickle.loads(pickle.dumps(o)))
    return pickle.dumps(o, protocol=int(how[-1]))


def restore(s):
    return pickle.loads(s) if isinstance(s, bytes) else s


def step(w, ops, ident, mixed=False):
    """Run ops; every fit gets the same entropy in the original and in the copy.

    `mixed`: the last fit of the object failed after an earlier one had succeeded; queries of such an
    object are unspecified until it is fitted again and are left out."""
    outs = []
    for i, op in enumerate(ops):
        if op["op"] == "fit":
            mixed = False
        if mixed:
            outs.append(None)
            continue
        seams.entropy_ident(ident + i)
        outs += run_ops([op], w)[0]
    import matplotlib.pyplot as plt

    plt.close("all")
    return outs


def live(scn, w, r=None):
    life = scn["life"]
    k = len(life) - 1
    ok = bad = False
    for i, op in enumerate(life):
        seams.entropy_ident(i)
        ints = {scn["interrupt"]: lambda: MemoryError("injected")} \
            if i == k and k > 0 and scn["interrupt"] else None
        out = run_ops([op], w, interrupts=ints)[0][0]
        if op["op"] == "fit":
            bad = "exc" in out
            ok = ok or not bad
    return ok and bad


def original(scn):
    w = catalog.World()
    mixed = live(scn, w)
    st0 = catalog.observe(w.objs["a"]), catalog.params_of(w.objs["a"])
    conc = []
    err = None
    try:
        if scn["concurrent"] and scn["after"] and not mixed:
            n = max(2, run_ops_steps(scn))
            g = random.Random(scn["plan"])
            sim = sched.Sim()
            box = []
            qs = meanwhile(scn)
            sim.add(lambda: conc.extend(w.run(o) for o in qs), limit=SOLO_LIMIT,
                    preempts=[(g.randrange(1, n), 1)])
            sim.add(lambda: box.append(save(w.objs["a"], scn["how"])), limit=SOLO_LIMIT)
            sim.run(0)
            for t in sim.tasks:
                if t.error is not None:
                    raise t.error
            blob = box[0]
        else:
            with sched.Solo(limit=SOLO_LIMIT):
                blob = save(w.objs["a"], scn["how"])
    except Exception as e:
        return {"save_error": repr(e)[:300]}
    st1 = catalog.observe(w.objs["a"]), catalog.params_of(w.objs["a"])
    blobs = pickle.dumps(blob) if not isinstance(blob, bytes) else blob
    outs = step(w, scn["after"], 50, mixed)
    return {"st0": st0, "st1": st1, "blob": blobs, "outs": outs, "mixed": mixed}


def meanwhile(scn):
    """Queries that leave the model alone (DataCleaner reports on its last transform)."""
    return [o for o in scn["after"] if o["op"] == "q" and not o.get("plot")
            and not (scn["cls"] == "DataCleaner" and o.get("m"))]


def run_ops_steps(scn):
    """Steps of the queries that run while the model is being saved."""
    def fn():
        w = catalog.World()
        live(scn, w)
        return run_ops(meanwhile(scn), w)[1]
    return proc.isolate(fn)


def restored(scn, blob, mixed=False):
    w = catalog.World()
    o = pickle.loads(blob)
    w.objs["a"] = o
    st = catalog.observe(o), catalog.params_of(o)
    return {"st": st, "outs": step(w, scn["after"], 50, mixed)}


def scribble(o, depth=0, seen=None):
    """Overwrite every array reachable through the attributes of an object."""
    seen = set() if seen is None else seen
    if depth > 4 or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind == "f":
            o[...] = -12345.0
        return
    if isinstance(o, dict):
        for v in o.values():
            scribble(v, depth + 1, seen)
    elif isinstance(o, (list, tuple)):
        for v in o:
            scribble(v, depth + 1, seen)
    elif hasattr(o, "__dict__") and type(o).__module__.split(".")[0] in ("robpy", "sklearn"):
        for k, v in list(vars(o).items()):
            if isinstance(v, float) and depth > 0 and math.isfinite(v):
                setattr(o, k, 2.0 * v + 0.25)  # e.g. the tuning constant of a rho function
            scribble(v, depth + 1, seen)


def both(scn):
    """Original and copy in one process: whatever happens to one does not touch the other."""
    out = {}
    for which in (0, 1):
        w = catalog.World()
        mixed = live(scn, w)
        a = w.objs["a"]
        b = restore(save(a, scn["how"]))
        mine, its = (a, b) if which == 0 else (b, a)
        w2 = catalog.World()
        w2.objs["a"] = its
        step(w2, [{"op": "fit", "id": "a", "data": scn["other"]}], 90)
        scribble(its)
        w3 = catalog.World()
        w3.objs["a"] = mine
        out[which] = {"st": (catalog.observe(mine), catalog.params_of(mine)),
                      "outs": step(w3, scn["after"], 50, mixed and (scn["how"] != "clone"
                                                                    or which == 0))}
    return out


def compare(r, kind, what, scn, got, want):
    for op, a, b in zip(scn["after"], got, want):
        if undecided(a, b):
            return
        d = cmp.diff(a, b)
        if d:
            r.fail(f"{kind}:{scn['cls']}", f"{what}: {short([op])} differs: {d}")
            return
        if op["op"] == "fit" and "exc" in b:
            return


def fresh(scn):
    w = catalog.World()
    run_ops(scn["life"][:1], w)
    return {"st": (catalog.observe(w.objs["a"]), catalog.params_of(w.objs["a"])),
            "outs": step(w, scn["after"], 50)}


def run(scn):
    r = R()
    o = proc.isolate(original, scn)
    what = f"{scn['cls']} {scn['how']} after {short(scn['life'])}"
    if scn["interrupt"]:
        r.fault("MemoryError before save")
    if "save_error" in o:
        r.fail(f"cannot-save:{scn['cls']}", f"{what}: {o['save_error']}")
        return r.done()
    if cmp.diff(o["st0"], o["st1"], 0, 0):
        r.fail(f"saving-changes:{scn['cls']}", f"{what}: {cmp.diff(o['st0'], o['st1'], 0, 0)}")
    if scn["how"] == "clone":
        # the clone is an unfitted object with the same parameters
        ref = proc.isolate(fresh, scn)
        d = cmp.diff(strip(o["st1"][1]), strip(proc.isolate(restored, scn, o["blob"])["st"][1]), 0, 0)
    else:
        ref = {"st": o["st1"], "outs": o["outs"]}
        d = None
    if d:
        r.fail(f"clone-parameters:{scn['cls']}", f"{what}: {d}")
    try:
        c = proc.isolate(restored, scn, o["blob"], o["mixed"] and scn["how"] != "clone")
    except proc.ChildError as e:
        if "pickle" not in str(e) and "__setstate__" not in str(e) and "Error" not in str(e):
            raise
        r.fail(f"cannot-restore:{scn['cls']}", f"{what}: {str(e)[:300]}")
        return r.done()
    r.fault("crash and restart")
    if scn["concurrent"]:
        r.fault("saved during a query")
    d = cmp.diff(c["st"], ref["st"], 0, 0)
    if d:
        r.fail(f"state-lost:{scn['cls']}", f"{what}: restored attributes differ: {d}")
    compare(r, "restored-differs", what + " restored in a new process", scn, c["outs"], ref["outs"])
    b = proc.isolate(both, scn)
    compare(r, "not-independent", what + " after the copy was refitted and overwritten", scn,
            b[0]["outs"], o["outs"])
    compare(r, "not-independent", what + " (the copy) after the original was refitted and overwritten",
            scn, b[1]["outs"], ref["outs"])
    r.fault("copy overwritten", 2)
    r.sig = cmp.digest([scn["cls"], scn["how"], short(scn["life"]), short(scn["after"]),
                        scn["interrupt"]])
    r.log(cmp.digest(o["outs"]))
    r.log(cmp.digest(c["outs"]))
    r.stat("how_" + scn["how"])
    return r.done()


def strip(p):
    return {k: v for k, v in p.items() if not (isinstance(v, dict) and "obj" in v)}
