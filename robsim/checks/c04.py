"""C04: seeded and deterministic estimators are exactly reproducible."""
import json
import os
import subprocess
import sys

from robsim import data as dat
from robsim.checks.common import *  # noqa


def seeded_subject(rng, name=None):
    while True:
        s = catalog.large(rng, catalog.degenerate(rng, catalog.subject(rng, name), 0.1), 0.05)
        key = catalog.C[s["cls"]]["random"]
        if key and s["params"].get(key) is None:
            s["params"][key] = rng.choice([0, 1, 3, 42, 2024, 123456789])
        if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
            s["data"].update(n=12, p=1)
            s["queries"] = []
        if s["cls"] in ("FastMCD", "ROBPCA", "FastLTSRegression") and rng.random() < 0.5:
            # many local optima: any other sequence of draws ends elsewhere
            d = s["data"]
            d.update(n=rng.choice([80, 120, 160]), kind=rng.choice(["unif", "t"]),
                     p=4 if s["cls"] != "FastLTSRegression" else 3)
            for k in ("out", "vout", "dup", "round"):
                d.pop(k, None)
            for q in s["queries"]:
                if q.get("data"):
                    q["data"]["p"] = d["p"]
            s["queries"] = [q for q in s["queries"] if not q.get("plot") and "eye" not in q]
            if s["cls"] == "ROBPCA":
                s["params"].update(n_components=rng.choice([2, 3]), alpha=0.5)
                s["params"].pop("k_min_var_explained", None)
                if rng.random() < 0.7:
                    s["params"].pop("final_MCD_step", None)
            else:
                s["params"]["alpha"] = 0.5
        return s


FORMS = ["int", "int", "narrow", "narrow", "intframe", "readonly", "strided", "fortran", "frame"]
# number type -> units per standard deviation
NARROW = {"int32": 40000, "int16": 5000, "uint8": 25, "uint16": 5000, "uint32": 40000}


def gen_delivery(rng):
    """The same values, delivered in another container, memory layout or number type."""
    while True:
        s = seeded_subject(rng)
        if s["cls"] not in ("DataCleaner",):
            break
    frames = s["cls"] == "DDC"
    how = rng.choice([f for f in FORMS if not frames or f == "intframe"])
    if s["cls"] in ("ROBPCA", "PCALocantore", "InitialDDCW", "CellMCD") and "frame" in how:
        how = "int"
    if s["data"].get("what") == "x":
        how = rng.choice(["int", "narrow", "narrow", "readonly", "strided"])
    narrow = None
    if frames and rng.random() < 0.5:
        how, narrow = "narrowframe", rng.choice(sorted(NARROW))
    if how == "narrow":
        how = rng.choice(sorted(NARROW))
    s["queries"] = [q for q in s["queries"] if not q.get("plot")]
    for d in [s["data"]] + [q["data"] for q in s["queries"] if q.get("data")]:
        for k in ("deg", "nan", "inf", "round", "dup", "index", "colscale"):
            d.pop(k, None)
        d["form"] = "frame" if frames else "array"
        if how in NARROW or narrow:
            d.update(integer=NARROW[narrow or how], into=narrow or how)
            if d.get("out"):
                d["out"]["size"] = min(d["out"]["size"], 5)
            if d.get("kind") in ("skew", "t", "ramp", "grid"):
                d["kind"] = "gauss"
            continue
        if "int" in how:
            d["integer"] = rng.choice([10, 300, 300, 10000])
            if d.get("out"):
                d["out"]["size"] = min(d["out"]["size"], 1000)
    for q in s["queries"]:
        if q.get("data"):
            q["data"]["integer"] = s["data"].get("integer")
            if s["data"].get("into"):
                q["data"]["into"] = narrow or how
    return {"subs": [subject_ops(rng, "s0", s)], "deliver": how, "fresh": False}


def delivered(ops, how):
    out = []
    for o in ops:
        o = dict(o)
        if o.get("data"):
            o["data"] = dict(o["data"], form=how)
        out.append(o)
    return out


def rounding_sensitive(ops, a):
    """Does noise of the size of rounding errors on the data change the outcome as well?"""
    for j in range(4):
        c, _, _ = solo([dict(o, data=dict(o["data"], jitter=1e-13, jseed=j)) if o.get("data") else o
                        for o in ops])
        if cmp.diff(a, c, rtol=1e-7, atol=1e-7):
            return True
    return False


def run_delivery(scn):
    r = R()
    ops = scn["subs"][0]
    a, steps, _ = solo(ops)
    b, _, _ = solo(delivered(ops, scn["deliver"]))
    tol = 1e-9 if scn["deliver"] in dat.INTS + ("readonly", "narrowframe") else 1e-6
    for k, op in enumerate(ops):
        r.log(cmp.digest(a[k]))
        if is_hang(a[k]) or is_hang(b[k]):
            break
        d = cmp.diff(a[k], b[k], rtol=tol, atol=tol)
        if d and tol > 1e-8 and rounding_sensitive(ops, a):
            r.stat("rounding_sensitive")
            r.nontrivial = False
            break
        if d:
            r.fail(f"depends-on-delivery:{scn['deliver']}:{ops[0].get('cls')}",
                   f"{short([op])} of the same values delivered as {scn['deliver']}: {d}")
            break
    r.fault("delivery_" + scn["deliver"])
    r.stat("steps", steps)
    r.sig = cmp.digest([short(ops), scn["deliver"], steps])
    return r.done()


def gen(rng, tier, idx):
    if idx % 25 != 7 and rng.random() < 0.2:
        return gen_delivery(rng)
    fresh = idx % 25 == 7  # also compare with a new interpreter under another PYTHONHASHSEED
    subs = []
    for i in range(8 if fresh else 1):
        s = seeded_subject(rng, ["DataCleaner", "DDC"][i] if i < 2 and fresh else None)
        subs.append(subject_ops(rng, f"s{i}", s))
    if rng.random() < 0.15 and not fresh:
        subs = [[catalog.func_op(rng)]]
    hist = []
    for i in range(rng.choice([0, 1, 2])):
        h = seeded_subject(rng)
        if rng.random() < 0.5 and subs[0][0]["op"] == "new":
            h = catalog.subject(rng, subs[0][0]["cls"])
        if h["cls"] != "MMRegression":
            hist += subject_ops(rng, f"h{i}", h, with_queries=False)
    if rng.random() < 0.2:
        hist.append(catalog.func_op(rng))
    return {"subs": subs, "history": hist, "alt_entropy": rng.randrange(1 << 31),
            "clock": rng.randrange(1 << 30), "thread": rng.random() < 0.5,
            "tz": rng.choice(["UTC", "Asia/Tokyo"]), "fresh": fresh,
            "hashseed": str(rng.randrange(1, 100000)), "repeat": rng.random() < 0.4,
            "burn": rng.choice([0, 1, 17])}


def run_alt(scn):
    """Everything the result may not depend on is different here."""
    import numpy as np

    seams.set_entropy(scn["alt_entropy"])
    np.random.rand(scn["burn"])
    clk = seams.install_clock(scn["clock"])
    if scn["history"]:
        run_ops(scn["history"])
    out = []
    if scn["thread"]:
        sim = sched.Sim()
        w = catalog.World()
        sim.add(lambda: None)
        for ops in scn["subs"]:
            sim.add(lambda ops=ops: out.append([w.run(o) for o in ops]), limit=SOLO_LIMIT)
        sim.run()
        for t in sim.tasks:
            if t.error is not None:
                raise RuntimeError(f"harness: {t.error!r}")
    else:
        for ops in scn["subs"]:
            out.append(run_ops(ops)[0])
    rep = None
    if scn["repeat"]:
        rep = [run_ops(ops)[0] for ops in scn["subs"]]
    return out, rep, clk.elapsed, clk.reads, clk.jumped


def run(scn):
    if scn.get("deliver"):
        return run_delivery(scn)
    r = R()
    base = [solo(ops) for ops in scn["subs"]]
    out, rep, el, reads, jumped = proc.isolate(lambda: run_alt(scn))
    r.simtime = el
    variants = [("other entropy/clock/history/thread", out)]
    if rep:
        variants.append(("second time in the same process", rep))
    if scn["fresh"]:
        env = dict(os.environ, PYTHONHASHSEED=scn["hashseed"], TZ=scn["tz"])
        p = subprocess.run([sys.executable, "-m", "robsim.checks.c04"], env=env, text=False,
                           input=json.dumps(scn).encode(), capture_output=True, timeout=200)
        if p.returncode != 0:
            raise RuntimeError("harness: fresh interpreter failed: " + p.stderr.decode()[-500:])
        variants.append(("new interpreter, other PYTHONHASHSEED",
                         cmp.loads(bytes.fromhex(p.stdout.decode().strip()))))
        r.fault("new_interpreter_hashseed")
    for name, res in variants:
        for i, ops in enumerate(scn["subs"]):
            for k, op in enumerate(ops):
                a, b = res[i][k], base[i][0][k]
                r.log(cmp.digest(b))
                if undecided(a, b):
                    break
                d = cmp.diff(a, b, rtol=0, atol=0)
                if d:
                    r.fail(f"not-reproducible:{ops[0].get('cls') or ops[0].get('f')}",
                           f"{short([op])} under '{name}': {d}")
                    break
    r.fault("entropy_change", len(scn["subs"]))
    r.fault("clock_reads", reads)
    r.fault("clock_jumps", jumped)
    r.fault("history_ops", len(scn["history"]))
    r.stat("steps", sum(b[1] for b in base))
    r.stat("threaded", scn["thread"])
    r.sig = cmp.digest([[short(o) for o in scn["subs"]], [b[1] for b in base]])
    return r.done()


def _fresh_main():
    import warnings

    from robsim import boot

    out = os.fdopen(os.dup(1), "w")
    boot.boot()
    scn = json.loads(sys.stdin.read())
    catalog.silence()
    warnings.simplefilter("ignore")
    seams.set_entropy(scn["alt_entropy"] + 1)
    res = [run_ops(ops)[0] for ops in scn["subs"]]
    out.write(cmp.dumps(res).hex())
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    _fresh_main()
