"""C08: a failing linear-algebra or allocation call is skipped or reported, never garbled."""
import numpy as np

from robsim.checks.common import *  # noqa


def s_candidates(rng):
    k = rng.choice([3, 4, 6, 8])
    d = {"n_initial_subsets": k, "n_best_subsets": k, "random_state": rng.choice([0, 7, 101, 4321])}
    if rng.random() < 0.5:
        d["n_best_subsets"] = rng.choice([1, 1, 2])
    if rng.random() < 0.25:
        d["fit_intercept"] = False
    return d


def gen(rng, tier, idx):
    k = rng.random()
    if k < 0.3:
        s = catalog.subject(rng, "SRegression")
        s["params"] = s_candidates(rng)
    elif k < 0.4:
        s = catalog.subject(rng, "MMRegression")
        s["params"]["initial_estimator"] = {"$new": "SRegression", "params": s_candidates(rng)}
    elif k < 0.47:
        s = {"cls": None, "func": catalog.func_op(rng)}
    elif k < 0.54:
        s = catalog.subject(rng, rng.choice(["CellMCD", "CellMCD", "DetMCD", "FastMCD"]))
    else:
        s = catalog.subject(rng, "FastLTSRegression" if rng.random() < 0.15 else None)
        if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
            s["params"]["initial_estimator"] = {"$new": "SRegression", "params": s_candidates(rng)}
    kind = rng.choice(["linalg", "linalg", "linalg", "alloc"])
    return {"s": s, "kind": kind,
            "exc": "MemoryError" if kind == "alloc" else rng.choice(["LinAlgError", "LinAlgError",
                                                                     "LinAlgError", "MemoryError"]),
            "nfault": rng.choice([1, 1, 1, 1, 2, 3]), "persist": rng.random() < 0.12,
            "plan": rng.randrange(1 << 30), "refit": rng.random() < 0.25}


def s_params(s):
    if s["cls"] == "SRegression":
        return s["params"]
    if s["cls"] == "MMRegression":
        i = s["params"].get("initial_estimator")
        if i is None or i["$new"] == "SRegression":
            return (i or {}).get("params", {})
    return None


def single(scn, sp, **kw):
    """Final scale of an S-regression with other numbers of starts (None: it fails)."""
    o, _, _ = run_ops([{"op": "new", "id": "c", "cls": "SRegression", "params": dict(sp, **kw)},
                       {"op": "fit", "id": "c", "data": scn["s"]["data"]}])
    return o[1]["ok"]["state"]["scale"] if "ok" in o[1] else None


def few_best(scn, r, sp, k, k0, free, out, what, nm):
    """One start was lost and only the best one or two starts are refined: the result must come from
    the starts that would be selected among the remaining ones."""
    rs = sp.get("random_state", 101)
    c = [single(scn, sp, n_initial_subsets=1, n_best_subsets=1, random_state=rs + i)
         for i in range(k0)]
    if any(x is None for x in c):
        return r.done()
    eq = lambda a, b: abs(a - b) <= 1e-6 * max(abs(a), abs(b))  # noqa: E731
    first = single(scn, sp, n_best_subsets=1)
    sel = [i for i in range(k0) if eq(c[i], first)]
    fs, got = free["ok"]["state"]["scale"], out["ok"]["state"]["scale"]
    if len(sel) != 1 or (k == 1 and not eq(fs, first)):
        r.stat("oracle_not_applicable")
        return r.done()
    i = sel[0]
    # the best start of the remaining ones is the best of those before it or of those after it
    nxt = []
    if i > 0:
        nxt.append(single(scn, sp, n_initial_subsets=i, n_best_subsets=1))
    if i < k0 - 1:
        nxt.append(single(scn, sp, n_initial_subsets=k0 - 1 - i, n_best_subsets=1,
                          random_state=rs + i + 1))
    if any(x is None for x in nxt) or not nxt:
        return r.done()
    r.stat("selection_after_a_lost_start_checked")
    if k == 1:
        # (a failure during the refinement itself ends it early: then it is no start's final scale)
        if not any(eq(got, x) for x in [first, *nxt]) and any(eq(got, x) for x in c):
            r.fail(f"not-the-best-remaining:{nm}",
                   f"{what}: scale {got}; the best start gives {first}, the next best one of {nxt}, "
                   f"all of them {c}")
    elif got > max(first, *nxt) * (1 + 1e-6):
        r.fail(f"worse-than-remaining:{nm}",
               f"{what}: scale {got}; two starts were to be refined, the best gives {first}, the next "
               f"best one of {nxt}")
    return r.done()


def run(scn):
    r = R()
    s = scn["s"]
    if s["cls"] is None:
        ops = [s["func"]]
        if ops[0]["kw"].get("plot"):
            ops[0]["kw"]["plot"] = False
    else:
        ops = subject_ops(random.Random(0), "m", s, with_queries=False)
    nm = s["cls"] or s["func"]["f"]

    def once(fail_at=(), record=False):
        seams.entropy_ident(0)
        w = catalog.World()
        if s["cls"] is not None:
            w.raw(ops[0])
            if scn["refit"]:
                w.run(dict(ops[1], data=dict(s["data"], seed=s["data"]["seed"] + 1)))
                seams.entropy_ident(0)
        f = seams.LibFaults({scn["kind"]}, fail_at, scn["exc"], record)
        with f, sched.Solo(limit=SOLO_LIMIT) as t:
            out = w.run(ops[-1])
        r.stat("steps", t.steps)
        return out, f, w

    free, f0, w0 = proc.isolate(lambda: (lambda a: (a[0], a[1].names, None))(once(record=True)))
    if "exc" in free or not f0:
        r.nontrivial = False
        r.stat("no_fault_possible" if "exc" not in free else "raises_anyway")
        r.sig = "trivial"
        return r.done()
    names = f0
    if "fail_at" not in scn:
        g = random.Random(scn["plan"])
        pts = set()
        for _ in range(scn["nfault"]):
            if g.random() < 0.3:
                pts.add(g.randrange(len(names)) + 1)
            else:
                x = g.choice(sorted(set(names)))
                pts.add(g.choice([i + 1 for i, y in enumerate(names) if y == x]))
        if scn["persist"]:
            a = min(pts)
            pts = set(range(a, a + 5000))
        scn["fail_at"] = sorted(pts) if not scn["persist"] else [min(pts), -1]
    fa = scn["fail_at"]
    if len(fa) == 2 and fa[1] == -1:
        fa = range(fa[0], fa[0] + 5000)
    out, f, w = once(set(fa))
    r.log(cmp.digest(out))
    r.log(str(f.fired[:20]))
    nf = len(f.fired)
    for n, _ in f.fired[:50]:
        r.fault(f"{scn['exc']} in {n}")
    r.sig = cmp.digest([nm, scn["exc"], f.fired[:3], scn["refit"]])
    r.nontrivial = nf > 0
    if not nf:
        return r.done()
    sp = s_params(s) if s["cls"] else None
    what = f"{nm}: {scn['exc']} injected in {f.fired[:3]} ({nf} fired)"
    if is_hang(out):
        r.fail(f"hang:{nm}", f"{what}: the call did not end")
        return r.done()
    if "exc" in out:
        r.stat("reported")
        same = out["exc"] == scn["exc"] and "injected failure" in out["msg"]
        if not same and not (sp is not None and scn["exc"] == "LinAlgError"
                             and out["exc"] == "LinAlgError"
                             and nf >= sp.get("n_initial_subsets", 500)):
            r.fail(f"other-error:{nm}", f"{what}: ended in {out['exc']}: {out['msg']}")
        # the object must not pretend to be fitted with garbage
        if s["cls"] in ("SRegression", "FastLTSRegression", "MMRegression") and not scn["refit"]:
            q = w.run({"op": "q", "id": "m", "m": "predict",
                       "data": dict(s["data"], what="X", n=4, form="array")})
            if "ok" in q and not cmp.finite(q["ok"]):
                r.fail(f"garbage-after-failure:{nm}", f"{what}: predict answers non-finite values")
        return r.done()
    r.stat("completed")
    if cmp.finite(free) and not cmp.finite(out):
        r.fail(f"non-finite:{nm}", f"{what}: the fit completed with non-finite results")
        return r.done()
    d = cmp.diff(out, free, rtol=1e-6)
    if d is None:
        return r.done()
    if sp is None or scn["exc"] != "LinAlgError":
        r.fail(f"garbled:{nm}", f"{what}: completed, but with another result: {d}")
        return r.done()
    r.stat("candidate_skipped")
    k, k0 = sp.get("n_best_subsets", 5), sp.get("n_initial_subsets", 500)
    if k0 > 20 or (k < k0 and (nf > 1 or k > 2)):
        return r.done()
    if k < k0:
        return few_best(scn, r, sp, k, k0, free, out, what, nm)
    # what every single candidate supports
    c = []
    for i in range(k0):
        one = dict(sp, n_initial_subsets=1, n_best_subsets=1,
                   random_state=sp.get("random_state", 101) + i)
        o, _, _ = run_ops([{"op": "new", "id": "c", "cls": "SRegression", "params": one},
                           {"op": "fit", "id": "c", "data": s["data"]}])
        if "ok" not in o[1]:
            return r.done()
        c.append(o[1]["ok"]["state"]["scale"])
    c.sort()
    fs = free["ok"]["state"]["scale"]
    if abs(fs - c[0]) > 1e-6 * abs(c[0]):
        r.stat("oracle_not_applicable")
        return r.done()
    got = out["ok"]["state"]["scale"]
    lim = c[min(nf, k0 - 1)]
    r.stat("remaining_candidates_checked")
    if nf < k0 and got > lim * (1 + 1e-6):
        r.fail(f"worse-than-remaining:{nm}", f"{what}: scale {got}; at most {nf} of the candidates "
                                             f"{c} failed, so {lim} was available")
    return r.done()
