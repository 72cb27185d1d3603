"""C10: refitting equals fitting a fresh object with the same parameters."""
from robsim import data as dat
from robsim.checks.common import *  # noqa

NOSET = ("initial_estimator", "rho", "scale_estimator", "location_estimator")


def gen(rng, tier, idx):
    s = catalog.large(rng, catalog.degenerate(rng, catalog.subject(rng), 0.07), 0.04)
    s = tame(rng, s)
    ops = subject_ops(rng, "a", s)
    hist = []
    first = None
    if s["cls"] in catalog.SKLEARN and rng.random() < 0.25:
        # constructed with other parameters, set to the final ones later (a parameter search)
        for _ in range(10):
            alt = catalog.C[s["cls"]]["params"](rng)
            full = {k: v for k, v in s["params"].items()}
            if not any(k in NOSET for k in (*alt, *full)):
                first = alt
                break
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        if k < 0.5:
            d = catalog.C[s["cls"]]["data"](rng)
            if rng.random() < 0.3:
                d = dict(s["data"], n=s["data"]["n"] + rng.choice([0, 3, 7]),
                         seed=rng.randrange(1 << 30))
            h = {"op": "fit", "id": "a", "data": d}
            hist.append(h)
            for q in catalog.C[s["cls"]]["queries"](rng, d):
                if rng.random() < 0.5:
                    hist.append(dict(q, op="q", id="a"))
        elif k < 0.65:
            hist.append({"op": "fit", "id": "a",
                         "data": dict(s["data"], spoil=rng.choice(dat.SPOILS))})
        elif k < 0.75:
            d = catalog.C[s["cls"]]["data"](rng)
            for q in catalog.C[s["cls"]]["queries"](rng, d):
                q = dict(q, op="q", id="a")
                if q.get("data"):
                    q["data"] = dict(q["data"], spoil=rng.choice(dat.SPOILS))
                hist.append(q)
        elif k < 0.9:
            hist.append({"op": "fit", "id": "a", "data": s["data"]})
        else:
            for q in s["queries"]:
                hist.append(dict(q, op="q", id="a"))
    return {"cls": s["cls"], "ops": ops, "history": hist, "first": first,
            "fault": rng.random() < 0.3, "plan": rng.randrange(1 << 30)}


def tame(rng, s):
    """Keep fits with the (large) default MM estimator cheap."""
    if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
        s["data"].update(n=12, p=1)
        s["queries"] = []
    return s


def run(scn):
    r = R()
    ops, hist = scn["ops"], scn["history"]
    base = solo(ops[:1] + [{"op": "params", "id": "a"}] + ops[1:] + [{"op": "params", "id": "a"}])
    bo = base[0]
    g = random.Random(scn["plan"])
    w = catalog.World()
    seams.entropy_ident(1)
    run_ops([dict(ops[0], params=scn["first"])] if scn["first"] is not None else ops[:1], w)
    nfit = 0
    for i, h in enumerate(hist):
        seams.entropy_ident(2 + i)
        ints = None
        if scn["fault"] and g.random() < 0.5:
            ints = {g.choice([3, 10, 40, 200, 1000, 5000]): lambda: MemoryError("injected")}
        outs, steps, _ = run_ops([h], w, interrupts=ints, limit=300_000)
        r.stat("steps", steps)
        o = outs[0]
        if "exc" in o:
            r.fault("failed " + h["op"])
            r.stat("exc_" + o["exc"])
            if "injected" in o.get("msg", ""):
                r.fault("MemoryError")
        else:
            r.stat(h["op"] + "_before")
        nfit += h["op"] == "fit"
    import matplotlib.pyplot as plt

    plt.close("all")
    what = f"{scn['cls']} after {short(hist)}"
    if scn["first"] is not None:
        final = catalog.construct(ops[0]["cls"], ops[0]["params"]).get_params(deep=False)
        w.objs["a"].set_params(**final)
    seams.entropy_ident(0)
    par = w.run({"op": "params", "id": "a"})
    d = cmp.diff(par, bo[1], rtol=0, atol=0)
    if d:
        r.fail(f"parameters-changed:{scn['cls']}", f"{what}: parameters differ from those given: {d}")
    outs, steps, _ = run_ops(ops[1:], w)
    for op, a, b in zip(ops[1:], outs, bo[2:-1]):
        r.log(cmp.digest(a))
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            r.fail(f"refit-differs:{scn['cls']}", f"{what}: {short([op])} of the refitted object differs "
                                                  f"from a fresh object: {d}")
            break
        if op["op"] == "fit" and "exc" in b:
            break
    else:
        d = cmp.diff(w.run({"op": "params", "id": "a"}), bo[-1], rtol=0, atol=0)
        if d:
            r.fail(f"parameters-changed:{scn['cls']}", f"{what}, refit: parameters differ: {d}")
        if bo[1] != bo[-1]:
            d = cmp.diff(bo[1], bo[-1], rtol=0, atol=0)
            if d:
                r.fail(f"fit-changes-parameters:{scn['cls']}",
                       f"{scn['cls']} {ops[0]['params']}: fit changed a parameter: {d}")
    r.stat("steps", base[1] + steps)
    r.sig = cmp.digest([scn["cls"], [(o["op"], cmp.digest(repr(o))) for o in hist], repr(ops[1])])
    r.nontrivial = nfit > 0
    return r.done()
