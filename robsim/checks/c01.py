"""C01: threads with their own estimators never interfere."""
from robsim.checks.common import *  # noqa


LTSLIKE = ("FastLTSRegression", "SRegression", "MMRegression")
TALKING = ("FastMCD", "DetMCD", "CellMCD", "ROBPCA", "InitialDDCW")


def gen(rng, tier, idx):
    k = rng.choice([2, 2, 2, 3, 3, 4])
    mode = rng.random()
    tasks = []
    if mode < 0.45:  # several threads with the same class: shared defaults, loggers, class state
        name = catalog.pick_class(rng)
        names = [name] * k
    elif mode < 0.6:  # classes that share a default sub-estimator or utility
        group = rng.choice([["RobustScaler", "CellMCD", "DDC"], ["MMRegression", "SRegression"],
                            ["ROBPCA", "FastMCD"], ["DDC", "InitialDDCW", "CellMCD"],
                            ["FastLTSRegression", "MMRegression"], ["DetMCD", "Qn", "OGK"]])
        names = [rng.choice(group) for _ in range(k)]
    else:
        names = [catalog.pick_class(rng) for _ in range(k)]
    shared = rng.random() < 0.35
    base = None
    # a quiet task beside a talkative one of the same class: they share a logger
    talk = rng.random() < 0.07
    if talk:
        names = [rng.choice(["FastLTSRegression", "FastLTSRegression", "SRegression", "FastMCD", "DetMCD",
                             "CellMCD", "ROBPCA"])] * k
        shared = False
    for i, nm in enumerate(names):
        s = catalog.subject(rng, nm)
        if shared and base is not None and base["cls"] == nm:
            s["data"] = base["data"]
            s["queries"] = base["queries"]
            if rng.random() < 0.5:
                s["params"] = dict(base["params"])
        if base is None:
            base = s
        if nm in LTSLIKE and rng.random() < 0.3:
            s["data"]["noise"] = rng.choice([1e-5, 1e-3, 0.02])
        if rng.random() < 0.3:
            s["params"] = {k2: v for k2, v in s["params"].items()
                           if k2 in ("n_initial_subsets", "n_best_subsets", "n_best_models",
                                     "initial_estimator", "n_components", "method", "alpha")}
        if nm == "MMRegression" and not s["params"].get("initial_estimator"):
            s["data"]["n"] = 12
            s["data"]["p"] = 1
            s["queries"] = []
        if rng.random() < 0.3 and nm in TALKING:
            s["params"]["verbosity"] = rng.choice([10, 20, 30, 40])
        if talk and nm in LTSLIKE:
            s["data"].update(noise=rng.choice([1e-6, 1e-5, 1e-4, 1e-3, 0.01]), n=30, p=2)
            s["params"]["n_initial_subsets"] = 20
            if nm != "SRegression" and rng.random() < 0.7:
                s["params"]["reweighting"] = False
        elif talk:
            s["params"]["verbosity"] = 10 if i else 40
            if s["data"].get("what", "X") == "X" and nm != "CellMCD" and rng.random() < 0.5:
                s["data"]["scale"] = rng.choice([1e-4, 0.01, 1e4])
        ops = subject_ops(rng, f"t{i}", s, with_queries=rng.random() < 0.6, nofig=True)
        if shared and s["data"] is base["data"]:
            for o in ops:
                if o["op"] == "fit":
                    o["share"] = "d0"
        if talk and nm in LTSLIKE:
            ops[1]["kw"] = {"verbosity": 10 if i else 40}
        elif nm in LTSLIKE and rng.random() < 0.3:
            ops[1]["kw"] = {"verbosity": rng.choice([10, 10, 20, 40])}
        if rng.random() < 0.2:
            ops.append(dict(ops[1], data=catalog.C[nm]["data"](rng)))
            ops[-1].pop("share", None)
        if rng.random() < 0.15:
            ops.append(catalog.func_op(rng))
            if ops[-1]["kw"].get("plot"):
                ops[-1]["kw"]["plot"] = False
        tasks.append({"ops": ops})
    # objects built (in the main thread) before the threads start, in part of the runs
    prebuilt = rng.random() < 0.3
    if talk:
        prebuilt = False
    return {"tasks": tasks, "prebuilt": prebuilt, "npre": rng.choice([1, 1, 2, 2, 3, 4, 6]),
            "policy": rng.choice(["lifo", "fifo"]), "first": 0, "plan": rng.randrange(1 << 30),
            "instr": rng.random() < (0.12 if tier == "quick" else 0.25)}


def run(scn):
    r = R()
    tasks = scn["tasks"]
    base, traces, hot = [], [], []
    for i, t in enumerate(tasks):
        outs, steps, tr, changed = solo_probed(t["ops"], entropy_id=i)
        base.append((outs, steps))
        traces.append(tr)
        hot.append(changed)
    r.stat("runs_with_shared_writes", int(any(hot)))
    if "preempts" not in scn:
        plan = random.Random(scn["plan"])
        scn["preempts"] = sched.choose_races(plan, traces, hot) if any(hot) and plan.random() < 0.6 else []
        if not scn["preempts"]:
            scn["preempts"] = sched.choose_preempts(plan, traces, scn["npre"])
    sim = sched.Sim(scn["policy"])
    world = catalog.World()
    outs = [[] for _ in tasks]
    if scn.get("prebuilt"):
        for i, t in enumerate(tasks):
            for op in t["ops"]:
                if op["op"] == "new":
                    try:
                        world.raw(op)
                    except Exception:
                        pass

    def body(i):
        def fn():
            for op in tasks[i]["ops"]:
                if op["op"] == "new" and op["id"] in world.objs:
                    outs[i].append({"ok": None})
                    continue
                outs[i].append(world.run(op))
        return fn

    for i in range(len(tasks)):
        pre = [(s, g) for t, s, g in scn["preempts"] if t == i]
        sim.add(body(i), pre, limit=3 * base[i][1] + 200_000)
    # resolve shared data before the threads start (the application owns it)
    for t in tasks:
        for op in t["ops"]:
            if op.get("share"):
                world.get_data(op["data"], op["share"])
    sim.run(scn.get("first", 0))
    r.log(sim.digest())
    for i, t in enumerate(tasks):
        if sim.tasks[i].error is not None:
            raise RuntimeError(f"harness: task {i}: {sim.tasks[i].error!r}")
        for k, op in enumerate(t["ops"]):
            if k >= len(outs[i]):
                r.fail("no-return", f"task {i} never executed op {k} {short([op])}")
                break
            a, b = outs[i][k], base[i][0][k]
            r.log(cmp.digest(a))
            d = None
            if is_hang(a) and not is_hang(b):
                r.fail("no-return", f"task {i} {short([op])}: {a}")
                break
            if is_hang(a) or is_hang(b):
                r.stat("hang_outcomes")
                break
            d = cmp.diff(a, b)
            if d:
                r.fail(f"interference:{tasks[i]['ops'][0].get('cls')}",
                       f"task {i} {tasks[i]['ops'][0].get('cls')} {short([op])} differs from the "
                       f"run alone: {d}; switches={sim.switches[:6]}")
                break
    for t in sim.tasks:
        r.stat("steps", t.steps)
    r.stat("switches_fired", len(sim.switches))
    r.fault("preemption", len(sim.switches))
    r.stat("instr_runs", int(bool(scn.get("instr"))))
    r.stat("shared_data_runs", int(any(o.get("share") for t in tasks for o in t["ops"])))
    r.stat("exception_outcomes", sum("exc" in o for b in base for o in b[0]))
    r.sig = [[(f, t2, s[:3] if s else None) for f, t2, s in sim.switches],
             [t["ops"][0].get("cls") for t in tasks]]
    r.sig = cmp.digest(r.sig)
    r.nontrivial = len(sim.switches) > 0
    r.trace = [list(map(str, e)) for e in sim.events[:60]]
    return r.done()
