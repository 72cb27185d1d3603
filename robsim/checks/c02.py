"""C02: queries are read-only and independent of batching, order, repetition and concurrency."""
import numpy as np
import pandas as pd

from robsim.checks.common import *  # noqa


def bad_query(rng, s):
    """A query that (usually) fails: wrong width, text, negative values for Box-Cox."""
    q = [x for x in s["queries"] if x.get("data") and not x.get("plot")]
    if not q:
        return None
    b = dict(rng.choice(q))
    d = dict(b["data"], p=b["data"]["p"] + 1, seed=rng.randrange(1 << 30))
    d.pop("pos", None)
    b["data"] = d
    return b


def gen(rng, tier, idx):
    name = catalog.pick_class(rng) if rng.random() < 0.9 else "RobustPowerTransformer"
    while not catalog.C[name]["queries"]:
        name = catalog.pick_class(rng)
    s = catalog.large(rng, catalog.degenerate(rng, catalog.subject(rng, name), 0.05), 0.04)
    if name == "MMRegression" and not s["params"].get("initial_estimator"):
        s["params"]["initial_estimator"] = {"$new": "SRegression",
                                            "params": {"n_initial_subsets": 8}}
    qs = [q for q in s["queries"] if name != "DataCleaner" or "data" in q]
    for _ in range(rng.choice([0, 1, 2])):
        qs += [q for q in catalog.C[name]["queries"](rng, s["data"])
               if name != "DataCleaner" or "data" in q]
    b = bad_query(rng, s)
    if b and rng.random() < 0.5:
        qs.insert(rng.randrange(len(qs) + 1), b)
    if rng.random() < 0.5:
        qs.append(dict(rng.choice(qs)))
    own = [q for q in qs if q.get("data")]
    if own and rng.random() < 0.6:  # the same kind of query with other records of the same shape
        q = rng.choice([q for q in own if q.get("plot")] or own) if rng.random() < 0.5 else rng.choice(own)
        qs.append(dict(q, data=dict(q["data"], seed=rng.randrange(1 << 30))))
    k = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    for i in range(k):
        order = [dict(q, op="q", id="m") for q in qs if rng.random() < 0.8] or \
            [dict(qs[0], op="q", id="m")]
        rng.shuffle(order)
        for o in order:
            if o.get("plot") and k > 1:
                o["nofig"] = True
        tasks.append({"ops": order})
    scn = {"cls": name, "params": s["params"], "data": s["data"], "tasks": tasks,
           "npre": rng.choice([1, 2, 4, 8]), "plan": rng.randrange(1 << 30),
           "policy": rng.choice(["lifo", "fifo"]), "instr": rng.random() < 0.1}
    row = [q for q in qs if q.get("m") in catalog.C[name]["rowwise"] and q.get("data")
           and q["data"]["p"] == s["data"]["p"]]
    if row:
        q = dict(rng.choice(row))
        q["data"] = dict(q["data"], n=q["data"]["n"] if q["data"]["kind"] == "ramp" else
                         rng.choice([3, 6, 12, 20]), seed=rng.randrange(1 << 30))
        n = q["data"]["n"]
        cuts = sorted(rng.sample(range(1, n), rng.choice([1, 2, min(3, n - 1)])))
        perm = list(range(n))
        if rng.random() < 0.6:
            rng.shuffle(perm)
        if rng.random() < 0.3:
            perm.append(perm[0])  # duplicated delivery
        scn["rebatch"] = {"q": q, "cuts": cuts, "perm": perm}
    return scn


def parts(ans):
    """A raw answer as a list of row-indexed arrays."""
    if isinstance(ans, tuple):
        return [p for a in ans for p in parts(a)]
    if isinstance(ans, (pd.DataFrame, pd.Series)):
        return [np.asarray(ans)]
    return [np.asarray(ans)]


def take(d, rows):
    if isinstance(d, pd.DataFrame):
        return d.iloc[rows]
    return d[rows]


def run(scn):
    r = R()
    setup = [{"op": "new", "id": "m", "cls": scn["cls"], "params": scn["params"]},
             {"op": "fit", "id": "m", "data": scn["data"]}]
    distinct = {}
    for t in scn["tasks"]:
        for op in t["ops"]:
            distinct.setdefault(repr(sorted(op.items(), key=str)), op)
    base = {}
    traces, hot = {}, {}
    fitted = None
    for key, op in distinct.items():
        def fn(op=op):
            w = catalog.World()
            with sched.Solo(limit=SOLO_LIMIT):
                f = w.run(setup[0]), w.run(setup[1])
            if "exc" in f[1]:
                return f[1], None, 0, [], set()
            p = shared.Probe(extra=[w.objs["m"]]) if len(scn["tasks"]) > 1 else None
            with sched.Solo(limit=SOLO_LIMIT, trace=True) as t:
                t.probe = p
                a = w.run(op)
            return f[1], a, t.steps, t.trace, {s for _, s in p.changes} if p else set()
        f, a, steps, tr, hot[key] = proc.isolate(fn)
        fitted = f
        base[key], traces[key] = (a, steps), tr
    if fitted is None or "exc" in fitted:
        r.nontrivial = False
        r.sig = "unfittable"
        r.stat("unfittable")
        return r.done()
    w = catalog.World()
    with sched.Solo(limit=SOLO_LIMIT):
        for op in setup:
            w.run(op)
    o = w.objs["m"]
    if "exc" in w.run(setup[0]):
        raise RuntimeError("construct")
    w.objs["m"] = o
    before = catalog.observe(o)
    params = catalog.params_of(o)
    task_traces = [[s for op in t["ops"] for s in traces[repr(sorted(op.items(), key=str))]]
                   for t in scn["tasks"]]
    if "preempts" not in scn:
        plan = random.Random(scn["plan"])
        hots = [set().union(*[hot[repr(sorted(op.items(), key=str))] for op in t["ops"]])
                for t in scn["tasks"]]
        r.stat("runs_with_writes", int(any(hots)))
        scn["preempts"] = []
        if len(scn["tasks"]) > 1:
            if any(hots) and plan.random() < 0.6:
                scn["preempts"] = sched.choose_races(plan, task_traces, hots)
            if not scn["preempts"]:
                scn["preempts"] = sched.choose_preempts(plan, task_traces, scn["npre"])
    sim = sched.Sim(scn["policy"])
    outs = [[] for _ in scn["tasks"]]

    def body(i):
        return lambda: [outs[i].append(w.run(op)) for op in scn["tasks"][i]["ops"]]

    for i, t in enumerate(scn["tasks"]):
        sim.add(body(i), [(s, g) for tt, s, g in scn["preempts"] if tt == i],
                limit=3 * sum(base[repr(sorted(op.items(), key=str))][1]
                              for op in t["ops"]) + 200_000)
    sim.run()
    r.log(sim.digest())
    nq = 0
    for i, t in enumerate(scn["tasks"]):
        if sim.tasks[i].error is not None:
            raise RuntimeError(f"harness: {sim.tasks[i].error!r}")
        for k, op in enumerate(t["ops"]):
            if k >= len(outs[i]):
                r.fail("no-return", f"query {short([op])} never returned")
                break
            a, b = outs[i][k], base[repr(sorted(op.items(), key=str))][0]
            r.log(cmp.digest(a))
            nq += 1
            d = cmp.diff(a, b, rtol=1e-8)
            if d:
                r.fail(f"answer-changed:{scn['cls']}.{op.get('m') or op.get('prop')}",
                       f"query {k} of thread {i}: differs from the same query asked first: {d}")
    if scn["cls"] == "DataCleaner":
        params_after, after = catalog.params_of(o), catalog.observe(o)
    else:
        params_after, after = catalog.params_of(o), catalog.observe(o)
    d = cmp.diff(after, before, rtol=0, atol=0) or cmp.diff(params_after, params, rtol=0, atol=0)
    if d:
        r.fail(f"model-changed:{scn['cls']}", f"queries changed the model: {d}")
    rb = scn.get("rebatch")
    if rb:
        q = rb["q"]
        d = data.build(q["data"])
        if isinstance(d, tuple):
            d = d[0]
        kw = q.get("kw", {})
        n = q["data"]["n"]

        def ask(x):
            with sched.Solo(limit=SOLO_LIMIT):
                try:
                    return parts(getattr(o, q["m"])(x, **kw))
                except (Exception, sched.StepLimit) as e:
                    return e

        full = ask(d)
        rows = [i for i in rb["perm"] if i < n]
        seg, last, bad = [], 0, None
        for c in [c for c in rb["cuts"] if c < len(rows)] + [len(rows)]:
            seg.append(rows[last:c])
            last = c
        r.fault("rebatched_records", len(rows))
        for s in seg:
            a = ask(take(d, s))
            if isinstance(full, BaseException) or isinstance(a, BaseException):
                if isinstance(a, BaseException) and not isinstance(full, BaseException):
                    bad = f"batch {s} raised {a!r}, the whole did not"
                continue
            for u, v in zip(full, a):
                exp = u[np.array(s, dtype=int)] if u.ndim and len(u) == n else u
                dd = cmp.diff(np.asarray(v), np.asarray(exp), rtol=1e-9, atol=1e-10)
                if dd:
                    bad = f"records {s} delivered as their own batch: {dd}"
            if bad:
                break
        r.log(str(bad))
        if bad:
            r.fail(f"batch-dependent:{scn['cls']}.{q['m']}", bad)
    r.stat("queries", nq)
    r.stat("switches_fired", len(sim.switches))
    r.fault("preemption", len(sim.switches))
    r.stat("steps", sum(t.steps for t in sim.tasks))
    r.stat("failing_queries", sum(1 for b in base.values() if b[0] and "exc" in b[0]))
    r.sig = cmp.digest([scn["cls"], [[(x.get("m") or x.get("prop")) for x in t["ops"]]
                                     for t in scn["tasks"]],
                        [s for s in sim.switches], str(rb and rb["cuts"])])
    r.trace = [list(map(str, e)) for e in sim.events[:60]]
    return r.done()
