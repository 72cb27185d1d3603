"""C09: an interrupted call leaves no trace and can be retried."""
import logging

import numpy as np

from robsim import callbacks
from robsim.checks.common import *  # noqa

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "UserError", "SystemExit", "OSError",
       "ValueError"]
LOGGERS = {"FastMCD": "FastMCD", "DetMCD": "DetMCD", "CellMCD": "CellMCD", "ROBPCA": "ROBPCA",
           "FastLTSRegression": "FastLTS", "SRegression": "S-regression", "DataCleaner": "DataCleaner",
           "RobustPowerTransformer": "RobustPowerTransformer"}
PLOTFN = ["scatter", "plot", "axhline", "axvline", "annotate", "text", "set_xlabel", "set_title",
          "add_patch", "imshow", "pcolormesh"]


class UserError(Exception):
    pass


def make(kind):
    import builtins

    cls = UserError if kind == "UserError" else getattr(builtins, kind)
    return cls(f"injected {kind}")


def gen(rng, tier, idx):
    src = rng.choice(["line"] * 6 + ["lib", "callback", "handler", "plot", "plot"])
    if src == "callback":
        s = catalog.with_callbacks(rng)
    elif src == "handler":
        s = catalog.subject(rng, rng.choice(["FastMCD", "DetMCD", "FastLTSRegression", "SRegression",
                                             "DataCleaner", "ROBPCA"]))
        if s["cls"] in ("FastMCD", "DetMCD", "ROBPCA"):
            s["params"]["verbosity"] = 10
    elif src == "plot":
        s = catalog.subject(rng, rng.choice(["DDC", "DDC", "CellMCD", "ROBPCA", "PCALocantore", "FastMCD",
                                             "MMRegression", "FastLTSRegression"]))
        for _ in range(20):
            if any(q.get("plot") for q in s["queries"]):
                break
            s = catalog.subject(rng, s["cls"])
        s["queries"] = [q for q in s["queries"] if q.get("plot")][:1] + \
            [q for q in s["queries"] if not q.get("plot")]
    else:
        s = catalog.degenerate(rng, catalog.subject(rng), 0.05)
    if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
        s["data"].update(n=12, p=1)
        s["queries"] = []
    ops = subject_ops(rng, "a", s)
    if src == "handler" and s["cls"] in ("FastLTSRegression", "SRegression"):
        ops[1]["kw"] = {"verbosity": 10}
    other = []
    same = rng.random() < 0.6
    o = catalog.subject(rng, s["cls"] if same else None)
    if o["cls"] == "MMRegression" and not o["params"].get("initial_estimator"):
        o["data"].update(n=12, p=1)
        o["queries"] = []
    other = subject_ops(rng, "b", o)
    f = catalog.subject(rng, s["cls"] if rng.random() < 0.5 else None)
    if f["cls"] == "MMRegression" and not f["params"].get("initial_estimator"):
        f["data"].update(n=12, p=1)
        f["queries"] = []
    hist = []
    if rng.random() < 0.35:
        h = dict(ops[1], data=catalog.C[s["cls"]]["data"](rng))
        hist = [h]
    redo = []
    if rng.random() < 0.35:
        # the object is first used on other data after the interruption
        d = catalog.C[s["cls"]]["data"](rng)
        redo = [{"op": "fit", "id": "a", "data": d}]
        redo += [dict(q, op="q", id="a") for q in catalog.C[s["cls"]]["queries"](rng, d)
                 if not q.get("plot")]
        if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
            redo = []
    return {"src": src, "cls": s["cls"], "ops": ops, "other": other,
            "fresh": subject_ops(rng, "f", f, with_queries=False), "history": hist,
            "concurrent": src == "line" and rng.random() < 0.25, "times": rng.choice([1, 1, 1, 2, 3]),
            "exc": rng.choice(EXC), "plan": rng.randrange(1 << 30),
            "target": rng.choice(["fit", "fit", "fit", "any", "query"]),
            "redo": redo}


def choose(g, n, tr):
    if g.random() < 0.5:
        return g.randrange(n) + 1
    lines = {}
    for j, x in enumerate(tr):
        lines.setdefault(x, []).append(j + 1)
    return g.choice(lines[g.choice(sorted(lines))])


class Injector:
    """Delivers one exception at the k-th event of the given source while op runs."""

    def __init__(self, src, k, exc, cls):
        self.src, self.k, self.exc, self.cls = src, k, exc, cls
        self.raised = []
        self.count = 0

    def new(self):
        e = make(self.exc)
        self.raised.append(e)
        return e

    def __enter__(self):
        self.undo = []
        if self.src == "callback":
            callbacks.arm(self.k, self.new)
        elif self.src == "handler":
            self.h = seams.ExplodingHandler(self.k, self.new)
            lg = logging.getLogger(LOGGERS.get(self.cls, "robpy"))
            lg.addHandler(self.h)
            self.undo.append(lambda: lg.removeHandler(self.h))
        elif self.src == "plot":
            import matplotlib.axes as ma

            for n in PLOTFN:
                f = getattr(ma.Axes, n)

                def w(ax, *a, _f=f, **kw):
                    self.count += 1
                    if self.count == self.k:
                        raise self.new()
                    return _f(ax, *a, **kw)

                setattr(ma.Axes, n, w)
                self.undo.append(lambda n=n, f=f: setattr(ma.Axes, n, f))
        elif self.src == "lib":
            self.lf = seams.LibFaults({"linalg", "alloc"}, [self.k] if self.k else [])
            self.lf.make = lambda name: self.new()
            self.lf.__enter__()
            self.undo.append(lambda: self.lf.__exit__())
        return self

    def events(self):
        return {"callback": lambda: callbacks.fuse.n, "handler": lambda: self.h.n,
                "plot": lambda: self.count, "lib": lambda: self.lf.count}[self.src]()

    def __exit__(self, *a):
        for u in reversed(self.undo):
            u()
        callbacks.arm(None, None)
        return False


def run(scn):
    r = R()
    ops, other, fresh = scn["ops"], scn["other"], scn["fresh"]
    share(ops, "A")
    if scn["src"] in ("handler",):
        logging.raiseExceptions = True
    base_a = solo(ops, trace=True)
    redo = scn.get("redo", [])
    base_r = solo(ops[:1] + redo, entropy_id=3) if redo else None
    base_b = solo(other, entropy_id=1, trace=scn["concurrent"])
    base_f = solo(fresh, entropy_id=2)
    g = random.Random(scn["plan"])

    def baselines_of_op(j):
        """steps/trace/events of op j when preceded by the others (pristine process)."""
        def fn():
            w = catalog.World()
            seams.entropy_ident(0)
            with sched.Solo(limit=SOLO_LIMIT):
                for op in ops[:j]:
                    w.run(op)
            if scn["src"] == "line":
                with sched.Solo(limit=SOLO_LIMIT, trace=True) as t:
                    w.run(ops[j])
                return t.steps, t.trace
            with Injector(scn["src"], None, scn["exc"], scn["cls"]) as inj, \
                    sched.Solo(limit=SOLO_LIMIT):
                w.run(ops[j])
                return inj.events(), None
        return proc.isolate(fn)

    if "j" not in scn:
        cand = list(range(len(ops)))
        if scn["src"] == "plot":
            cand = [i for i, o in enumerate(ops) if o.get("plot")]
        elif scn["src"] in ("callback", "handler"):
            cand = [1]
        elif scn["target"] == "fit":
            cand = [1]
        elif scn["target"] == "query":
            cand = [i for i, o in enumerate(ops) if o["op"] == "q"][:1] or cand
        scn["j"] = g.choice(cand) if cand else None
    j = scn["j"]
    if j is None or j >= len(ops):
        r.nontrivial, r.sig = False, "no target"
        return r.done()
    n, tr = baselines_of_op(j)
    if "ks" not in scn:
        scn["ks"] = [choose(g, n, tr) if tr else (g.randrange(n) + 1)
                     for _ in range(scn["times"])] if n else []
    if not scn["ks"]:
        r.nontrivial, r.sig = False, "no events"
        r.stat("no_events")
        return r.done()

    w = catalog.World()
    seams.entropy_ident(1)
    outs_b = []
    if not scn["concurrent"]:
        outs_b += run_ops(other[:2], w)[0]
    seams.entropy_ident(0)
    if j > 0:
        run_ops(ops[:1], w)
        # (what an object answers after a failed fit that followed a successful one is unspecified)
        for h in scn["history"] if "ok" in base_a[0][1] else ():
            seams.entropy_ident(5)
            run_ops([h], w)
        seams.entropy_ident(0)
        if j > 1:
            run_ops(ops[1:2], w)
            for op in ops[2:j]:
                run_ops([op], w)
    for op in ops:
        if op.get("data"):
            w.get_data(op["data"], op.get("share"))
    before = {k: cmp.digest(cmp.enc(v)) for k, v in w.data_cache.items()}

    def guarded(op):
        try:
            return w.run(op), None
        except BaseException as e:
            return None, e

    sites = []
    params = mine(w)
    for i, k in enumerate(scn["ks"]):
        seams.entropy_ident(0)
        if scn["src"] == "line":
            raised = []

            def mk():
                e = make(scn["exc"])
                raised.append(e)
                return e

            if scn["concurrent"] and i == 0:
                sim = sched.Sim()
                res = []
                sim.add(lambda: res.append(guarded(ops[j])), interrupts={k: mk}, limit=SOLO_LIMIT,
                        preempts=[(max(1, k - g.randrange(1, 6)), 1)])
                sim.add(lambda: outs_b.extend(w.run(op) for op in other[:2]), limit=SOLO_LIMIT,
                        preempts=[(g.randrange(1, max(2, base_b[1])), 0) for _ in range(3)])
                sim.run(0)
                for t in sim.tasks:
                    if t.error is not None:
                        raise RuntimeError(f"harness: {t.error!r}")
                out, e = res[0]
                r.fault("preemption", len(sim.switches))
                fired = sim.tasks[0].fired
            else:
                with sched.Solo(limit=SOLO_LIMIT, interrupts={k: mk}) as t:
                    out, e = guarded(ops[j])
                fired = t.fired
        else:
            with Injector(scn["src"], k, scn["exc"], scn["cls"]) as inj, \
                    sched.Solo(limit=SOLO_LIMIT):
                out, e = guarded(ops[j])
            raised = inj.raised
            fired = raised and [(scn["exc"], scn["src"], k)]
        if not raised:
            r.stat("not_fired")
            continue
        sites.append(str(fired[0]) if fired else "?")
        r.fault(f"{scn['exc']} from {scn['src']}")
        msg = f"{scn['cls']} {short([ops[j]])} interrupted by {scn['exc']} at {sites[-1]}"
        if e is None:
            got = out
            if not (isinstance(out, dict) and out.get("exc") == scn["exc"]
                    and "injected" in out.get("msg", "")):
                r.fail(f"exception-lost:{scn['cls']}",
                       f"{msg}: the caller saw {str(got)[:200]}")
        elif e is not raised[0]:
            r.fail(f"exception-lost:{scn['cls']}", f"{msg}: the caller saw {e!r}")
        d = cmp.diff(params, mine(w), 0, 0) if ops[j]["op"] != "new" else None
        if d:
            r.fail(f"parameters-changed:{scn['cls']}", f"{msg}: the parameters of the object changed: {d}")
        after = {k2: cmp.digest(cmp.enc(v)) for k2, v in w.data_cache.items()}
        if after != before:
            r.fail(f"data-modified:{scn['cls']}", f"{msg}: the caller's data were modified")
    import matplotlib.pyplot as plt

    plt.close("all")
    what = f"{scn['cls']} {short([ops[j]])} after {sites}"
    if redo and j > 0 and (j == 1 or "ok" in base_a[0][1]):
        seams.entropy_ident(3)
        for op, a, b in zip(redo, run_ops(redo, w)[0], base_r[0][1:]):
            if undecided(a, b):
                break
            d = cmp.diff(a, b)
            if d:
                r.fail(f"reuse-differs:{scn['cls']}", f"{what}: {short([op])} with other data differs "
                                                      f"from a new object: {d}")
                break
            if op["op"] == "fit" and "exc" in b:
                break
        if j > 1:
            seams.entropy_ident(0)
            run_ops(ops[1:2], w)
            for op in ops[2:j]:
                run_ops([op], w)
    # retry on the same object
    seams.entropy_ident(0)
    fine = True
    retry = run_ops(ops[j:], w)[0]
    for op, a, b in zip(ops[j:], retry, base_a[0][j:]):
        r.log(cmp.digest(a))
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            r.fail(f"retry-differs:{scn['cls']}", f"{what}: {short([op])} of the retry differs from an "
                                                  f"uninterrupted run: {d}")
            fine = False
            break
        if op["op"] in ("new", "fit") and "exc" in b:
            fine = False
            break  # a failing call: only its error is specified
    if fine and scn["src"] == "line" and not any(is_hang(a) for a in base_a[0]) \
            and "ok" in base_a[0][1]:
        sweep(r, scn, w, random.Random(scn["plan"] + 1), guarded)
    # other objects
    seams.entropy_ident(1)
    outs_b += run_ops(other[len(outs_b):], w)[0]
    for op, a, b in zip(other, outs_b, base_b[0]):
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            r.fail(f"other-object:{other[0].get('cls')}", f"{what}: {short([op])} of another object "
                                                          f"differs: {d}")
            break
    seams.entropy_ident(2)
    for op, a, b in zip(fresh, run_ops(fresh, w)[0], base_f[0]):
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            r.fail(f"new-object:{fresh[0].get('cls')}", f"{what}: {short([op])} of a new object "
                                                        f"differs: {d}")
            break
    r.stat("steps", base_a[1] + base_b[1] + base_f[1])
    r.sig = cmp.digest([scn["cls"], j, sites, scn["exc"]])
    r.nontrivial = bool(sites)
    r.log(str(sites))
    return r.done()


def sweep(r, scn, w, g, guarded):
    """Interrupt every query of the fitted model once, then ask them all again."""
    qs = [op for op in scn["ops"][2:] if op["op"] == "q"]
    import matplotlib.pyplot as plt

    def ask():
        seams.entropy_ident(7)
        out, steps = [], []
        for op in qs:
            with sched.Solo(limit=SOLO_LIMIT) as t:
                out.append(w.run(op))
            steps.append(t.steps)
        return out, steps

    want, steps = ask()
    sites = []
    seams.entropy_ident(8)
    for op, n in zip(qs, steps):
        if not n:
            continue
        k = g.randrange(n) + 1
        raised = []

        def mk():
            e = make(scn["exc"])
            raised.append(e)
            return e

        with sched.Solo(limit=SOLO_LIMIT, interrupts={k: mk}) as t:
            out, e = guarded(op)
        if not raised:
            continue
        sites.append(f"{short([op])} at {t.fired[0]}")
        r.fault(f"{scn['exc']} in a query")
        if e is None and not (isinstance(out, dict) and out.get("exc") == scn["exc"]
                              and "injected" in out.get("msg", "")) or e not in (None, *raised):
            r.fail(f"exception-lost:{scn['cls']}",
                   f"{scn['cls']} {sites[-1]}: the caller saw {e or out!r}"[:300])
    plt.close("all")
    for op, a, b in zip(qs, ask()[0], want):
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            r.fail(f"query-trace:{scn['cls']}", f"{scn['cls']}: after interruptions ({scn['exc']}) of "
                                                f"{sites}, {short([op])} answers differently: {d}")
            break
    plt.close("all")


def mine(w):
    """The constructor parameters of the interrupted object, as far as they are plain values."""
    o = w.objs.get("a")
    return {} if o is None else {k: v for k, v in catalog.params_of(o).items()
                                 if v is None or isinstance(v, (bool, int, float, str))}


def share(ops, tag):
    for i, op in enumerate(ops):
        if op.get("data") and op["op"] in ("fit", "q"):
            op["share"] = f"{tag}{i}"
