"""C03: process-wide state is left as found."""
import builtins
import os
import sys

import numpy as np

from robsim.checks.common import *  # noqa

LIBLOG = ["FastMCD", "DetMCD", "CellMCD", "InitialDDCW", "ROBPCA", "FastLTS", "S-regression",
          "RobustPowerTransformer", "DataCleaner", "UnivariateMCD", "robpy",
          "robpy.regression.base"]


def ops_for(rng, i, names=None):
    k = rng.random()
    if k < 0.12:
        return [{"op": "load", "f": rng.choice(catalog.LOADERS[:3] + ["load_topgear"]),
                 "kw": {"as_frame": rng.random() < 0.5}}]
    if k < 0.25:
        return [catalog.func_op(rng)]
    s = catalog.degenerate(rng, catalog.subject(rng, names=names), 0.15)
    if s["cls"] == "MMRegression" and not s["params"].get("initial_estimator"):
        s["data"].update(n=12, p=1)
        s["queries"] = []
    ops = subject_ops(rng, f"o{i}", s)
    if s["cls"] == "DDC" and rng.random() < 0.3:
        ops[1]["kw"] = {"verbose": True}
    if s["cls"] in ("FastLTSRegression", "SRegression") and rng.random() < 0.5:
        ops[1]["kw"] = {"verbosity": rng.choice([10, 20, 30, 40])}
    if s["cls"] in ("FastMCD", "ROBPCA", "CellMCD", "DetMCD") and rng.random() < 0.4:
        ops[0]["params"] = dict(ops[0]["params"], verbosity=rng.choice([10, 20, 30]))
    return ops


def gen(rng, tier, idx):
    ops = []
    for i in range(rng.choice([1, 1, 2, 3])):
        ops += ops_for(rng, i)
    scn = {"ops": ops, "np_err": rng.choice(["warn", "ignore", "raise_none"]),
           "handlers": [rng.choice(LIBLOG) for _ in range(rng.choice([0, 1, 3]))],
           "mode": rng.choice(["seq", "seq", "interrupt", "interrupt", "app", "threads", "threads"]),
           "plan": rng.randrange(1 << 30)}
    if scn["mode"] == "threads":
        # two threads inside the library at the same time, often in the same part of it
        if rng.random() < 0.8:
            scn["ops"] = ops = ops_for(rng, 0, names=[rng.choice(catalog.ALL)])
        first = [o.get("cls") for o in ops if o.get("cls")]
        scn["ops2"] = ops_for(rng, 9, names=first[:1] if first and rng.random() < 0.7 else None)
        for o in scn["ops"] + scn["ops2"]:
            if o.get("plot"):
                o["nofig"] = True
    if scn["mode"] == "app":
        scn["ndraw"] = rng.choice([5, 20, 60])
    return scn


def snapshot():
    import gc
    import io
    import locale
    import logging
    import random as _random
    import signal
    import threading
    import warnings
    import builtins
    import decimal

    import matplotlib
    import pandas as pd
    import sklearn
    from pandas._config import config as pdc

    s = {}
    st = np.random.get_state()
    s["numpy global generator"] = (st[0], st[1].tobytes(), st[2:])
    s["python global generator"] = _random.getstate()
    s["numpy error handling"] = (np.geterr(), np.geterrcall(), np.getbufsize())
    s["numpy print options"] = str(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["warning filters"] = list(warnings.filters)
    s["warnings hooks"] = (warnings.showwarning, warnings.formatwarning)
    s["matplotlib rcParams"] = {k: str(v) for k, v in dict.items(matplotlib.rcParams)}
    s["matplotlib backend"] = matplotlib.get_backend()
    s["matplotlib interactive"] = matplotlib.is_interactive()
    s["pandas options"] = str(pdc._global_config)
    s["sklearn config"] = str(sklearn.get_config())
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    um = os.umask(0o22)
    os.umask(um)
    s["umask"] = um
    s["open files"] = fds()
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["std streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["python hooks"] = (sys.excepthook, sys.gettrace(), sys.getprofile(),
                         sys.getrecursionlimit(), sys.getswitchinterval(), threading.excepthook,
                         sys.displayhook, sys.dont_write_bytecode, tuple(sys.path))
    s["builtins"] = (builtins.open, builtins.print, io.open)
    s["signal handlers"] = [signal.getsignal(x) for x in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["gc"] = (gc.isenabled(), gc.get_threshold())
    s["decimal context"] = str(decimal.getcontext())
    s["logging globals"] = (logging.root.manager.disable, logging.raiseExceptions,
                            logging.getLoggerClass(), logging.lastResort,
                            logging.getLogRecordFactory())
    s["root logger"] = (logging.root.level, list(logging.root.handlers),
                        list(logging.root.filters), logging.root.disabled)
    app = logging.getLogger("application.part")
    s["application logger"] = (app.level, list(app.handlers), app.propagate, app.disabled)
    return s


def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((f, os.readlink(f"/proc/self/fd/{f}")))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x[1] and "/site-packages/" not in x[1])


def compare(a, b):
    for k in a:
        x, y = a[k], b[k]
        if x != y:
            if isinstance(x, dict):
                ch = [q for q in set(x) | set(y) if x.get(q) != y.get(q)]
                return k, f"{k}: {sorted(map(str, ch))[:4]}"
            s1, s2 = str(x)[:150], str(y)[:150]
            return k, f"{k}: {s1 if s1 != s2 else ''} -> {s2 if s1 != s2 else 'changed'}"
    return None


def app_handlers(scn):
    import logging

    hs = []
    for i, name in enumerate(scn["handlers"]):
        h = seams.CaptureHandler(level=[0, 10, 30][i % 3])
        f = logging.Formatter("%(message)s")
        h.setFormatter(f)
        logging.getLogger(name).addHandler(h)
        hs.append((name, h, h.level, f))
    root = seams.CaptureHandler(30)
    logging.getLogger().addHandler(root)
    logging.getLogger("application.part").addHandler(seams.CaptureHandler(20))
    return hs


def check_handlers(hs):
    import logging

    for name, h, lvl, f in hs:
        if logging.getLogger(name).handlers.count(h) != 1:
            return f"application handler on logger {name!r} is installed " \
                   f"{logging.getLogger(name).handlers.count(h)} times"
        if h.level != lvl:
            return f"level of the application handler on {name!r} changed {lvl} -> {h.level}"
        if h.formatter is not f or h.filters:
            return f"formatter/filters of the application handler on {name!r} changed"
    return None


def run(scn):
    import gc
    import logging

    r = R()
    if scn["np_err"] == "ignore":
        np.seterr(all="ignore")
    elif scn["np_err"] == "raise_none":
        np.seterr(over="warn", divide="ignore", invalid="warn")
    # dry run for the steps of each operation
    def dry():
        w = catalog.World()
        out = []
        for op in scn["ops"]:
            with sched.Solo(limit=SOLO_LIMIT, trace=True) as t:
                w.run(op)
            out.append((t.steps, t.trace))
        return out
    rng = random.Random(scn["plan"])
    hs = app_handlers(scn)
    np.random.seed(7)
    random.seed(11)
    if scn["mode"] == "app":
        return run_app(scn, r, rng, hs)
    if scn["mode"] == "threads":
        return run_threads(scn, r, rng, hs)
    if scn["mode"] == "interrupt" and "interrupts" not in scn:
        steps = proc.isolate(dry)
        ints = []
        for i, (n, tr) in enumerate(steps):
            if n and rng.random() < 0.4:
                if rng.random() < 0.5:
                    k = rng.randrange(n) + 1
                else:
                    ln = {}
                    for j, x in enumerate(tr):
                        ln.setdefault(x, []).append(j + 1)
                    k = rng.choice(ln[rng.choice(sorted(ln))])
                ints.append([i, k, rng.choice(["KeyboardInterrupt", "MemoryError",
                                               "RuntimeError", "OSError"])])
        scn["interrupts"] = ints
    ints = {i: (k, e) for i, k, e in scn.get("interrupts", [])}
    w = catalog.World()
    gc.collect()
    state = snapshot()
    for i, op in enumerate(scn["ops"]):
        it = {}
        if i in ints:
            k, e = ints[i]
            cls = getattr(builtins, e)
            it = {k: (lambda cls=cls: cls("injected"))}
        with sched.Solo(limit=SOLO_LIMIT, interrupts=it) as t:
            try:
                out = w.run(op)
            except KeyboardInterrupt as e:
                out = cmp.enc_exc(e)
        for f in t.fired:
            r.fault(f[0])
        r.stat("steps", t.steps)
        r.stat("raised", "exc" in out)
        r.log(cmp.digest(out))
        new = snapshot()
        if new["open files"] != state["open files"]:
            gc.collect()
            new = snapshot()
        d = compare(state, new)
        what = f"{short([op])}{' interrupted at ' + str(t.fired[0]) if t.fired else ''}"
        if d:
            r.fail(f"state:{d[0]}", f"{what} changed {d[1]}")
            state = new
        e = check_handlers(hs)
        if e:
            r.fail("state:log handlers", f"{what}: {e}")
            break
    import matplotlib.pyplot as plt

    plots = any(op.get("plot") or op.get("kw", {}).get("plot") for op in scn["ops"])
    if not plots and plt.get_fignums():
        r.fail("state:figures", "a call that is not a plot opened a figure")
    r.sig = cmp.digest([scn["mode"], short(scn["ops"]), sorted(ints.items())])
    r.stat("ops", len(scn["ops"]))
    return r.done()


def run_threads(scn, r, rng, hs):
    """Two threads call the library at the same time; afterwards the process is as before."""
    import gc

    lists = [[o for o in ops if not o.get("plot") and not o.get("kw", {}).get("plot")]
             for ops in (scn["ops"], scn["ops2"])]
    lists[1] = [dict(o, id="b" + o["id"]) if "id" in o else o for o in lists[1]]
    dry = [solo_probed(ops, entropy_id=i) for i, ops in enumerate(lists)]
    traces, hot = [d[2] for d in dry], [d[3] for d in dry]
    if "preempts" not in scn:
        scn["preempts"] = sched.choose_races(rng, traces, hot) if any(hot) and rng.random() < 0.7 else []
        if not scn["preempts"]:
            scn["preempts"] = sched.choose_preempts(rng, traces, rng.choice([1, 2, 4]))
    w = catalog.World()
    got = [[], []]
    sim = sched.Sim(scn.get("policy", "fifo"))
    gc.collect()
    state = snapshot()
    for i in range(2):
        sim.add(lambda i=i: [got[i].append(w.run(op)) for op in lists[i]],
                [(s, g) for t, s, g in scn["preempts"] if t == i], limit=3 * dry[i][1] + 200_000)
    sim.run(0)
    for t in sim.tasks:
        if t.error is not None:
            raise RuntimeError(f"harness: {t.error!r}")
    w.objs.clear()
    after = snapshot()
    if after["open files"] != state["open files"]:
        gc.collect()
        after = snapshot()
    after["threads"] = state["threads"]
    d = compare(state, after)
    if d:
        r.fail(f"state:{d[0]}", f"after two threads called {short(lists[0])} and {short(lists[1])}: {d[1]}; "
                                f"switches={sim.switches[:4]}")
    e = check_handlers(hs)
    if e:
        r.fail("state:log handlers", e)
    r.fault("preemption", len(sim.switches))
    r.stat("steps", sum(t.steps for t in sim.tasks))
    r.stat("two_threads", 1)
    r.log(sim.digest())
    r.log([cmp.digest(g) for g in got])
    r.sig = cmp.digest(["threads", short(lists[0]), short(lists[1]), sim.switches])
    r.nontrivial = len(sim.switches) > 0
    r.trace = [list(map(str, e)) for e in sim.events[:40]]
    return r.done()


def run_app(scn, r, rng, hs):
    """An application thread draws from the global generators while library calls run."""
    import gc

    m = scn["ndraw"]

    def draw():
        return [float(np.random.random_sample()), int(np.random.randint(1000)), random.random(),
                float(np.random.standard_normal())]

    def dry():
        return run_ops(scn["ops"], trace=True)[1:]

    def alone():
        return [draw() for _ in range(m)]

    expect = proc.isolate(alone)
    n, tr = proc.isolate(dry)
    if "preempts" not in scn:
        pts = set()
        lines = {}
        for i, s in enumerate(tr):
            lines.setdefault(s, []).append(i + 1)
        for _ in range(min(m, 40)):
            if rng.random() < 0.4:
                pts.add(rng.randrange(max(1, n)) + 1)
            else:
                pts.add(rng.choice(lines[rng.choice(sorted(lines))]))
        scn["preempts"] = sorted(pts)
    w = catalog.World()
    got, lib = [], []
    sim = sched.Sim("lifo")
    gc.collect()
    state = snapshot()

    def app():
        for _ in range(m):
            got.append(draw())
            sim.preempt(sim.tasks[1], 0)

    sim.add(lambda: [lib.append(w.run(op)) for op in scn["ops"]],
            [(s, 1) for s in scn["preempts"]], limit=3 * n + 200_000)
    sim.add(app)
    sim.run(0)
    for t in sim.tasks:
        if t.error is not None:
            raise RuntimeError(f"harness: {t.error!r}")
    for i, (a, b) in enumerate(zip(got, expect)):
        if a != b:
            r.fail("app-random-numbers", f"draw {i} of the application thread changed: {a} != {b}; "
                                         f"switches={sim.switches[:4]}")
            break
    w.objs.clear()
    after = snapshot()
    for k in ("numpy global generator", "python global generator"):
        after[k] = state[k]
    after["threads"] = state["threads"]
    d = compare(state, after)
    if d:
        r.fail(f"state:{d[0]}", f"after {short(scn['ops'])}: {d[1]}")
    e = check_handlers(hs)
    if e:
        r.fail("state:log handlers", e)
    r.fault("preemption", len(sim.switches))
    r.stat("app_draws", len(got))
    r.stat("steps", sim.tasks[0].steps)
    r.log(sim.digest())
    r.log(cmp.digest(lib))
    r.sig = cmp.digest(["app", short(scn["ops"]), sim.switches])
    r.trace = [list(map(str, e)) for e in sim.events[:40]]
    return r.done()
