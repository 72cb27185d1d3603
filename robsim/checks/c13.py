"""C13: logging, verbosity and plotting never change results."""
import logging
import sys

import numpy as np

from robsim.checks.c10 import tame
from robsim.checks.common import *  # noqa

LEVELS = [10, 10, 20, 30, 40, 50]
CTOR = ("FastMCD", "DetMCD", "CellMCD", "ROBPCA", "InitialDDCW")
FITKW = ("FastLTSRegression", "SRegression", "MMRegression")
NAMES = ["FastMCD", "DetMCD", "CellMCD", "InitialDDCW", "ROBPCA", "FastLTS", "S-regression",
         "DataCleaner", "RobustPowerTransformer", "UnivariateMCD", ""]
RET = {"plot_outlier_map": "return_distances", "outlier_map": "return_data"}
TALK = ["FastMCD", "FastMCD", "DetMCD", "CellMCD", "ROBPCA", "FastLTSRegression",
        "FastLTSRegression", "SRegression", "SRegression", "DataCleaner", "RobustPowerTransformer",
        "DDC", "UnivariateMCD"]


def gen(rng, tier, idx):
    if rng.random() < 0.08:
        f = catalog.func_op(rng, "adjusted_boxplot")
        f["kw"]["plot"] = False
        return {"cls": "adjusted_boxplot", "ops": [f], "set": settings(rng, "adjusted_boxplot"),
                "plan": rng.randrange(1 << 30), "noise": []}
    s = tame(rng, catalog.subject(rng, rng.choice(TALK) if rng.random() < 0.75 else None))
    if s["cls"] in FITKW and rng.random() < 0.4:
        s["data"]["noise"] = rng.choice([1e-6, 1e-4, 0.01])
    elif s["data"].get("what", "X") == "X" and s["cls"] not in ("DDC", "CellMCD") and rng.random() < 0.1:
        s["data"]["scale"] = rng.choice([1e-4, 1e5])
    ops = subject_ops(rng, "a", s)
    st = settings(rng, s["cls"])
    if rng.random() < 0.3:
        st["preempts"] = rng.choice([1, 3, 10])
    return {"cls": s["cls"], "ops": ops, "set": st, "plan": rng.randrange(1 << 30),
            "noise": [rng.choice(["level", "disable", "handler", "unhandle", "propagate", "stderr",
                                  "construct", "close"])
                      for _ in range(rng.choice([2, 6]))] if "preempts" in st else []}


def settings(rng, cls):
    st = {}
    if rng.random() < 0.75:
        st["verbosity"] = rng.choice(LEVELS)
    if rng.random() < 0.15:
        st["disable"] = rng.choice([20, 30, 50])
    if rng.random() < 0.15:
        st["propagate"] = False
    if rng.random() < 0.4:
        st["clock"] = True
    if rng.random() < 0.4:
        st["repeat"] = rng.choice([1, 2, 4])
    if rng.random() < 0.4:
        st["stderr"] = {"every": rng.choice([1, 2, 3, 7, 0]), "at": [rng.choice([1, 2, 3, 5, 9])],
                        "errno": rng.choice([5, 5, 28, 32, 11]),
                        "exc": rng.choice(["OSError", "OSError", "OSError", "ValueError"])}
    if rng.random() < 0.1 and cls not in FITKW:  # (tqdm itself needs a stream)
        st["stderr"] = {"none": True}
    if rng.random() < 0.15:
        st["stdout"] = {"every": 0, "at": [rng.choice([1, 2])], "errno": rng.choice([28, 32]),
                        "exc": "OSError"}
    if rng.random() < 0.2:
        st["badhandler"] = rng.choice([1, 2, 5])
    if rng.random() < 0.3:
        st["openfig"] = True
    if rng.random() < 0.2:
        st["ion"] = True
    if rng.random() < 0.3:
        st["rc"] = rng.choice(["dark_background", "ggplot", "classic"])
    if rng.random() < 0.3:
        st["backend"] = rng.choice(["svg", "pdf", "template"])
    return st


class Stream(seams.FaultyStream):
    def __init__(self, d):
        super().__init__(d.get("at", ()), OSError, d.get("every", 0))
        self.d = d
        self.raised = []

    def _hit(self):
        self.calls += 1
        if self.calls in self.fail_at or (self.every and self.calls % self.every == 0):
            self.fired += 1
            import builtins

            c = getattr(builtins, self.d["exc"])
            e = c(self.d["errno"], "injected stream failure") if issubclass(c, OSError) else \
                c("I/O operation on closed file (injected)")
            self.raised.append(e)
            raise e


class BadHandler(logging.StreamHandler):
    """An application handler with a broken output; logging reports that by itself."""

    def __init__(self, every):
        super().__init__(Stream({"every": every, "at": [], "errno": 28, "exc": "OSError"}))


def with_settings(ops, st, cls):
    ops = [dict(o) for o in ops]
    v = st.get("verbosity")
    if cls == "adjusted_boxplot":
        return ops
    if v is not None:
        if cls in CTOR:
            ops[0]["params"] = dict(ops[0]["params"], verbosity=v)
        elif cls in FITKW:
            ops[1]["kw"] = dict(ops[1].get("kw", {}), verbosity=v)
        elif cls == "DDC":
            ops[1]["kw"] = dict(ops[1].get("kw", {}), verbose=v <= 20)
    return ops


def has_verbosity(cls):
    import inspect

    c = catalog.cls_of(cls)
    return "verbosity" in inspect.signature(c.fit).parameters


def messages(ops, cls, st):
    """All records of a run with the application listening at every level."""
    w = catalog.World()
    seams.entropy_ident(0)
    ops = with_settings(ops, st, cls)
    h = seams.CaptureHandler()
    logging.getLogger().addHandler(h)
    out = []
    with sched.Solo(limit=SOLO_LIMIT):
        for op in ops:
            w.run(op)
            out.append(list(h.records))
            h.records.clear()
    logging.getLogger().removeHandler(h)
    return out


def variants(op):
    """The same plot with another choice of what is returned."""
    k = RET.get(op.get("m"))
    if k is None:
        return None
    o = dict(op, kw=dict(op.get("kw", {})))
    o["kw"][k] = not o["kw"].get(k, False)
    return o


def run(scn):
    r = R()
    cls, ops, st = scn["cls"], scn["ops"], scn["set"]
    if cls in FITKW and not has_verbosity(cls):
        st = dict(st)
        st.pop("verbosity", None)
    base = solo(ops, trace=bool(st.get("preempts")))
    g = random.Random(scn["plan"])
    ops2 = with_settings(ops, st, cls)
    known = None
    if cls not in ("adjusted_boxplot",):
        known = proc.isolate(messages, ops, cls, {"verbosity": 10})
    # ---- settings of the simulated application
    import matplotlib
    import matplotlib.pyplot as plt

    if st.get("backend"):
        plt.switch_backend(st["backend"])
    if st.get("rc"):
        plt.style.use(st["rc"])
    if st.get("ion"):
        plt.ion()
    mine = None
    if st.get("openfig"):
        mine, ax = plt.subplots()
        ax.plot([1, 2, 3])
        mine_enc = cmp.digest(cmp.enc(mine))
    cap = seams.CaptureHandler()
    logging.getLogger().addHandler(cap)
    seen = []
    real_call = logging.Logger.callHandlers

    def call(self, record):
        b = len(cap.records)
        real_call(self, record)
        if not st.get("preempts"):
            seen.append((record.name, record.levelno, record.getMessage(), len(cap.records) - b))

    logging.Logger.callHandlers = call
    if st.get("badhandler"):
        for n in NAMES[:-1]:
            logging.getLogger(n).addHandler(BadHandler(st["badhandler"]))
    if st.get("propagate") is False:
        for n in NAMES[:-1]:
            logging.getLogger(n).propagate = False
            logging.getLogger(n).addHandler(cap)
    logging.raiseExceptions = True
    clock = seams.install_clock(scn["plan"]) if st.get("clock") else None
    err = out = None
    if st.get("stderr"):
        err = None if st["stderr"].get("none") else Stream(st["stderr"])
        sys.stderr = err
    else:
        err = Stream({"exc": "OSError", "errno": 0})
        sys.stderr = err
    if st.get("stdout"):
        out = sys.stdout = Stream(st["stdout"])
    logging.disable(st.get("disable", 0))
    w = catalog.World()
    with sched.Solo(limit=SOLO_LIMIT):
        for i in range(st.get("repeat", 0)):
            if ops[0]["op"] == "new":
                catalog.construct(cls, ops2[0]["params"])
    seen.clear()
    cap.records.clear()
    seams.entropy_ident(0)
    got, per_op, streams = [], [], []
    if st.get("preempts"):
        got = noisy(scn, st, base, w, ops2, g, r, streams)
    else:
        with sched.Solo(limit=SOLO_LIMIT) as t:
            for op in ops2:
                n = len(seen)
                got.append(w.run(op))
                per_op.append(seen[n:])
        r.stat("steps", t.steps)
    logging.disable(0)
    logging.Logger.callHandlers = real_call
    sys.stderr, sys.stdout = io_(), io_()
    what = f"{cls} with {st}"
    streams += [s for s in (err, out) if s is not None]
    failed_stream = any(s.raised for s in streams)
    stop = False
    for i, (op, a, b) in enumerate(zip(ops, got, base[0])):
        r.log(cmp.digest(a))
        if undecided(a, b):
            break
        d = cmp.diff(a, b)
        if d:
            if failed_stream and isinstance(a, dict) and \
                    any(str(e) == a.get("msg") for s in streams for e in s.raised):
                r.stat("stream_error_reported")
                stop = True
                break  # the failure itself was reported to the caller
            r.fail(f"result-depends:{cls}", f"{what}: {short([op])} differs from the default settings: {d}")
            stop = True
            break
    # ---- records
    if not st.get("preempts"):
        for i, recs in enumerate(per_op):
            for name, lvl, msg, n in recs:
                if n != 1:
                    r.fail(f"record-count:{name}", f"{what}: record {msg!r} reached the application "
                                                   f"handler {n} times")
                    break
            if known is not None and i < len(known) and not stop and i > 0 \
                    and (st.get("verbosity") is not None) and not is_hang(got[i]):
                lvl = max(st["verbosity"], st.get("disable", 0) + 1)
                want = [m for m in known[i] if m[1] >= lvl and m[0] in NAMES]
                have = [m[:3] for m in recs if m[0] in NAMES]
                if cls in CTOR + ("FastLTSRegression", "SRegression") and ops2[i]["op"] == "fit" \
                        and own(cls, want) != own(cls, have):
                    r.fail(f"records-differ:{cls}", f"{what}: records at level {st['verbosity']} are "
                                                    f"{own(cls, have)[:4]}, of the full log {own(cls, want)[:4]} "
                                                    f"({len(own(cls, have))} / {len(own(cls, want))})")
        text = "".join(err.text) if isinstance(err, Stream) and not err.raised \
            and not st.get("badhandler") else ""
        if text:
            allrec = [m for recs in per_op for m in recs]
            for m in {x[2] for x in allrec}:
                if text.count(m) > sum(x[2].count(m) for x in allrec):
                    r.fail(f"record-duplicated:{cls}",
                           f"{what}: {m!r} was written {text.count(m)} times for "
                           f"{sum(x[2] == m for x in allrec)} records")
                    break
    # ---- plots: same figure and same numbers with and without returning the data
    if not stop and "exc" not in (got[1] if len(got) > 1 else {}):
        for op, a in zip(ops2, got):
            v = variants(op)
            if v is None or "exc" in a:
                continue
            with sched.Solo(limit=SOLO_LIMIT):
                b = w.run(v)
            if "exc" in b:
                r.fail(f"plot-variant:{cls}", f"{what}: {op['m']} {v['kw']} raises {b}")
                continue
            d = cmp.diff(a["ok"]["figs"], b["ok"]["figs"])
            if d:
                r.fail(f"plot-variant:{cls}", f"{what}: figure of {op['m']} depends on {RET[op['m']]}: {d}")
            r.stat("plot_variants")
        if cls == "adjusted_boxplot":
            with sched.Solo(limit=SOLO_LIMIT):
                o = dict(ops[0], kw=dict(ops[0]["kw"], plot=True))
                b = w.run(o)
            if "ok" in got[0]:
                d = cmp.diff(got[0]["ok"], b.get("ok", {}).get("ret"))
                if d:
                    r.fail("plot-variant:adjusted_boxplot", f"{what}: result with plot=True differs: {d}")
        if len(ops) > 1 and "a" in w.objs and not st.get("preempts"):
            with sched.Solo(limit=SOLO_LIMIT):
                d = cmp.diff(w.run({"op": "observe", "id": "a"}).get("ok"),
                             base[0][1].get("ok", {}).get("state"), 0, 0) \
                    if "ok" in base[0][1] else None
            if d:
                r.fail(f"plot-changes-model:{cls}", f"{what}: after {short(ops[2:])}: {d}")
    if mine is not None:
        if not plt.fignum_exists(mine.number) or cmp.digest(cmp.enc(mine)) != mine_enc:
            r.fail(f"foreign-figure:{cls}", f"{what}: {short(ops)} changed a figure of the application")
    if clock is not None:
        r.simtime += clock.elapsed
        r.fault("clock jump", clock.jumped)
        r.stat("clock_reads", clock.reads)
    for n, s in (("stderr", err), ("stdout", out)):
        if isinstance(s, Stream):
            r.fault(f"{n} write failure", s.fired)
    if st.get("stderr", {}).get("none"):
        r.fault("no stderr")
    if st.get("badhandler"):
        r.fault("broken application handler")
    r.stat("records", sum(len(x) for x in per_op) or len(cap.records))
    r.sig = cmp.digest([short(ops), st, scn["noise"]])
    r.nontrivial = bool(st)
    return r.done()


def own(cls, recs):
    names = {"FastLTSRegression": ("FastLTS",), "SRegression": ("S-regression",)}.get(cls, (cls,))
    return [(n, l, m) for n, l, m in recs if n in names]


def io_():
    import io

    return io.StringIO()


def noisy(scn, st, base, w, ops, g, r, streams):
    """The application reconfigures logging from another thread while the calls run."""
    n = max(2, base[1])
    lines = {}
    for i, s in enumerate(base[2]):
        lines.setdefault(s, []).append(i + 1)
    pts = set()
    for _ in range(st["preempts"]):
        pts.add(g.randrange(1, n) if g.random() < 0.4 or not lines
                else g.choice(lines[g.choice(sorted(lines))]))
    got = []
    sim = sched.Sim()

    def app():
        for k, a in enumerate(scn["noise"]):
            name = g.choice(NAMES)
            lg = logging.getLogger(name)
            if a == "level":
                lg.setLevel(g.choice([0, 10, 30, 50]))
            elif a == "disable":
                logging.disable(g.choice([0, 10, 30, 50]))
            elif a == "handler":
                lg.addHandler(seams.CaptureHandler(g.choice([0, 30])))
            elif a == "unhandle":
                for h in list(lg.handlers)[:1]:
                    lg.removeHandler(h)
            elif a == "propagate":
                lg.propagate = not lg.propagate
            elif a == "stderr":
                sys.stderr = Stream({"every": g.choice([0, 1, 2]), "errno": 5, "exc": "OSError"})
                streams.append(sys.stderr)
            elif a == "close":
                for h in list(lg.handlers):
                    h.close()
            elif a == "construct" and ops[0]["op"] == "new":
                catalog.construct(ops[0]["cls"], ops[0]["params"])
            r.fault("logging reconfigured: " + a)
            sim.preempt(sim.tasks[1], 0)

    sim.add(lambda: [got.append(w.run(op)) for op in ops], [(s, 1) for s in sorted(pts)],
            limit=SOLO_LIMIT)
    sim.add(app)
    sim.run(0)
    for t in sim.tasks:
        if t.error is not None:
            raise RuntimeError(f"harness: {t.error!r}")
    r.fault("preemption", len(sim.switches))
    r.stat("steps", sim.tasks[0].steps)
    return got
