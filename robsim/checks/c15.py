"""C15: caller data are never modified and never aliased by results."""
import numpy as np
import pandas as pd

from robsim import callbacks, data as dat
from robsim.checks.c10 import tame
from robsim.checks.common import *  # noqa

SUBS = ("initial_estimator", "scale_estimator", "location_estimator", "rho")


def gen(rng, tier, idx):
    k = rng.random()
    if k < 0.12:
        ops = [catalog.func_op(rng)]
        cls = ops[0]["f"]
    else:
        s = tame(rng, catalog.with_callbacks(rng) if k < 0.25 else
                 catalog.large(rng, catalog.degenerate(rng, catalog.subject(rng)), 0.04))
        cls = s["cls"]
        ops = subject_ops(rng, "a", s)
        if s["cls"] == "DDC" and rng.random() < 0.3:
            ops[1]["kw"] = {"verbose": True}
        for o in ops[1:]:
            if o.get("data") and rng.random() < 0.12:
                o["data"] = dict(o["data"], spoil=rng.choice(dat.SPOILS[:-1]))
    return {"cls": cls, "ops": ops, "readonly": rng.random() < 0.25,
            "dtype": rng.choice([None, None, None, None, "float32", "int64", "object"]),
            "mode": rng.choice(["quiet", "watch", "watch", "interrupt", "interrupt", "fault"]),
            "npoints": rng.choice([3, 10, 30, 100]), "plan": rng.randrange(1 << 30),
            "again": rng.random() < 0.5}


# ---------------------------------------------------------------- identity of caller data


def ident(x):
    """Everything a caller could notice about an object passed in."""
    if isinstance(x, tuple):
        return [ident(v) for v in x]
    if isinstance(x, np.ndarray):
        return ["nd", str(x.dtype), x.shape, x.strides, bool(x.flags.writeable),
                x.copy() if x.dtype != object else [repr(v) for v in x.ravel()]]
    if isinstance(x, pd.DataFrame):
        return ["df", [str(c) for c in x.columns], str(x.columns.name), [str(i) for i in x.index],
                str(x.index.name), [str(d) for d in x.dtypes], dict(x.attrs),
                [x.iloc[:, j].to_numpy().copy() if x.dtypes.iloc[j] != object else
                 [repr(v) for v in x.iloc[:, j]] for j in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ["ser", str(x.name), [str(i) for i in x.index], str(x.dtype), x.to_numpy().copy()]
    return repr(x)


def sub_state(o):
    """Complete state of a sub-estimator or callback object."""
    d = {}
    for k, v in sorted(getattr(o, "__dict__", {}).items()):
        d[k] = cmp.enc(v) if not hasattr(v, "__dict__") or isinstance(v, np.ndarray) \
            else [type(v).__name__, sub_state(v)] if type(v).__module__.startswith("robpy") \
            else type(v).__name__
    return d


def trash(x):
    """Overwrite an object in place, as its owner may."""
    if isinstance(x, tuple) or isinstance(x, list):
        for v in x:
            trash(v)
    elif isinstance(x, dict):
        for v in x.values():
            trash(v)
    elif isinstance(x, np.ndarray):
        if not x.flags.writeable:
            try:
                x.setflags(write=True)
            except ValueError:
                return
        if x.dtype == object:
            x[...] = None
        elif x.dtype.kind == "b":
            x[...] = ~x
        elif x.size:
            x[...] = 31337
    elif isinstance(x, pd.DataFrame):
        for j in range(x.shape[1]):
            try:
                v = x.iloc[:, j].to_numpy()
                x.iloc[:, j] = (~v if v.dtype.kind == "b" else
                                np.full(len(x), 31337).astype(v.dtype)
                                if v.dtype.kind in "fiu" else v[::-1])
                b = x._get_column_array(j) if hasattr(x, "_get_column_array") else None
                if isinstance(b, np.ndarray) and b.flags.writeable and b.dtype.kind in "fiu":
                    b[...] = 31337
            except Exception:
                pass
        try:
            x.columns = [f"gone{j}" for j in range(x.shape[1])]
        except Exception:
            pass
    elif isinstance(x, pd.Series):
        v = x.to_numpy()
        try:
            x.iloc[:] = 31337 if v.dtype.kind in "fiu" else v[::-1]
        except Exception:
            pass


# ---------------------------------------------------------------- execution with raw objects


def make_data(scn, r):
    d = dat.build(r)
    parts = d if isinstance(d, tuple) else (d,)
    if any(x is None for x in parts):
        return parts
    out = []
    for x in parts:
        if scn["dtype"] and scn["cls"] not in ("DataCleaner",):
            try:
                with np.errstate(all="ignore"):
                    x = x.astype(scn["dtype"])
            except (ValueError, TypeError, pd.errors.IntCastingNaNError):
                pass
        if scn["readonly"] and isinstance(x, np.ndarray):
            x.setflags(write=False)
        if scn["readonly"] and isinstance(x, pd.DataFrame) and \
                len({str(t) for t in x.dtypes}) == 1 and str(x.dtypes.iloc[0]) != "object":
            v = np.array(x.to_numpy())
            v.setflags(write=False)
            x = pd.DataFrame(v, columns=x.columns, index=x.index, copy=False)
        out.append(x)
    return tuple(out)


class Runner:
    def __init__(self, scn, watch=None):
        self.scn = scn
        self.objs = {}
        self.watch = watch if watch is not None else {}
        self.subs = {}
        self.results = []

    def call(self, op):
        """Returns (encoded outcome, raw result, inputs)."""
        k = op["op"]
        raw, args = None, ()
        self.watch["seen"] = []
        try:
            if k == "new":
                ps = {n: catalog.resolve(v) for n, v in op["params"].items()}
                for n, v in ps.items():
                    if n in SUBS:
                        self.subs[n] = v
                self.sub0 = {n: sub_state(v) for n, v in self.subs.items()}
                self.objs[op["id"]] = catalog.cls_of(op["cls"])(**ps)
                return {"ok": None}, None, ()
            if op.get("data") is not None and "eye" not in op:
                args = make_data(self.scn, op["data"])
            elif "eye" in op:
                args = (np.eye(op["eye"]),)
            self.watch["seen"] = [(a, ident(a)) for a in args]
            kw = {a: catalog.resolve(v) for a, v in op.get("kw", {}).items()}
            if k == "fit":
                o = self.objs[op["id"]]
                if op.get("via"):
                    raw = getattr(o, op["via"])(*args)
                    return {"ok": {"state": catalog.observe(o), "ret": cmp.enc(raw)}}, raw, args
                o.fit(*args, **kw)
                return {"ok": {"state": catalog.observe(o)}}, None, args
            if k == "func":
                import importlib

                fn = getattr(importlib.import_module(catalog.F[op["f"]][0]), op["f"])
            elif "prop" in op:
                return {"ok": cmp.enc(getattr(self.objs[op["id"]], op["prop"]))}, None, ()
            else:
                fn = getattr(self.objs[op["id"]], op["m"])
            raw = fn(*args, **kw)
            return {"ok": cmp.enc(raw)}, raw, args
        except (Exception, sched.StepLimit, sched.Deadlock) as e:
            return cmp.enc_exc(e), None, args

    def changed(self):
        for i, (a, was) in enumerate(self.watch.get("seen", ())):
            d = cmp.diff(was, ident(a), 0, 0)
            if d:
                return f"argument {i} changed: {d}"
        for n, v in self.subs.items():
            d = cmp.diff(self.sub0[n], sub_state(v), 0, 0)
            if d:
                return f"the object passed as {n} changed: {d}"
        return None


def plain(scn):
    """Baseline: nothing is overwritten, nothing is read-only."""
    def fn():
        s = dict(scn, readonly=False)
        rn = Runner(s)
        seams.entropy_ident(0)
        outs = []
        with sched.Solo(limit=SOLO_LIMIT, trace=True) as t:
            marks = []
            for op in scn["ops"]:
                outs.append(rn.call(op)[0])
                marks.append(t.steps)
                close()
        return outs, marks, t.trace
    return proc.isolate(fn)


def close():
    import matplotlib.pyplot as plt

    plt.close("all")


def run(scn):
    r = R()
    ops = scn["ops"]
    base, marks, tr = plain(scn)
    g = random.Random(scn["plan"])
    rn = Runner(scn)
    seams.entropy_ident(0)
    lines = {}
    for i, s in enumerate(tr):
        lines.setdefault(s, []).append(i + 1)
    pts = sorted({g.choice(lines[g.choice(sorted(lines))]) if g.random() < 0.6
                  else g.randrange(1, len(tr) + 1) for _ in range(scn["npoints"])}) if tr else []
    prev = 0
    what0 = f"{scn['cls']}, {scn['mode']}" + (", read-only input" if scn["readonly"] else "")
    alive = True
    for j, op in enumerate(ops):
        mine = [p - prev for p in pts if prev < p <= marks[j]]
        prev = marks[j]
        what = f"{what0}: {short([op])}"
        if scn["mode"] in ("interrupt", "fault") and op["op"] != "new" and mine:
            # first the failing attempt; afterwards the data must be as they were
            seams.entropy_ident(0)
            k = mine[0]
            if scn["mode"] == "interrupt":
                with sched.Solo(limit=SOLO_LIMIT, interrupts={k: lambda: MemoryError("injected")}) as t:
                    out, raw, args = rn.call(op)
                if t.fired:
                    r.fault("MemoryError at a statement")
                site = t.fired
            else:
                lf = seams.LibFaults({"linalg", "alloc"}, [g.choice([1, 2, 3, 5, 9, 20])],
                                     exc=g.choice(["LinAlgError", "MemoryError"]))
                with lf, sched.Solo(limit=SOLO_LIMIT):
                    out, raw, args = rn.call(op)
                r.fault("library failure", len(lf.fired))
                site = lf.fired
            d = rn.changed()
            close()
            if d:
                r.fail(f"modified-on-failure:{scn['cls']}", f"{what} failing at {site}: {d}")
                break
            if op["op"] == "q":
                alive = alive  # queries leave the model alone, the outcome below still counts
        seams.entropy_ident(0)
        if scn["mode"] == "watch" and mine and op["op"] != "new":
            box, seen = [], []
            sim = sched.Sim()

            def look():
                while len(seen) < 3:
                    d = rn.changed()
                    if d:
                        seen.append(d)
                    r.fault("other thread looks at the data")
                    sim.preempt(sim.tasks[1], 0)
                    if sim.tasks[0].done:
                        break

            sim.add(lambda: box.append(rn.call(op)), preempts=[(s, 1) for s in mine],
                    limit=SOLO_LIMIT)
            sim.add(look)
            sim.run(0)
            for t in sim.tasks:
                if t.error is not None:
                    raise RuntimeError(f"harness: {t.error!r}")
            out, raw, args = box[0]
            if seen:
                r.fail(f"modified-meanwhile:{scn['cls']}", f"{what}: {seen[0]} ({sim.switches[:2]})")
        else:
            with sched.Solo(limit=SOLO_LIMIT):
                out, raw, args = rn.call(op)
        d = rn.changed() if op["op"] != "new" else None
        if d:
            r.fail(f"modified:{scn['cls']}", f"{what}: {d}")
            break
        r.log(cmp.digest(out))
        if is_hang(out) or is_hang(base[j]):
            break
        d = cmp.diff(out, base[j])
        if d:
            if scn["readonly"] and "read-only" in str(out.get("msg", "")):
                r.fail(f"writes-input:{scn['cls']}", f"{what}: {out}")
            else:
                r.fail(f"aliased:{scn['cls']}",
                       f"{what} differs after the caller overwrote inputs and results of the calls "
                       f"before it: {d}")
            break
        # the caller reuses its buffers and whatever it was given
        close()
        if raw is not None and op.get("m") not in ("get_precision",) and raw is not \
                rn.objs.get(op.get("id")):
            trash(raw)
            r.stat("results_overwritten")
            d = rn.changed()
            if d:
                r.fail(f"result-is-input:{scn['cls']}", f"{what}: overwriting the result: {d}")
                break
        for a in args:
            trash(a)
        r.stat("inputs_overwritten", len(args))
        if op["op"] == "fit" and "ok" in out:
            with sched.Solo(limit=SOLO_LIMIT):
                st = catalog.observe(rn.objs[op["id"]])
            d = cmp.diff(st, out["ok"]["state"], 0, 0)
            if d:
                r.fail(f"aliased-fit:{scn['cls']}",
                       f"{what}: overwriting the training data changed the fitted model: {d}")
                break
        if op["op"] == "fit" and "exc" in out:
            break
    else:
        if scn["again"] and len(ops) > 2:
            for op, b in list(zip(ops, base))[2:]:
                seams.entropy_ident(0)
                with sched.Solo(limit=SOLO_LIMIT):
                    out = rn.call(op)[0]
                close()
                if is_hang(out) or is_hang(b):
                    break
                d = cmp.diff(out, b)
                if d:
                    r.fail(f"aliased:{scn['cls']}", f"{what0}: second {short([op])} differs after the "
                                                    f"caller overwrote earlier results: {d}")
                    break
    r.stat("steps", len(tr))
    r.sig = cmp.digest([repr(ops), scn["mode"], pts, scn["readonly"], scn["dtype"]])
    return r.done()
