"""C05: with many draws the random search covers every admissible start, for every seed."""
import itertools
import math

import numpy as np

from robsim import ref
from robsim.checks.common import *  # noqa

KINDS = ["sd", "sd", "sd3", "mcd", "mcd", "lts", "lts", "s", "s1d", "sdfew", "ltsone", "sone"]


def gen(rng, tier, idx):
    kind = rng.choice(KINDS)
    scn = {"kind": kind, "seeds": [rng.choice([None, None, 0, 1, 2, 3, 7, 42, 101, 1234, 2 ** 31 - 1,
                                               rng.randrange(1 << 20)])],
           "data": {"seed": rng.randrange(1 << 30)}, "threads": rng.choice([1, 1, 2]),
           "plan": rng.randrange(1 << 30), "burn": rng.choice([0, 1, 50]),
           "hard": rng.choice([1, 10, 25])}
    scn["data"]["kind"] = rng.choice(["gauss", "t", "unif"])
    if kind in ("sd", "sd3", "sdfew"):
        scn["data"].update(n=rng.choice([6, 8, 10]) if kind == "sd" else rng.choice([6, 7]),
                           p=3 if kind == "sd3" else rng.choice([2, 3, 4]))
        if kind == "sdfew":
            scn["data"]["n"] = rng.choice([8, 12, 20])
            scn["n_dir"] = rng.choice([1, 2, 5, 20, 60])
    elif kind == "mcd":
        scn["data"].update(n=rng.choice([7, 8, 9]), p=2)
        scn["alpha"] = rng.choice([None, None, 0.5, 0.7])
        scn["seeds"] *= 1
    elif kind == "lts":
        scn["data"].update(n=rng.choice([7, 8, 9]), p=rng.choice([1, 1, 2]))
        scn["alpha"] = rng.choice([0.5, 0.5, 0.6, 0.75])
    elif kind in ("ltsone", "sone"):
        # many possible starts, only the best of them is refined: the start with the smallest
        # initial loss has to be among the draws
        scn["data"].update(n=rng.choice([25, 27, 29]), p=1)
        scn["alpha"] = rng.choice([0.5, 0.5, 0.6, 0.75])
    else:
        scn["data"].update(n=6, p=1)
        scn["intercept"] = kind == "s" and rng.random() < 0.6
        scn["default"] = kind == "s" and rng.random() < 0.8
    if kind in ("lts", "s", "s1d", "ltsone", "sone") and scn["seeds"][0] is None:
        scn["seeds"][0] = rng.choice([0, 1, 42, 101])
    if kind in ("s",):
        scn["seeds"].append(rng.choice([5, 1000, 77777, 123456]))
    if scn["threads"] > 1 and kind != "s":
        scn["seeds"].append(scn["seeds"][0] if rng.random() < 0.5 else rng.choice([0, 5, 99]))
    scn["data"]["noise"] = rng.choice([0.3, 1.0, 3.0])
    return scn


def make(d, what):
    r = {"seed": d["seed"], "n": d["n"], "p": d["p"], "kind": d["kind"], "what": what,
         "noise": d.get("noise", 1.0)}
    return data.build(r)


def hardest(scn, what, starts):
    """Among `hard` candidate data sets the one whose best value is reached from fewest starts."""
    best = None
    for j in range(scn["hard"]):
        d = dict(scn["data"], seed=scn["data"]["seed"] + j)
        D = make(d, what)
        v = starts(D)
        if not v:
            continue
        frac = sum(1 for x in v if x <= v[0] * (1 + 1e-7)) / len(v)
        if best is None or frac < best[0]:
            best = (frac, D, v)
    return best


def call_many(scn, fns, r):
    """Run the calls in threads (interleaved) or one after another."""
    outs = [None] * len(fns)

    def wrap(i):
        def f():
            try:
                outs[i] = ("ok", fns[i]())
            except (Exception, sched.StepLimit, sched.Deadlock) as e:
                outs[i] = ("exc", e)
        return f

    if scn["threads"] > 1 and len(fns) > 1:
        sim = sched.Sim()
        g = random.Random(scn["plan"])
        for i in range(len(fns)):
            pts = scn.setdefault("preempts", [[t, g.randrange(1, 4000), 1 - t]
                                              for t in range(2) for _ in range(12)])
            sim.add(wrap(i), sorted((s, o) for t, s, o in pts if t == i), limit=40_000_000)
        sim.run()
        for t in sim.tasks:
            if t.error is not None:
                raise RuntimeError(f"harness: {t.error!r}")
        r.fault("preemption", len(sim.switches))
        r.stat("steps", sum(t.steps for t in sim.tasks))
        r.log(sim.digest())
    else:
        for i in range(len(fns)):
            with sched.Solo(limit=40_000_000) as t:
                wrap(i)()
            r.stat("steps", t.steps)
    return outs


def run(scn):
    from robpy.covariance import FastMCD
    from robpy.regression import FastLTSRegression, SRegression
    from robpy.utils.outlyingness import stahel_donoho

    r = R()
    kind, seeds = scn["kind"], scn["seeds"]
    np.random.rand(scn["burn"])
    r.sig = cmp.digest([kind, str(seeds), scn["data"]])

    def check(cond, what, detail):
        r.stat("assertions")
        if not cond:
            r.fail(what, detail)

    if kind in ("sd", "sd3", "sdfew"):
        X = make(scn["data"], "X")
        npts = 3 if kind == "sd3" else 2
        full = ref.sd_all_directions(X, npts)
        if full is None:
            r.nontrivial = False
            return r.done()
        starts = math.comb(len(X), npts)
        nd = scn.get("n_dir") or int(starts * 25 + 300)
        outs = call_many(scn, [lambda s=s: stahel_donoho(X, n_points=npts, n_dir=nd, random_seed=s)
                               for s in seeds], r)
        for s, (k, o) in zip(seeds, outs):
            r.log(cmp.digest(str(o)))
            if k == "exc":
                r.fail("outlyingness:error", f"seed={s}: {o!r}")
                continue
            o = np.asarray(o)
            check(o.shape == (len(X),) and np.isfinite(o).all(), "outlyingness:shape", o)
            check((o <= full * (1 + 1e-6) + 1e-9).all(), "outlyingness:exceeds-all-directions",
                  f"seed={s} n_dir={nd}: {o} > {full}")
            if kind != "sdfew":
                bad = np.flatnonzero(o < full * (1 - 1e-6))
                check(not len(bad), "outlyingness:directions-missing",
                      f"seed={s}, {nd} draws of {starts} possible directions (n={len(X)}): record "
                      f"{bad[:3]} got {o[bad[:3]]}, over all directions {full[bad[:3]]}")
        r.stat("possible_starts", starts)
        r.stat("draws", nd * len(seeds))
        return r.done()

    if kind == "mcd":
        n, p = scn["data"]["n"], 2
        h = ref.mcd_h(scn["alpha"], n, p)
        b = hardest(scn, "X", lambda X: ref.mcd_from_all_starts(X, h))
        if b is None:
            r.nontrivial = False
            return r.done()
        frac, X, vals = b
        opt = ref.mcd_optimum(X, h)
        starts = math.comb(n, p + 1)
        nd = 14 * starts + 100

        def fit(s):
            m = FastMCD(alpha=scn["alpha"], n_initial_subsets=nd, n_best_subsets=nd, tolerance=0.0,
                        correct_covariance=False, reweighting=False, random_seed=s, n_partitions=1)
            return float(np.linalg.det(m.fit(X.copy()).covariance_))

        outs = call_many(scn, [lambda s=s: fit(s) for s in seeds], r)
        judge(r, "FastMCD determinant", seeds, outs, vals[0], opt, starts, nd, check)
        r.stat("hardest_fraction_pct", round(100 * frac))
        return r.done()

    if kind == "lts":
        n, p = scn["data"]["n"], scn["data"]["p"]
        h = ref.lts_h(scn["alpha"], n, p)
        b = hardest(scn, "xy", lambda D: ref.lts_from_all_starts(*D, h))
        if b is None:
            r.nontrivial = False
            return r.done()
        frac, (X, y), vals = b
        opt = ref.lts_optimum(X, y, h)
        starts = math.comb(n, p + 1)
        nd = 12 * starts + 60

        def fit(s):
            m = FastLTSRegression(alpha=scn["alpha"], n_initial_subsets=nd, n_best_models=nd,
                                  reweighting=False, random_state=s).fit(X.copy(), y.copy(),
                                                                         verbosity=40)
            res = (y - m.predict(X).ravel()) ** 2
            return float(np.sort(res)[:h].mean())

        outs = call_many(scn, [lambda s=s: fit(s) for s in seeds], r)
        judge(r, "FastLTS loss", seeds, outs, vals[0], opt, starts, nd, check)
        r.stat("hardest_fraction_pct", round(100 * frac))
        return r.done()

    if kind == "ltsone":
        n, p = scn["data"]["n"], 1
        h = ref.lts_h(scn["alpha"], n, p)
        X, y = make(scn["data"], "xy")
        one = ref.lts_from_best_start(X, y, h)
        if one is None:
            r.nontrivial = False
            return r.done()
        starts = math.comb(n, 2)
        nd = 12 * starts + 60

        def fit(s):
            m = FastLTSRegression(alpha=scn["alpha"], n_initial_subsets=nd, n_best_models=1,
                                  n_initial_c_steps=0, reweighting=False, tolerance=0.0,
                                  random_state=s).fit(X.copy(), y.copy(), verbosity=40)
            res = (y - m.predict(X).ravel()) ** 2
            return float(np.sort(res)[:h].mean())

        outs = call_many(scn, [lambda s=s: fit(s) for s in seeds], r)
        judge(r, "FastLTS(1 start) loss", seeds, outs, one, 0.0, starts, nd, check)
        return r.done()

    # S-regression
    X, y = make(scn["data"], "xy")
    n = len(y)
    if kind == "sone":
        one = s_from_best_start(X[:, 0], y)
        if one is None:
            r.nontrivial = False
            return r.done()
        starts = math.comb(n, 2)
        nd = 12 * starts + 60

        def fit(s):
            m = SRegression(n_initial_subsets=nd, n_best_subsets=1, n_initial_i_steps=0,
                            fit_intercept=False, random_state=s, b=0.1995,
                            max_scale_iterations=400, scale_tolerance=1e-8,
                            relative_tolerance=1e-4).fit(X.copy(), y.copy(), verbosity=40)
            return ref.m_scale(y - np.ravel(m.predict(X)), 1.547, 0.1995)

        outs = call_many(scn, [lambda s=s: fit(s) for s in seeds], r)
        judge(r, "S-scale(1 start) scale", seeds, outs, one, 0.0, starts, nd, check, 1e-3)
        return r.done()
    ic = bool(scn.get("intercept"))
    starts = math.comb(n, X.shape[1] + ic + 1)
    nd = 9 * starts + 40
    kw = {} if scn.get("default") else {"b": 0.1995, "max_scale_iterations": 400,
                                                 "scale_tolerance": 1e-8,
                                                 "relative_tolerance": 1e-4}

    def fit(s):
        m = SRegression(n_initial_subsets=nd, n_best_subsets=nd, fit_intercept=ic, random_state=s,
                        **kw).fit(X.copy(), y.copy(), verbosity=40)
        # (the exact scale of the residuals: the iterated one can be far from converged)
        return (ref.m_scale(y - np.ravel(m.predict(X)), 1.547, 0.1995) if kind == "s1d"
                else float(m.scale))

    outs = call_many(scn, [lambda s=s: fit(s) for s in seeds], r)
    good = [o[1] for o in outs if o[0] == "ok"]
    for s, o in zip(seeds, outs):
        r.log(str(o))
        if o[0] == "exc":
            r.fail("S-scale:error", f"seed={s}: {o[1]!r}")
    if len(good) > 1:
        lo = min(good)
        for s, v in zip(seeds, good):
            check(v <= lo * (1 + 1e-3) + 1e-10, "S-scale:starts-missing",
                  f"random_state={s}, {nd} draws of {starts} starts: scale {v}, another seed reaches "
                  f"{lo}")
    if kind == "s1d" and good:
        opt = ref.s_profile_minimum(X[:, 0], y, 1.547, 0.1995)
        for s, v in zip(seeds, good):
            check(v >= opt * (1 - 1e-3), "S-scale:beats-optimum", f"{v} < {opt}")
            # descent from every pair of records also reaches the global minimum on most data; the
            # library must be as good as the best value reached from any start
            best = s_best_from_starts(X[:, 0], y)
            check(v <= best * (1 + 1e-3), "S-scale:starts-missing",
                  f"random_state={s}: scale {v}, best from any start {best}")
    r.stat("possible_starts", starts)
    r.stat("draws", nd * len(seeds))
    return r.done()


def pair_slope(x, y, i, j):
    return (x[i] * y[i] + x[j] * y[j]) / (x[i] ** 2 + x[j] ** 2)


def s_descend(x, y, t, c=1.547, b=0.1995):
    for _ in range(500):
        res = y - x * t
        s = ref.m_scale(res, c, b)
        w = ref.bisquare_w(res / s, c)
        if not (w * x * x).sum() > 0:
            break
        t2 = (w * x * y).sum() / (w * x * x).sum()
        if abs(t2 - t) <= 1e-7 * max(1e-7, abs(t2)):
            t = t2
            break
        t = t2
    return ref.m_scale(y - x * t, c, b)


def s_best_from_starts(x, y):
    return min(s_descend(x, y, pair_slope(x, y, i, j))
               for i, j in itertools.combinations(range(len(x)), 2))


def s_from_best_start(x, y):
    """Scale reached from the pair of records with the smallest median absolute residual."""
    c = sorted((float(np.median(np.abs(y - x * t))), t) for t in
               (pair_slope(x, y, i, j) for i, j in itertools.combinations(range(len(x)), 2)))
    if c[1][0] <= c[0][0] * (1 + 1e-7):
        return None
    return s_descend(x, y, c[0][1])


def judge(r, what, seeds, outs, best, opt, starts, nd, check, rtol=1e-6):
    tag = what.split()[0]
    for s, (k, v) in zip(seeds, outs):
        r.log(str(v))
        if k == "exc":
            r.fail(f"{tag}:error", f"seed={s}: {v!r}")
            continue
        check(v >= opt * (1 - 1e-7) - 1e-14, f"{tag}:beats-optimum",
              f"seed={s}: {v} below the optimum {opt} over all h-subsets")
        check(v <= best * (1 + rtol) + 1e-12, f"{tag}:starts-missing",
              f"seed={s}, {nd} draws of {starts} starts: {what} {v}, best from any start {best}")
    r.stat("possible_starts", starts)
    r.stat("draws", nd * len(seeds))
