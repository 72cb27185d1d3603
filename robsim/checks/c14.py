"""C14: every call terminates within a bounded number of steps."""
import numpy as np

from robsim.checks.c10 import tame
from robsim.checks.common import *  # noqa

SHAPES = ["equal", "twopoint", "threept", "halfeq", "grid", "collinear", "const", "sym", "origin",
          "huge", "tiny", "mixscale", "denormal", "alternate", "repeatrow", "onedir", "steps",
          "bigout", "expo", "negexpo", "superexp", "offset", "halfplane", "normal", "arith", "geom", "ints", "lattice", "nearsing", "mirror", "centre"]


def shape(X, how, g):
    """Overwrite a matrix with a degenerate (finite) pattern."""
    n, p = X.shape
    if how == "equal":
        X[:] = X[0]
    elif how == "twopoint":
        X[:] = X[g.randint(0, 2, n)]
    elif how == "threept":
        X[:] = X[g.randint(0, min(3, n), n)]
    elif how == "halfeq":
        X[: n // 2 + 1] = X[0]
    elif how == "grid":
        X[:] = g.randint(0, 3, (n, p))
    elif how == "collinear":
        X[:] = X[:, :1] * np.arange(1, p + 1)
    elif how == "const":
        X[:, g.randint(p)] = 3.0
    elif how == "sym":
        X[n // 2:2 * (n // 2)] = -X[: n // 2]
        X[2 * (n // 2):] = 0
    elif how == "origin":
        X[: 2 * n // 3] = 0
    elif how == "huge":
        X *= 10.0 ** g.choice([100, 150, 60])
    elif how == "tiny":
        X *= 10.0 ** -g.choice([100, 150, 60])
    elif how == "mixscale":
        X *= 10.0 ** g.randint(-12, 13, p)
    elif how == "denormal":
        X *= 1e-310
    elif how == "alternate":
        X[:] = np.where(np.arange(n) % 2, 1.0, -1.0)[:, None]
        X[:, 0] += 1e-9 * np.arange(n)
    elif how == "repeatrow":
        X[1::2] = X[0:2 * (n // 2):2] if n % 2 == 0 else X[0:n - 1:2]
    elif how == "onedir":
        X[:, 1:] = 0
    elif how == "steps":
        X[:] = np.floor(np.arange(n)[:, None] / max(1, n // 4))
    elif how == "bigout":
        X[: n // 3] = 1e12
    elif how in ("expo", "negexpo"):
        X[:] = np.exp(g.choice([5, 20, 60]) * g.rand(n, p))
        if how == "negexpo":
            X[:] = -X
    elif how == "superexp":
        X[:] = g.choice([-1, 1]) * np.exp(np.minimum(np.exp(1.5 * np.abs(g.normal(size=(n, p)))), 300))
    elif how == "offset":
        c = 10.0 ** g.randint(0, 10)
        E = np.exp(np.abs(X) / max(1e-300, np.abs(X).mean()))
        X[:] = [c - E, c + E, -c - E, c + X, E - c][g.randint(5)]
    elif how == "halfplane":
        X[:] = np.round(X * 3)
        k = n // 2 + 2
        X[:k, -1] = X[:k, 0]
    elif how == "arith":
        X[:] = np.arange(n * p).reshape(n, p)
    elif how == "geom":
        X[:] = (2.0 ** np.linspace(-30, 30, n))[:, None] * (1 + np.arange(p))
    elif how == "ints":
        X[:] = np.round(X * 2)
    elif how == "lattice":
        X[:] = np.stack([(np.arange(n) * (j + 1)) % 5 for j in range(p)], axis=1)
    elif how == "nearsing":
        X[:, -1] = X[:, 0] + 1e-13 * X[:, -1]
    elif how == "mirror":
        X[:, 1::2] = -X[:, 0:2 * (p // 2):2]
    elif how == "centre":
        X[: n - p] = X[: n - p] - X[: n - p].mean(0)
        X[-1] = 0
    return X


def gen(rng, tier, idx):
    if rng.random() < 0.12:
        op = catalog.func_op(rng)
        op["data"]["deg"] = rng.choice(SHAPES)
        ops = [op]
        cls = op["f"]
    else:
        s = tame(rng, catalog.subject(rng))
        if s["cls"] in ("UnivariateMCD", "Qn", "Tau", "HuberOneStepM", "CellwiseOneStepM",
                        "OneStepWrapping", "RobustPowerTransformer") and rng.random() < 0.5:
            s["data"]["n"] = rng.choice([3, 4, 5, 6, 7, 8])
        if rng.random() < 0.2 and s["cls"] not in ("CellMCD", "InitialDDCW"):
            s["data"]["n"] = max(6, s["data"]["p"] + rng.choice([2, 3, 4]))
        s["data"]["deg"] = rng.choice(SHAPES)
        if s["cls"] == "RobustPowerTransformer" and rng.random() < 0.5:
            s["data"]["deg"] = rng.choice(["expo", "negexpo", "superexp", "offset", "offset"])
            s["data"].pop("pos", None)
            if s["data"]["deg"] == "offset" and rng.random() < 0.6:
                s["params"]["standardize"] = False
            if rng.random() < 0.3:
                s["params"]["lambda_range"] = {"$tuple": [0.9, 1.1]}
        if rng.random() < 0.2:
            s["data"]["deg2"] = rng.choice(SHAPES)
        s["data"].pop("round", None)
        for q in s["queries"]:
            if q.get("data"):
                q["data"]["deg"] = rng.choice([s["data"]["deg"], rng.choice(SHAPES)])
        ops = subject_ops(rng, "a", s)
        cls = s["cls"]
    scn = {"cls": cls, "ops": ops,
           "adv": rng.choice([None, None, "same", "few", "sticky"]), "aseed": rng.randrange(100)}
    if rng.random() < 0.25:
        scn["faults"] = [rng.choice(["eigh", "inv", "lstsq", "solve", "svd", "det", "pinvh",
                                     "matrix_rank", "cov", "median"])]
        scn["from"] = rng.choice([1, 2, 5, 20])
    return scn


class FailFrom(seams.LibFaults):
    """Every call of one function fails from its k-th call on."""

    def __init__(self, names, k):
        super().__init__({"linalg", "alloc"})
        self.only, self.k, self.seen = names, k, 0

    def wrap(self, f, n, alloc=False):
        if n not in self.only:
            return f
        w = super().wrap(f, n, False)

        def outer(*a, **kw):
            self.seen += 1
            if self.seen >= self.k:
                self.fail_at = {self.count + 1}
            return w(*a, **kw)

        outer.__wrapped__ = f
        return outer


def bound(ops):
    """Step budget of a call: a fixed multiple of the work configured by its parameters and data."""
    n = max([o["data"]["n"] for o in ops if o.get("data")] or [20])
    p = max([o["data"]["p"] for o in ops if o.get("data")] or [3])
    par = next((o.get("params", {}) for o in ops if o["op"] == "new"), {})
    sub = par.get("initial_estimator") or {}
    starts = max(par.get("n_initial_subsets", 0), sub.get("params", {}).get("n_initial_subsets", 0),
                 20)
    if ops[0].get("cls") == "MMRegression" and not sub:
        starts = 500
    return 120_000 + 1_500 * starts * 10 + 600 * n * p


def run(scn):
    r = R()
    ops = scn["ops"]
    w = catalog.World()
    lim = bound(ops)
    adv = seams.adversarial(scn["adv"], scn["aseed"]) if scn["adv"] else seams.nullctx()
    lf = FailFrom(scn["faults"], scn["from"]) if scn.get("faults") else seams.nullctx()
    with adv, lf:
        for op in ops:
            with sched.Solo(limit=lim, cpu=30.0) as t:
                out = w.run(op)
            r.stat("steps", t.steps)
            r.log(cmp.digest(out))
            if is_hang(out):
                r.fail(f"no-termination:{scn['cls']}",
                       f"{short([op])} of {scn['cls']} {ops[0].get('params', '')} on "
                       f"{op.get('data')}: more than {lim} steps or 30 s of processor time ({out['msg']}); draws {scn['adv']}")
                break
            key = "raised" if "exc" in out else "returned"
            r.stat(key)
            r.maxi = max(getattr(r, "maxi", 0), t.steps / lim)
    if scn.get("faults"):
        r.fault("all calls of " + scn["faults"][0], len(lf.fired))
    if scn["adv"]:
        r.fault("draws " + scn["adv"])
    r.fault("data " + str(next((o["data"].get("deg") for o in ops if o.get("data")), None)))
    r.stat("over_20pct_of_budget", int(getattr(r, "maxi", 0) > 0.2))
    r.sig = cmp.digest([scn["cls"], repr(ops), scn["adv"], scn.get("faults"), scn.get("from")])
    import matplotlib.pyplot as plt

    plt.close("all")
    return r.done()
