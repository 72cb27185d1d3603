"""C18: the order in which records arrive, and their labels, do not matter."""
import numpy as np

from robsim import data as dat
from robsim.checks.common import *  # noqa

FIXED = ["DetMCD", "OGK", "KendallTau", "WrappingCovariance", "CellMCD", "InitialDDCW", "PCALocantore",
         "RobustScaler", "RobustPowerTransformer", "DataCleaner", "DDC", "UnivariateMCD", "Qn", "Tau",
         "HuberOneStepM", "CellwiseOneStepM", "OneStepWrapping", "FastMCD", "FastLTSRegression"]
TIED = ["DetMCD", "DetMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance"]
FUNCS = ["l1median", "wrapping_transformation", "adjusted_boxplot", "get_od_cutoff"]
ORDERS = ["random", "random", "random", "reverse", "rotate", "sorted", "late"]
LABELS = ["labels", "shift", "dupl", "dupl", "rev", "zero", "float", "shuf", "cycle", "mixed", "date", "multi"]
FRAMES = ["DDC", "DDC", "DataCleaner", "DataCleaner", "FastLTSRegression", "SRegression", "MMRegression",
          "FastMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance", "RobustScaler"]


def generic(d):
    """Records without ties: equal or tied records make the answer depend on rounding only."""
    for k in ("deg", "deg2", "round", "dup", "const", "order", "spoil"):
        d.pop(k, None)
    o = d.get("out")
    if o and o["type"] == "point":
        o["type"] = "cluster"
    if o:
        o["size"] = min(o["size"], 1000)
    if d.get("kind") in ("grid", "ramp"):
        d["kind"] = "gauss"
    if d.get("colscale"):
        d["colscale"] = 100.0 if d["colscale"] > 1 else 0.01
    return d


def gen(rng, tier, idx):
    if rng.random() < 0.1:
        op = catalog.func_op(rng, rng.choice(FUNCS))
        op["kw"].pop("plot", None)
        generic(op["data"])
        op["data"]["n"] = rng.choice([15, 25, 40])
        return {"mode": "order", "ops": [op], "order": rng.choice(ORDERS), "oseed": rng.randrange(1 << 30)}
    if rng.random() < 0.35:
        s = catalog.degenerate(rng, catalog.subject(rng, rng.choice(FRAMES)), 0.1)
        if s["cls"] == "MMRegression":
            p = s["params"].get("initial_estimator")
            if p is None:
                s["params"]["initial_estimator"] = p = {"$new": "SRegression", "params": catalog._s_params(rng)}
        if s["cls"] == "FastMCD":
            s["params"].setdefault("random_seed", rng.choice([0, 1, 42]))
        for d in datas(s):
            if d.get("what") != "messy":
                d["form"] = "frame"
            d["index"] = "range"
        if s["cls"] == "DataCleaner":
            messy(rng, s)
        s["queries"] = [q for q in s["queries"] if not q.get("plot")]
        return {"mode": "labels", "ops": subject_ops(rng, "s0", s), "labels": rng.choice(LABELS),
                "ylabels": rng.choice([None, None, "rev", "range"])}
    if rng.random() < 0.07:
        p = rng.choice([2, 3, 3, 4])
        n = rng.choice([14, 20, 20, 30, 45])
        return {"mode": "ties", "cls": rng.choice(TIED), "n": n, "p": p, "seed": rng.randrange(1 << 30),
                "kind": rng.choice(["t", "t", "gauss", "cauchy"]), "sets": 12, "orders": 3,
                "ties": [rng.choice([0, 0.5, 1, 2]) if j else rng.choice([0.5, 1, 2])
                         for j in range(p - 1)],
                "opts": rng.random() < 0.7}
    s = catalog.subject(rng, rng.choice(FIXED))
    if s["cls"] == "FastMCD":
        s["params"]["alpha"] = 1
    if s["cls"] == "FastLTSRegression":
        s["params"].update(alpha=1.0, reweighting=False)
    if s["cls"] == "DataCleaner":
        messy(rng, s)
        for d in datas(s):
            d["extra"] = [e for e in d["extra"] if e != "rownum"]
    for d in datas(s):
        generic(d)
    if s["data"].get("what") == "x":
        s["data"]["n"] = rng.choice([9, 20, 33, 60])
    catalog.large(rng, s, 0.2)
    if s["cls"] in ("DetMCD", "OGK", "KendallTau", "WrappingCovariance", "RobustScaler", "PCALocantore"):
        s["data"]["n"] = max(s["data"]["n"], 10 * s["data"]["p"])
    s["queries"] = [q for q in s["queries"] if not q.get("plot")]
    return {"mode": "order", "ops": subject_ops(rng, "s0", s), "order": rng.choice(ORDERS),
            "oseed": rng.randrange(1 << 30)}


def messy(rng, s):
    for d in datas(s):
        d["nan"] = rng.choice([0.05, 0.15, 0.3, 0.4])
        if rng.random() < 0.3:
            d["inf"] = 2


def datas(s):
    return [s["data"]] + [q["data"] for q in s["queries"] if q.get("data")]


def with_data(ops, **kw):
    return [dict(o, data=dict(o["data"], **kw)) if o.get("data") else o for o in ops]


def strip(x):
    """Results without their labels."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "idx"}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def permuted(a, perm, n, m, key=""):
    """What `a` becomes when the records arrive in the order `perm`; None-free structures only."""
    if isinstance(a, np.ndarray):
        return a[perm] if a.ndim and a.shape[0] == m else a
    if isinstance(a, list):
        if len(a) == m and not any(isinstance(v, np.ndarray) for v in a):
            return [a[i] for i in perm]
        return [permuted(v, perm, n, m) for v in a]
    if isinstance(a, dict):
        return {k: v if k in ("cols", "dtypes") else [permuted(u, perm, n, m) for u in v] if k == "df"
                else permuted(v, perm, n, m, k) for k, v in a.items()}
    return a


def flip(a, b):
    """b with the signs of its columns (or rows) chosen closest to a."""
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.ndim != 2:
        return b
    b = b.copy()
    for j in range(b.shape[1]):
        if np.nansum(np.abs(a[:, j] + b[:, j])) < np.nansum(np.abs(a[:, j] - b[:, j])):
            b[:, j] = -b[:, j]
    return b


def rows_of(op):
    d = op.get("data")
    if not d:
        return None, None
    X = dat.build(d)
    X = X[0] if isinstance(X, tuple) else X
    return len(X), dat.order(d, dat.matrix({k: v for k, v in d.items() if k != "order"}))


def judge_order(r, ops, a, b, tol):
    """First difference between outcomes a (as generated) and b (other order of arrival)."""
    fit_perm = None
    for k, op in enumerate(ops):
        n, perm = rows_of(op)
        if op["op"] == "fit":
            fit_n, fit_perm = n, perm
        if perm is None:
            n, perm = None, None
        x, y = a[k], b[k]
        if is_hang(x) or is_hang(y):
            return None
        if "exc" in x or "exc" in y:
            if x.get("exc") != y.get("exc"):
                return k, f"{cmp._s(x)} != {cmp._s(y)}"
            continue
        x, y = x["ok"], y["ok"]
        if op["op"] == "q" and op.get("prop") and fit_perm is not None:
            n, perm = fit_n, fit_perm
        if perm is not None:
            x = permuted(x, perm, n, n)
        cls = ops[0].get("cls")
        if isinstance(x, dict) and isinstance(x.get("state"), dict):
            x, y = dict(x["state"]), dict(y["state"])
            if "best_h_subset" in x:
                x.pop("best_h_subset"), y.pop("best_h_subset")
            if "components_" in x:
                y["components_"] = flip(np.asarray(x["components_"]), np.asarray(y["components_"]))
        if op.get("m") in ("transform", "project") and cls in ("PCALocantore", "ROBPCA"):
            y = flip(x, y)
        if op.get("prop") == "dropped_rows":
            x = {kk: sorted(map(str, v)) for kk, v in x.items()}
            y = {kk: sorted(map(str, v)) for kk, v in y.items()}
        if op.get("m") == "transform" and cls == "DataCleaner":
            # kept records are identified by their labels
            x, y = by_label(x), by_label(y)
        elif cls == "DDC":
            x, y = strip(x), strip(y)
        d = cmp.diff(x, y, rtol=tol, atol=tol)
        if d:
            return k, d
    return None


def by_label(x):
    if not (isinstance(x, dict) and "df" in x):
        return x
    o = sorted(range(len(x["idx"])), key=lambda i: x["idx"][i])
    return {"cols": x["cols"], "idx": [x["idx"][i] for i in o],
            "df": [np.asarray(c, dtype=object)[o].tolist() if not isinstance(c, np.ndarray) else c[o]
                   for c in x["df"]]}


def run_order(scn):
    r = R()
    ops = scn["ops"]
    if ops[0].get("cls") == "DataCleaner":
        ops = with_data(ops, index="labels")
    new = with_data(ops, order={"kind": scn["order"], "seed": scn["oseed"]})
    a, steps, _ = solo(ops)
    b, _, _ = solo(new)
    bad = judge_order(r, new, a, b, 1e-6)
    for x in a:
        r.log(cmp.digest(x))
    if bad:
        # near a tie, rounding alone decides; look whether it does here
        for j in range(4):
            c, _, _ = solo(with_data(ops, jitter=1e-12 if j % 2 else 1e-9, jseed=j))
            if judge_order(r, ops, a, c, 1e-7 if j % 2 else 1e-5):
                r.stat("rounding_sensitive")
                r.nontrivial = False
                return r.done()
        k, d = bad
        r.fail(f"order-matters:{ops[0].get('cls') or ops[0].get('f')}",
               f"{short([ops[k]])} with records arriving {scn['order']}: {d}")
    r.fault("reorder_" + scn["order"])
    r.stat("steps", steps)
    r.sig = cmp.digest([short(ops), scn["order"], steps])
    return r.done()


def run_ties(scn):
    """Records with tied values in some of the columns, in several orders of arrival."""
    r = R()
    kw = {}
    if scn["opts"]:
        kw = {"DetMCD": {"reweighting": False, "correct_covariance": False},
              "OGK": {"reweighting": False}}.get(scn["cls"], {})

    def fits(d):
        import robpy.covariance as rc

        out = []
        for o in [None] + [{"kind": "random", "seed": scn["seed"] + i} for i in range(scn["orders"])]:
            X = dat.matrix(d)
            if o:
                X = X[dat.order(dict(d, order=o), X)]
            with np.errstate(all="ignore"):
                try:
                    m = getattr(rc, scn["cls"])(**kw).fit(X)
                    out.append([np.asarray(m.covariance_), np.asarray(m.location_)])
                except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:
                    out.append(type(e).__name__)
        return out

    sens = 0
    with sched.Solo(limit=SOLO_LIMIT) as t:
        for i in range(scn["sets"]):
            d = {"seed": scn["seed"] + 7919 * i, "n": scn["n"], "p": scn["p"], "kind": scn["kind"],
                 "what": "X", "rho": 0.8, "ties": scn["ties"]}
            X = dat.matrix(d)
            if len(np.unique(X, axis=0)) < len(X):
                continue
            if any((X[:, j] == np.median(X[:, j])).mean() > 0.3 for j in range(X.shape[1])):
                continue
            base = fits(d)
            r.log(cmp.digest([str(x) for x in base]))
            if isinstance(base[0], str) or np.linalg.cond(base[0][0]) > 1e8:
                continue
            bad = [x for x in base[1:] if cmp.diff(x, base[0], rtol=1e-6, atol=1e-6)]
            r.stat("tied_sets")
            if not bad:
                continue
            # does rounding decide here, with the ties kept?
            if any(cmp.diff(fits(dict(d, tiejit=1e-9, jseed=j))[0], base[0], rtol=1e-5, atol=1e-5)
                   for j in range(6)):
                sens += 1
                continue
            r.fail(f"order-matters:{scn['cls']}",
                   f"{scn['cls']}({kw}) on {scn['n']} distinct records with tied values (set {i}), in "
                   f"another order of arrival: {cmp.diff(bad[0], base[0], rtol=1e-6, atol=1e-6)}")
            break
    r.stat("steps", t.steps)
    r.stat("rounding_sensitive", sens)
    r.fault("reorder_ties")
    r.sig = cmp.digest([scn["cls"], scn["seed"]])
    return r.done()


def run_labels(scn):
    r = R()
    ops = scn["ops"]
    # (in part of the runs the target carries the same labels in another order, or other ones)
    new = with_data(ops, index=scn["labels"], yindex=scn.get("ylabels"))
    a, steps, _ = solo(ops)
    b, _, _ = solo(new)
    cls = ops[0]["cls"]
    for k, op in enumerate(new):
        r.log(cmp.digest(a[k]))
        if is_hang(a[k]) or is_hang(b[k]):
            break
        x, y = a[k], b[k]
        d = None
        if "ok" in y and "ok" in x and op.get("data"):
            d = kept_labels(op, x["ok"], y["ok"], cls)
        if op.get("prop") == "dropped_rows" and "ok" in x and "ok" in y:
            last = [o for o in new[:k] if o.get("m") == "transform" and o.get("data")]
            if last:
                lab = dat.build(last[-1]["data"]).index
                want = {kk: [lab[int(i)] for i in v] for kk, v in x["ok"].items()}
                x, y = {"ok": cmp.enc(want)}, {"ok": cmp.enc(y["ok"])}
        if "exc" in x and "exc" in y:
            x, y = {"exc": x["exc"]}, {"exc": y["exc"]}
        d = d or cmp.diff(strip(x), strip(y), rtol=1e-9, atol=1e-12)
        if d:
            r.fail(f"labels-matter:{cls}", f"{short([op])} with {scn['labels']} labels: {d}")
            break
    r.fault("labels_" + scn["labels"])
    r.stat("steps", steps)
    r.sig = cmp.digest([short(ops), scn["labels"], steps])
    return r.done()


def kept_labels(op, x, y, cls):
    """A frame returned for labelled records carries their labels, record by record."""
    if not (isinstance(y, dict) and "df" in y and isinstance(x, dict) and "df" in x):
        return None
    d = dat.build(op["data"])
    lab = [str(v) for v in (d[0] if isinstance(d, tuple) else d).index]
    want = [lab[int(i)] for i in x["idx"]] if len(x["idx"]) else []
    return None if want == y["idx"] else f"records kept as {cmp._s(want)} are labelled {cmp._s(y['idx'])}"


def run(scn):
    return {"labels": run_labels, "ties": run_ties}.get(scn["mode"], run_order)(scn)
