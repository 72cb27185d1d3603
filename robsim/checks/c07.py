"""C07: FastLTS and MM fits satisfy their own estimating equations, for every sequence of draws."""
import numpy as np

from robsim import ref
from robsim.checks.common import *  # noqa


def gen(rng, tier, idx):
    kind = rng.choice(["lts", "lts", "mm", "mm"])
    d = catalog._reg_data(rng)
    d["n"] = rng.choice([12, 15, 20, 30, 45, 80])
    d["p"] = rng.choice([1, 1, 2, 3, 4])
    d["kind"] = rng.choice(["gauss", "gauss", "t", "unif", "skew"])
    if rng.random() < 0.2:
        d["shift"] = rng.choice([100.0, -50.0])
    if rng.random() < 0.1:
        d["const"] = 1
    if rng.random() < 0.15:
        d["colscale"] = rng.choice([1e-3, 1e3])
    scn = {"kind": kind, "data": d, "adv": rng.choice([None, None, None, "same", "few", "bad",
                                                       "sticky"]),
           "adv_seed": rng.randrange(1 << 20), "history": rng.random() < 0.25,
           "hdata": catalog._reg_data(rng)}
    if kind == "lts":
        scn["params"] = {"alpha": rng.choice([0.5, 0.5, 0.6, 0.75, 0.85, 0.9, 1.0]),
                         "n_initial_subsets": rng.choice([1, 3, 10, 20]),
                         "n_initial_c_steps": rng.choice([0, 1, 2, 3]),
                         "n_best_models": rng.choice([1, 3, 10]),
                         "random_state": rng.choice([0, 1, 42, 999])}
        scn["weights"] = rng.random() < 0.1
    else:
        k = rng.random()
        if k < 0.5:
            ini = {"$new": "SRegression", "params": catalog._s_params(rng)}
        else:
            ini = {"$new": "FastLTSRegression", "params": catalog._lts_params(rng)}
        scn["params"] = {"initial_estimator": ini}
        if rng.random() < 0.3:
            scn["params"]["max_iterations"] = rng.choice([1, 2, 5, 100])
        if rng.random() < 0.3:
            scn["params"]["rho"] = {"$new": "TukeyBisquare",
                                    "params": {"c": rng.choice([3.0, 4.685, 6.0])}}
        if rng.random() < 0.1:
            scn["params"]["rho"] = {"$new": "Huber", "params": {"b": 1.345}}
        if rng.random() < 0.2:
            scn["params"]["epsilon"] = rng.choice([1e-9, 1e-5])
    return scn


def run(scn):
    r = R()
    D = data.build(scn["data"])
    X, y = np.array(D[0], float), np.array(D[1], float).ravel()
    n, p = X.shape
    par = scn["params"]
    bad = [int(i) for i in np.argsort(-np.abs(y - np.median(y)))[: max(3, n // 3)]]
    r.sig = cmp.digest([scn["kind"], str(par), scn["data"], scn["adv"]])
    r.fault("adversarial_draws_" + str(scn["adv"]), int(scn["adv"] is not None))
    yscale = float(np.median(np.abs(y - np.median(y)))) + 1e-12 * float(np.abs(y).max()) + 1e-300

    def fit(cls, params, history=False, **kw):
        seams.entropy_ident(0)
        ctx = (seams.adversarial(scn["adv"], scn["adv_seed"], bad) if scn["adv"]
               else seams.nullctx())
        with ctx, sched.Solo(limit=20_000_000) as t:
            try:
                m = catalog.construct(cls, params)
                if history:
                    m.fit(*data.build(scn["hdata"]))
                m.fit(D[0], D[1], **kw)
                out = {"m": m, "pred": np.array(m.predict(X), float).ravel(),
                       "scale": float(m.scale)}
            except (Exception, sched.StepLimit) as e:
                out = e
        r.stat("steps", t.steps)
        return out

    def err(o, what):
        if isinstance(o, BaseException):
            r.stat("raised")
            r.log(cmp.digest(cmp.enc_exc(o)))
            if not isinstance(o, (np.linalg.LinAlgError, sched.StepLimit, ZeroDivisionError)):
                r.fail("unexpected-error", f"{what}: {o!r}")
            return True
        r.log(cmp.digest([o["pred"], o["scale"]]))
        if not (np.isfinite(o["pred"]).all() and np.isfinite(o["scale"])):
            r.fail("non-finite", f"{what}: scale={o['scale']}")
            return True
        return False

    A = np.column_stack([np.ones(n), X])

    def ls_pred(rows, w=None):
        B = A[rows] if w is None else A[rows] * np.sqrt(w)[:, None]
        c = y[rows] if w is None else y[rows] * np.sqrt(w)
        sc = np.linalg.norm(B, axis=0)
        sc[sc == 0] = 1
        U, s, _ = np.linalg.svd(B / sc, full_matrices=False)
        rank_ok = s[-1] > 1e-8 * s[0]
        b = np.linalg.lstsq(B / sc, c, rcond=1e-12)[0] / sc
        return A @ b, rank_ok

    if scn["kind"] == "lts":
        h = ref.lts_h(par["alpha"], n, p)
        kw = {"verbosity": 40}
        if scn.get("weights"):
            kw["initial_weights"] = np.arange(1.0, p + 2)
        raw = fit("FastLTSRegression", dict(par, reweighting=False), scn["history"], **kw)
        what = f"FastLTS({par}) n={n} p={p} h={h}"
        if err(raw, what):
            r.nontrivial = False
            return r.done()
        res2 = (y - raw["pred"]) ** 2
        order = np.argsort(res2, kind="stable")
        loss = float(res2[order[:h]].mean())
        eps = 1e-9 * yscale ** 2
        if loss <= 1e-16 * float(np.abs(y).max() ** 2 + 1):
            r.stat("exact_fit")
            return r.done()
        gap = abs(res2[order[h]] - res2[order[h - 1]]) if h < n else np.inf
        rows = order[:h]
        if gap <= 1e-9 * abs(res2[order[h - 1]]) + 1e-14:
            # tied records: any of the sets of h smallest residuals may be the converged one
            rows = np.asarray(getattr(raw["m"], "best_h_subset", rows)).ravel()
            r.stat("tied_at_h")
        pr, ok = ls_pred(rows)
        loss2 = float(np.sort((y - pr) ** 2)[:h].mean())
        if not ok:
            r.stat("collinear_subset")  # does not determine the fitted values of other records
        elif loss2 < loss * (1 - 1e-7) - 1e-14 - eps * 1e-3:
            r.fail("lts:not-local-optimum", f"{what}: refitting on the h best records lowers the loss "
                                            f"{loss} -> {loss2}")
        elif ok and gap > 1e-9 * res2[order[h - 1]]:
            d = np.max(np.abs(pr[order[:h]] - raw["pred"][order[:h]]))
            if d > 1e-6 * (np.sqrt(loss) + 1e-9 * np.abs(y).max()) + 1e-9 * yscale:
                if loss - loss2 > 2e-15:
                    r.fail("lts:not-least-squares", f"{what}: differs from the least-squares fit of its "
                                                    f"h best records by {d} (loss {loss})")
                else:
                    r.stat("tolerance_limited")
        exp = ref.lts_small_sample(p, n, par["alpha"]) * np.sqrt(loss)
        if abs(raw["scale"] - exp) > 1e-7 * exp:
            r.fail("lts:scale", f"{what}: scale {raw['scale']}, documented function of the h smallest "
                                f"squared residuals {exp}")
        r.stat("lts_checked")
        rew = fit("FastLTSRegression", dict(par, reweighting=True), scn["history"], **kw)
        if err(rew, what + " reweighted"):
            return r.done()
        cut = 2.241402727604947 * raw["scale"] * ref.lts_consistency(h, n)
        a = np.abs(y - raw["pred"])
        if np.min(np.abs(a / cut - 1)) < 1e-6:
            r.stat("borderline")
            return r.done()
        keep = np.flatnonzero(a <= cut)
        pr, ok = ls_pred(keep)
        if len(keep) and ok:
            d = np.max(np.abs(pr[keep] - rew["pred"][keep]))
            if d > 1e-6 * (np.std(y[keep] - pr[keep]) + 1e-9 * np.abs(y).max()) + 1e-9 * yscale:
                r.fail("lts:reweighted-fit", f"{what}: reweighted fit differs from the least-squares fit "
                                             f"of the {len(keep)} kept records by {d}")
            sc = ref.lts_small_sample(p, n, par["alpha"], True) * np.sqrt(
                np.mean((y[keep] - rew["pred"][keep]) ** 2))
            if abs(sc - rew["scale"]) > 1e-6 * sc + 1e-12 * np.abs(y).max():
                r.fail("lts:reweighted-scale", f"{what}: scale {rew['scale']} expected {sc}")
            r.stat("reweighted_checked")
        return r.done()

    ini = par["initial_estimator"]
    base = fit(ini["$new"], ini["params"])
    mm = fit("MMRegression", par, scn["history"])
    what = f"MM({par}) n={n} p={p}"
    if isinstance(base, BaseException) != isinstance(mm, BaseException):
        if isinstance(base, BaseException):
            r.fail("mm:initial", f"{what}: initial estimator alone raised {base!r}, MM did not")
            return r.done()
    if err(mm, what):
        r.nontrivial = False
        return r.done()
    if abs(mm["scale"] - base["scale"]) > 1e-9 * abs(base["scale"]):
        r.fail("mm:scale", f"{what}: scale {mm['scale']} but the initial estimator has {base['scale']}")
    if mm["scale"] == 0:
        r.stat("exact_fit")
        return r.done()
    if mm["scale"] < 1e-9 * yscale:
        r.stat("near_exact_fit")
        return r.done()
    maxit = par.get("max_iterations", 500)
    if mm["m"].n_iter >= maxit:
        r.stat("iteration_limit")
        return r.done()
    rho = par.get("rho", {"$new": "TukeyBisquare", "params": {"c": 3.44}})
    u = (y - mm["pred"]) / mm["scale"]
    if rho["$new"] == "Huber":
        b = rho["params"]["b"]
        w = np.where(np.abs(u) <= b, 1.0, b / np.maximum(np.abs(u), 1e-300))
    else:
        w = ref.bisquare_w(u, rho["params"]["c"])
    if (w > 1e-9).sum() <= p + 1:
        r.stat("degenerate_weights")
        return r.done()
    pr, ok = ls_pred(np.arange(n), w)
    if not ok:
        r.stat("collinear")
        return r.done()
    live = w > 1e-6
    d = np.max(np.abs(pr[live] - mm["pred"][live]))
    epsi = par.get("epsilon", 1e-7)
    if d > 1e-4 * mm["scale"] + 100 * epsi + 1e-8 * np.abs(y).max() * 1e-3:
        r.fail("mm:normal-equations", f"{what}: after {mm['m'].n_iter} iterations the fit does not solve "
                                      f"its weighted normal equations (off by {d}, scale {mm['scale']})")
    r.stat("mm_checked")
    return r.done()
