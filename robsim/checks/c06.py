"""C06: every MCD fit ends in a concentrated, self-consistent subset, for every sequence of draws."""
import numpy as np

from robsim import ref
from robsim.checks.common import *  # noqa


def gen(rng, tier, idx):
    cls = rng.choice(["FastMCD", "FastMCD", "FastMCD", "DetMCD"])
    big = rng.random() < 0.04 and cls == "FastMCD"
    n = 620 if big else rng.choice([12, 15, 20, 30, 31, 45, 60, 80])
    p = rng.choice([2, 2, 3, 4])
    if n < 5 * p:
        p = 2
    d = data.recipe(rng, n=n, p=p, what="X", kind=rng.choice(["gauss", "gauss", "t", "unif", "skew"]))
    data.decorate(rng, d)
    d.pop("dup", None)
    par = {"alpha": rng.choice([None, None, 0.5, 0.6, 0.75, 0.9, 0.97, "int", "int", 1, "n"]),
           "tolerance": rng.choice([0.0, 0.0, 1e-14, 1e-8])}
    if par["alpha"] == "int":
        par["alpha"] = rng.randrange((n + 1) // 2, n)
    elif par["alpha"] == "n":
        par["alpha"] = n
    if cls == "FastMCD":
        par.update(n_initial_subsets=20 if big else rng.choice([1, 2, 5, 10, 20, 40]),
                   n_best_subsets=rng.choice([1, 2, 5, 10]),
                   n_initial_c_steps=rng.choice([1, 2, 2, 3]),
                   random_seed=rng.choice([None, None, 0, 1, 7, 1234]))
        if n >= 40 and rng.random() < 0.35 and not big:
            par["n_partitions"] = rng.choice([2, 3])
            par["n_initial_subsets"] = max(10, par["n_initial_subsets"])
    return {"cls": cls, "params": par, "data": d, "adv": rng.choice([None, None, None, "same", "few",
                                                                     "bad", "sticky"]),
            "adv_seed": rng.randrange(1 << 20), "history": rng.random() < 0.25,
            "hdata": data.recipe(rng, n=rng.choice([15, 25, n, n]), p=rng.choice([2, 3, 4]))}


def bad_rows(d):
    X = np.asarray(data.build(d), float)
    m = np.median(X, axis=0)
    s = np.median(np.abs(X - m), axis=0) + 1e-12
    o = np.argsort(-np.max(np.abs(X - m) / s, axis=1))
    return [int(i) for i in o[: max(3, len(X) // 3)]]


def close(a, b, scale, tol=1e-6):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * scale + 1e-300)


def run(scn):
    import robpy.covariance as rc

    r = R()
    cls = getattr(rc, scn["cls"])
    X0 = data.build(scn["data"])
    X = np.array(X0, dtype=float)
    n, p = X.shape
    par = scn["params"]
    alpha = par["alpha"]
    bad = bad_rows(scn["data"]) if scn["adv"] == "bad" else ()

    def fit(**flags):
        seams.entropy_ident(0)
        ctx = (seams.adversarial(scn["adv"], scn["adv_seed"], bad) if scn["adv"]
               else seams.nullctx())
        with ctx, sched.Solo(limit=20_000_000) as t:
            try:
                m = cls(**par, **flags)
                if scn["history"]:
                    m.fit(data.build(scn["hdata"]))
                    seams.entropy_ident(0)
                m.fit(X0)
                out = (np.array(m.location_, float), np.array(m.covariance_, float))
            except (Exception, sched.StepLimit) as e:
                out = e
        r.stat("steps", t.steps)
        return out

    h = ref.mcd_h(alpha, n, p)
    raw = fit(correct_covariance=False, reweighting=False)
    r.sig = cmp.digest([scn["cls"], str(par), scn["data"], scn["adv"]])
    r.fault("adversarial_draws_" + str(scn["adv"]), int(scn["adv"] is not None))
    if isinstance(raw, BaseException):
        r.log(cmp.digest(cmp.enc_exc(raw)))
        r.stat("raised")
        r.nontrivial = False
        if (not isinstance(raw, (np.linalg.LinAlgError, sched.StepLimit)) and not scn["history"]
                and scn["data"].get("round") is None):  # ties may leave a zero scale
            r.fail("unexpected-error", f"{scn['cls']}({par}) n={n} p={p}: {raw!r}")
        return r.done()
    loc, S = raw
    r.log(cmp.digest([loc, S]))
    m_all, C_all = ref.cov(X)
    sd = np.sqrt(np.diag(C_all))
    if alpha == 1 or alpha == n:
        if not (close(loc, m_all, sd) and close(S, C_all, np.outer(sd, sd))):
            r.fail("classical", f"alpha={alpha}: location/covariance are not the classical ones")
        r.stat("classical")
        return r.done()
    if not (np.isfinite(loc).all() and np.isfinite(S).all()):
        r.fail("non-finite", f"location {loc} covariance {S}")
        return r.done()
    Ds = np.sqrt(np.abs(np.diag(S)))
    if (Ds == 0).any() or np.linalg.cond(S / np.outer(Ds, Ds)) > 1e9:
        r.stat("singular_subset")
        r.nontrivial = False
        return r.done()
    d2 = ref.dist2(X, loc, S)
    order = np.argsort(d2, kind="stable")
    gap = (d2[order[h]] - d2[order[h - 1]]) / max(d2[order[h]], 1e-300) if h < n else 1.0
    sub = order[:h]
    m, C = ref.cov(X[sub])
    det_s, det_c = np.linalg.det(S), np.linalg.det(C)
    tol = par["tolerance"]
    if det_c < det_s - tol - 1e-7 * abs(det_s) and gap > 1e-9:
        r.fail("not-concentrated", f"{scn['cls']}({par}) n={n} p={p} h={h}: one more concentration "
                                   f"step lowers the determinant {det_s} -> {det_c}")
    elif not (close(m, loc, Ds) and close(C, S, np.outer(Ds, Ds))):
        if gap <= 1e-9:
            r.stat("ties")
        elif tol > 0 and det_s - det_c <= tol + 1e-9 * abs(det_s) and (
                2 * abs(det_s - det_c) <= tol or det_s <= 1e3 * tol):
            r.stat("tolerance_limited")
        else:
            r.fail("not-self-consistent",
                   f"{scn['cls']}({par}) n={n} p={p} h={h}: reported location {loc} / covariance "
                   f"diag {np.diag(S)} are not those of the h closest records {m} / {np.diag(C)} "
                   f"(determinants {det_s}, {det_c})")
    else:
        r.stat("concentrated")
    # documented post-processing
    for corr in (True, False):
        for rew in (True, False):
            if not corr and not rew:
                continue
            out = fit(correct_covariance=corr, reweighting=rew)
            if isinstance(out, BaseException):
                if not isinstance(out, np.linalg.LinAlgError):
                    r.fail("post-processing-error", f"correct={corr} reweight={rew}: {out!r}")
                continue
            el, eS = loc, (ref.mcd_corrected(X, loc, S) if corr else S)
            if rew:
                mask, g = ref.mcd_reweight_mask(X, el, eS)
                if g < 1e-7 or mask.sum() < 2:
                    r.stat("borderline")
                    continue
                el, eS = ref.cov(X[mask])
                if corr:
                    eS = eS * ref.mcd_reweight_factor(p)
            q = np.sqrt(np.abs(np.diag(eS))) + 1e-300
            if not (close(out[0], el, q) and close(out[1], eS, np.outer(q, q))):
                r.fail(f"post-processing:correct={corr},reweight={rew}",
                       f"{scn['cls']}({par}) n={n} p={p}: location {out[0]} cov {out[1].ravel()[:3]}, "
                       f"documented function of the raw solution: {el}, {eS.ravel()[:3]}")
            r.stat("post_processed")
    return r.done()
