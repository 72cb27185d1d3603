import random

from robsim import catalog, cmp, data, proc, sched, seams, shared  # noqa

SOLO_LIMIT = 2_000_000


class R:
    """Accumulates what a run found."""

    def __init__(self):
        self.violations, self.known = [], []
        self.faults, self.stats = {}, {}
        self.parts = []
        self.sig = None
        self.nontrivial = True
        self.simtime = 0.0
        self.trace = None

    def fail(self, kind, detail):
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "detail": str(detail)[:600]})
        self.parts.append(("V", kind, str(detail)[:200]))

    def knew(self, id, detail):
        self.known.append({"id": id, "detail": str(detail)[:600]})
        self.parts.append(("K", id))

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def stat(self, kind, n=1):
        if n:
            self.stats[kind] = self.stats.get(kind, 0) + n

    def log(self, x):
        self.parts.append(x)

    def done(self):
        return {"violations": self.violations, "known": self.known, "faults": self.faults,
                "stats": self.stats, "digest": cmp.digest(self.parts), "sig": self.sig,
                "nontrivial": self.nontrivial, "simtime": self.simtime, "trace": self.trace}


def is_hang(out):
    return isinstance(out, dict) and out.get("exc") in ("StepLimit", "Deadlock")


def undecided(a, b):
    """No comparison is possible: the baseline itself does not end, or only the step limit was hit
    (a lock that is never given back is decided: it is compared like any other outcome)."""
    return is_hang(b) or (is_hang(a) and a["exc"] != "Deadlock")


def run_ops(ops, world=None, limit=SOLO_LIMIT, interrupts=None, trace=False, probe=None):
    """Run ops one after another in the calling thread; returns outcomes, steps, trace."""
    w = world or catalog.World()
    with sched.Solo(limit=limit, trace=trace, interrupts=interrupts) as t:
        t.probe = probe
        outs = [w.run(op) for op in ops]
    return outs, t.steps, t.trace


def solo(ops, entropy_id=0, trace=False, limit=SOLO_LIMIT):
    """The outcome of `ops` alone in a pristine process."""

    def fn():
        seams.entropy_ident(entropy_id)
        outs, steps, tr = run_ops(ops, trace=trace, limit=limit)
        return outs, steps, tr

    return proc.isolate(fn)


def solo_probed(ops, entropy_id=0):
    """Like solo(trace=True), with the sites at which state shared by all threads changed."""

    def fn():
        seams.entropy_ident(entropy_id)
        p = shared.Probe()
        outs, steps, tr = run_ops(ops, trace=True, probe=p)
        return outs, steps, tr, sorted({s for _, s in p.changes})

    return proc.isolate(fn)


def subject_ops(rng, sid, s, with_queries=True, nofig=False):
    """Construct + fit + queries of one subject, as operations."""
    ops = [{"op": "new", "id": sid, "cls": s["cls"], "params": s["params"]},
           {"op": "fit", "id": sid, "data": s["data"]}]
    if s["cls"] in catalog.VIA and rng.random() < 0.1:
        ops[1]["via"] = catalog.VIA[s["cls"]]
    if with_queries:
        for q in s["queries"]:
            o = dict(q, op="q", id=sid)
            if nofig and o.get("plot"):
                o["nofig"] = True
            ops.append(o)
    return ops


def short(ops):
    return [(o["op"], o.get("cls") or o.get("m") or o.get("prop") or o.get("f") or "") for o in ops]
