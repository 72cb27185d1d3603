"""Zygote worker: imports robpy once, then runs every scenario in its own fork."""
import json
import os
import random
import sys

from robsim import boot, proc


def child(prop, seed, idx, tier, scn):
    import importlib
    import warnings

    from robsim import catalog, sched, seams

    mod = importlib.import_module(f"robsim.checks.{prop.lower()}")
    rng = random.Random(f"{prop}/{seed}/{idx}")
    explicit = scn is not None
    if scn is None:
        scn = mod.gen(rng, tier, idx)
    es = scn.get("entropy", None)
    if es is None:
        es = scn["entropy"] = rng.randrange(1 << 31)
    catalog.silence()
    warnings.simplefilter("ignore")
    cover = bool(os.environ.get("ROBSIM_COVER")) and not scn.get("instr")
    if cover:
        start_cover()
    seams.set_entropy(es)
    sched.install(bool(scn.get("instr")))
    res = mod.run(scn)
    res["scn"] = scn
    if cover:
        res["cover"] = end_cover()
    return res


def start_cover():
    from robsim import boot as b

    mon = sys.monitoring
    proc.cover = _cov = set()
    mon.use_tool_id(3, "cover")

    def line(code, ln):
        _cov.add((code.co_filename[len(b.PKG_DIR) + 1:], ln))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    for c in b.robpy_code_objects():
        mon.set_local_events(3, c, mon.events.LINE)


def end_cover():
    return sorted(proc.cover)


def main():
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    boot.boot()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        try:
            res = proc.isolate(child, job["prop"], job["seed"], job["idx"], job["tier"],
                               job.get("scn"), timeout=job.get("timeout", 240))
        except proc.ChildError as e:
            res = {"harness_error": str(e), "scn": job.get("scn")}
        res["job"] = job["id"]
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
