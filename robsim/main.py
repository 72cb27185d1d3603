"""Driver: seeded search over scenarios, minimisation, replay files, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def worker_env(extra=None):
    e = dict(os.environ)
    e.update({
        "PYTHONPATH": VERIF + os.pathsep + os.environ.get("ROBSIM_REPO", "/repo"),
        "PYTHONHASHSEED": os.environ.get("ROBSIM_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "TZ": "UTC", "LC_ALL": "C.UTF-8",
        "PYTHONFAULTHANDLER": "0",
    })
    e.update(extra or {})
    return e


class Worker:
    def __init__(self, scratch, extra_env=None):
        env = worker_env(extra_env)
        env["MPLCONFIGDIR"] = scratch
        env["TMPDIR"] = scratch
        self.p = subprocess.Popen([sys.executable, "-m", "robsim.worker"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  cwd=scratch, text=True, start_new_session=True)
        self.ready = False

    def call(self, job):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("worker failed to start (robpy does not import?)")
            self.ready = True
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


class Pool:
    def __init__(self, n, scratch, extra_env=None):
        self.scratch, self.extra = scratch, extra_env
        self.workers = [Worker(scratch, extra_env) for _ in range(n)]

    def run(self, jobs, stop=None, deadline=None):
        """Run jobs in parallel; yields results in completion order."""
        q, res = queue.Queue(), queue.Queue()
        for j in jobs:
            q.put(j)
        n = q.qsize()
        halt = threading.Event()

        def loop(i):
            while not halt.is_set():
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                if deadline is not None and time.monotonic() > deadline:
                    res.put({"job": j["id"], "skipped": True})
                    continue
                try:
                    res.put(self.workers[i].call(j))
                except Exception as e:
                    try:
                        self.workers[i].p.kill()
                    except Exception:
                        pass
                    self.workers[i] = Worker(self.scratch, self.extra)
                    res.put({"job": j["id"], "harness_error": f"{type(e).__name__}: {e}",
                             "scn": j.get("scn")})
            res.put(None)

        ths = [threading.Thread(target=loop, args=(i,), daemon=True)
               for i in range(len(self.workers))]
        for t in ths:
            t.start()
        ended = 0
        while ended < len(ths):
            r = res.get()
            if r is None:
                ended += 1
                continue
            yield r
            if stop is not None and stop():
                halt.set()

    def close(self):
        for w in self.workers:
            w.close()


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("status") == "known":
                        out[(d["property"], d["id"])] = d["what"]
    return out


def kinds(res):
    return {v["kind"] for v in res.get("violations", [])}


def scn_key(s):
    return hashlib.sha256(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()


def minimise(prop, mod, pool, scn, kind, seed, budget):
    """Greedy parallel shrinking while a violation of the same kind persists."""
    from robsim import shrink

    best, best_res = scn, None
    t0 = time.monotonic()
    tried = set()
    evals = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        cands = []
        for c in getattr(mod, "shrinks", shrink.generic)(best):
            k = scn_key(c)
            if k not in tried:
                tried.add(k)
                cands.append(c)
        size = 2 * len(pool.workers)
        for b in range(0, len(cands), size):
            if time.monotonic() - t0 > budget:
                break
            batch = cands[b:b + size]
            jobs = [{"id": i, "prop": prop, "seed": seed, "idx": -1, "tier": "quick", "scn": c,
                     "timeout": 60} for i, c in enumerate(batch)]
            hits = []
            for r in pool.run(jobs):
                evals += 1
                if kind in kinds(r):
                    hits.append(r)
            if hits:
                hits.sort(key=lambda r: (len(json.dumps(r["scn"], default=str)), r["job"]))
                best, best_res = hits[0]["scn"], hits[0]
                improved = True
                break
    return best, best_res, evals


def replay(path, quiet=False):
    from robsim import seams  # noqa  (fails early when the environment is broken)

    with open(path) as f:
        d = json.load(f)
    scratch = make_scratch()
    try:
        env = {"PYTHONHASHSEED": d["hashseed"]} if d.get("hashseed") else None
        w = Worker(scratch, env)
        r = w.call({"id": 0, "prop": d["property"], "seed": d["seed"], "idx": d.get("idx", -1),
                    "tier": "quick", "scn": d["scenario"], "timeout": 240})
        w.close()
    finally:
        drop_scratch(scratch)
    ok = d["kind"] in kinds(r)
    same = r.get("digest") == d.get("digest")
    if not quiet:
        for v in r.get("violations", []):
            print(f"{v['kind']}: {v['detail']}")
        if r.get("harness_error"):
            print("harness error:", r["harness_error"])
        print(f"reproduced={ok} identical_event_log={same}")
    return ok, same


def make_scratch():
    import tempfile

    return tempfile.mkdtemp(prefix="robsim-")


def drop_scratch(path):
    import shutil

    if os.path.basename(path).startswith("robsim-"):
        shutil.rmtree(path, ignore_errors=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("-n", type=int, default=None)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("ROBSIM_WORKERS", "0")) or
                    max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--digests", help="write idx->digest of every run to this file")
    ap.add_argument("--one", type=int, help="run only this scenario index and print it")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="are the interpreter and libraries there?")
    a = ap.parse_args(argv)
    if a.selftest:
        import matplotlib, numpy, pandas, scipy, sklearn, statsmodels, tqdm  # noqa

        assert hasattr(sys, "monitoring"), "Python 3.12 or newer is needed"
        importlib.import_module("robsim.specs")
        print("ok")
        return 0
    if a.replay:
        ok, same = replay(a.replay)
        if ok:
            d = json.load(open(a.replay))
            print(f"VIOLATION property={d['property']} replay={a.replay}")
            return 1
        return 0
    prop = a.prop
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    spec = importlib.import_module(f"robsim.specs").SPECS[prop]
    mod = importlib.import_module("robsim.shrinkers")
    n = a.n or spec[a.tier]
    t0 = time.monotonic()
    budget = spec.get("budget", {"quick": 420, "thorough": 780})[a.tier]
    scratch = make_scratch()
    extra = {}
    if a.digests is None and spec.get("cover", True):
        extra["ROBSIM_COVER"] = "1"
    print(f"robsim property={prop} tier={a.tier} VERIF_SEED={a.seed} runs={n} workers={a.workers}",
          flush=True)
    pool = Pool(a.workers, scratch, extra)
    try:
        return search(a, prop, spec, mod, n, t0, budget, scratch, pool)
    finally:
        pool.close()
        drop_scratch(scratch)


def search(a, prop, spec, mod, n, t0, budget, scratch, pool):
    known_list = load_known()
    idxs = [a.one] if a.one is not None else range(n)
    jobs = [{"id": i, "prop": prop, "seed": a.seed, "idx": i, "tier": a.tier} for i in idxs]
    tot = collections.Counter()
    faults = collections.Counter()
    stats = collections.Counter()
    sigs, samples, viol, known, herr = set(), {}, [], {}, []
    digests = {}
    cover = set()
    simtime = 0.0
    slow = (0, None)
    nviol_stop = spec.get("stop_after", 6)
    for r in pool.run(jobs, stop=lambda: len(viol) >= nviol_stop and a.digests is None,
                      deadline=t0 + budget):
        if r.get("skipped"):
            tot["skipped"] += 1
            continue
        if "harness_error" in r:
            herr.append(r)
            continue
        tot["runs"] += 1
        digests[r["job"]] = r.get("digest")
        for k, v in r.get("faults", {}).items():
            faults[k] += v
        for k, v in r.get("stats", {}).items():
            stats[k] += v
        simtime += r.get("simtime", 0.0)
        for c in r.get("cover", []):
            cover.add((c[0], c[1]))
        if r.get("nontrivial", True):
            for s in (r["sig"] if isinstance(r.get("sig"), list) else [r.get("sig")]):
                sigs.add(s if isinstance(s, str) else json.dumps(s, default=str))
        if r["job"] < 3:
            samples[r["job"]] = r["scn"]
        for kf in r.get("known", []):
            if (prop, kf["id"]) in known_list:
                known.setdefault(kf["id"], kf)
                tot["known_hits"] += 1
            else:
                r.setdefault("violations", []).append(
                    {"kind": kf["id"], "detail": kf["detail"]})
        if r.get("violations"):
            viol.append(r)
        if a.one is not None:
            print(json.dumps({k: v for k, v in r.items() if k != "cover"}, indent=1, default=str))
    # second chance for harness errors (for instance memory pressure)
    for h in herr[:3]:
        print(f"harness error in run {h['job']} (repeated once): {str(h['harness_error'])[-600:]}",
              file=sys.stderr)
    if herr:
        again = [dict(j) for j in jobs if j["id"] in {h["job"] for h in herr}][:8]
        first, herr = herr, []
        for r in pool.run(again):
            if "harness_error" in r:
                herr.append(r)
            else:
                tot["runs"] += 1
                if r.get("violations"):
                    viol.append(r)
        if len(first) > 8 and not viol:
            herr += first[8:]
    search_s = time.monotonic() - t0
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(k): digests[k] for k in sorted(digests)}, f, indent=0)
    # report
    lines, reported = [], set()
    viol.sort(key=lambda r: r["job"])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for r in viol:
        for v in r["violations"]:
            if v["kind"] in reported or len(reported) >= 3:
                continue
            reported.add(v["kind"])
            scn, final, evals = r["scn"], r, 0
            if not a.no_min:
                left = max(10, min(spec.get("min_budget", 60), t0 + 840 - time.monotonic()))
                scn2, res2, evals = minimise(prop, mod.get(prop), pool, r["scn"], v["kind"],
                                             a.seed, left / (1 + len(reported) / 2))
                if res2 is not None:
                    scn, final = scn2, res2
            detail = next((x["detail"] for x in final.get("violations", [])
                           if x["kind"] == v["kind"]), v["detail"])
            path = os.path.join(VERIF, "replays",
                                f"{prop}-{scn_key(scn)[:10]}.json")
            rec = {"property": prop, "seed": a.seed, "idx": r["job"], "kind": v["kind"],
                   "detail": detail, "digest": final.get("digest"), "scenario": scn,
                   "minimised_from": r["job"], "shrink_runs": evals,
                   "trace": final.get("trace")}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            try:
                ok, same = replay(path, quiet=True)
            except Exception:
                ok, same = False, False
            rec["replay_check"] = {"reproduced": ok, "identical_event_log": same}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            lines.append((v["kind"], detail, path, ok, same))
    wall = time.monotonic() - t0
    lines_total, lines_hit = reach(cover)
    samples_l = [samples[k] for k in sorted(samples)]
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": spec["rule"],
            "samples": samples_l[:2],
            "seeds": tot["runs"], "skipped_by_deadline": tot["skipped"],
            "runs_per_hour": round(tot["runs"] / max(search_s, 1e-9) * 3600),
            "simulated_time_s": round(simtime, 3),
            "simulated_steps": stats.get("steps", 0),
            "faults_fired": dict(sorted(faults.items())),
            "probes": {k: v for k, v in sorted(stats.items()) if k != "steps"},
            "robpy_lines_reached": lines_hit, "robpy_lines_total": lines_total,
            "real": spec.get("real", REAL), "stubbed": spec.get("stub", STUB),
            "known_findings": sorted(known), "harness_errors": len(herr),
            "workers": a.workers,
        },
        "assumptions": spec.get("assumptions", []) + ASSUME,
        "wall_s": round(wall, 2), "violations": len(lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"runs={tot['runs']} skipped={tot['skipped']} distinct={len(sigs)} steps={stats.get('steps', 0)} "
          f"faults={dict(faults)} wall={wall:.1f}s")
    print(f"probes={ev['coverage']['probes']} lines={lines_hit}/{lines_total}")
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {k}: {known_list[(prop, k)]}")
    for kind, detail, path, ok, same in lines:
        print(f"  {kind}: {detail}")
        print(f"  seed={a.seed} replayed={ok} identical={same}")
        print(f"VIOLATION property={prop} replay={path}")
    if lines:
        return 1
    if herr:
        for h in herr[:3]:
            print("HARNESS-ERROR:", str(h.get("harness_error"))[-1500:], file=sys.stderr)
        return 2
    if tot["runs"] == 0:
        print("HARNESS-ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


REAL = "robpy (all code, from the working tree), numpy, scipy, scikit-learn, statsmodels, pandas, matplotlib (Agg)"
STUB = ("operating-system entropy and clock; thread scheduling (one thread runs at a time, switches "
        "only at robpy lines); stdout/stderr")
ASSUME = ["third-party library calls are atomic with respect to scheduling",
          "one BLAS thread"]


def reach(cover):
    """Executable lines of robpy functions (static) and how many of them this batch reached."""
    import types

    root = os.path.join(os.environ.get("ROBSIM_REPO", "/repo"), "robpy")
    total = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            try:
                code = compile(open(path, encoding="utf-8").read(), path, "exec")
            except Exception:
                continue
            rel = os.path.relpath(path, root)

            def walk(c, top):
                if not top and c.co_flags & 0x2:  # CO_NEWLOCALS: functions, not class bodies
                    for _, _, ln in c.co_lines():
                        if ln:
                            total.add((rel, ln))
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        walk(k, False)

            walk(code, True)
    return len(total), len(total & cover)


if __name__ == "__main__":
    sys.exit(main())
