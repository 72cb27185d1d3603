"""C12: dataset loaders deliver the complete data or fail loudly."""
import builtins
import csv
import io
import os

import numpy as np
import pandas as pd

from robsim import boot
from robsim.checks.common import *  # noqa

# documented sizes (module documentation of the loaders and descr/*.rst)
SHAPE = {"load_telephone": (24, 2), "load_stars": (47, 2), "load_animals": (28, 2),
         "load_topgear": (297, 32), "load_glass": (180, 750)}
NA = {"", "NA", "N/A", "NaN", "nan", "null", "NULL", "None", "n/a", "#N/A", "<NA>", "-nan", "-NaN"}
EXC = ["OSError", "OSError", "OSError", "KeyboardInterrupt", "MemoryError", "PermissionError",
       "TimeoutError"]
ENC = ["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "koi8-r", "utf-16", "shift_jis"]


def gen(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        f = rng.choice(catalog.LOADERS)
        if f == "load_glass" and rng.random() < 0.6:
            f = "load_topgear"
        ops.append({"op": "load", "f": f, "kw": {"as_frame": rng.random() < 0.5}})
    if rng.random() < 0.6:  # the same set again
        ops.append(dict(ops[0], kw={"as_frame": rng.random() < 0.5}))
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append({"at": rng.choice(["open", "read", "read", "read", "close", "line"]),
                           "k": rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 40]),
                           "exc": rng.choice(EXC), "errno": rng.choice([5, 24, 23, 13, 116, 4])})
    return {"ops": ops, "faults": faults,
            "chunk": rng.choice(["full", "one", "tiny", "random", "random", "line"]),
            "enc": rng.choice(ENC), "cwd": rng.choice(["scratch", "root", "gone", "data"]),
            "threads": rng.choice([1, 1, 2]), "plan": rng.randrange(1 << 30),
            "modify": rng.random() < 0.6}


class Disk:
    """File opens below the dataset folder go through a raw layer with short reads and failures."""

    def __init__(self, scn):
        self.scn = scn
        self.g = random.Random(f"disk-{scn['plan']}")
        self.nopen = self.nread = self.nclose = 0
        self.files = []
        self.fired = {}
        self.raised = []
        self.on = True
        self.real = builtins.open
        self.base = os.path.join(boot.PKG_DIR, "datasets") + os.sep

    def hit(self, at, n):
        for i, f in enumerate(self.scn["faults"]):
            if f["at"] == at and f["k"] == n and i not in self.fired:
                self.fired[i] = 1
                c = getattr(builtins, f["exc"])
                e = c(f["errno"], f"injected {at} failure") if issubclass(c, OSError) else \
                    c(f"injected {at} failure")
                self.raised.append(e)
                raise e

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ""
        except (OSError, TypeError):
            path = ""
        if not self.on or not path.startswith(self.base):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.nopen += 1
        self.hit("open", self.nopen)
        disk = self

        class Raw(io.FileIO):
            def readinto(self, b):
                disk.nread += 1
                disk.hit("read", disk.nread)
                return super().readinto(memoryview(b)[:disk.size(len(b))])

            def read(self, n=-1):
                disk.nread += 1
                disk.hit("read", disk.nread)
                if n is None or n < 0:
                    return self.readall()
                return super().read(disk.size(n))

            def readall(self):
                out = []
                while True:
                    c = super().read(1 << 16)
                    if not c:
                        return b"".join(out)
                    out.append(c)

            def close(self):
                was = self.closed
                super().close()
                if not was:
                    disk.nclose += 1
                    disk.hit("close", disk.nclose)

        raw = Raw(file, mode.replace("t", "").replace("b", ""), closefd, opener)
        self.files.append(raw)
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        enc = encoding
        if enc in (None, "locale"):
            enc = self.scn["enc"]
        try:
            return io.TextIOWrapper(io.BufferedReader(raw), enc, errors, newline)
        except BaseException:
            raw.close()
            raise

    def size(self, n):
        c = self.scn["chunk"]
        if c == "full" or n <= 1:
            return n
        if c == "one":
            return 1 if n < 9000 and self.nread < 4000 else min(n, 97)
        if c == "tiny":
            return min(n, self.g.choice([1, 2, 3, 7]) if self.nread < 3000 else 1000)
        return min(n, self.g.choice([1, 5, 100, 511, 4096, 1 << 20]))

    def __enter__(self):
        self.io = io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.real, self.io
        return False


def oracle(f):
    """The data set read independently of pandas and of robpy's reader."""
    name = f[5:] + ".csv"
    with open(os.path.join(boot.PKG_DIR, "datasets", "data", name), "rb") as fh:
        rows = list(csv.reader(fh.read().decode("utf-8").splitlines()))
    with open(os.path.join(boot.PKG_DIR, "datasets", "descr", f[5:] + ".rst"), "rb") as fh:
        descr = fh.read().decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    return rows[0], rows[1:], descr


def check_value(f, res, want, as_frame):
    """None, or what differs between a loaded Bunch and the files."""
    header, rows, descr = want
    if set(("data", "DESCR", "feature_names")) - set(res):
        return f"fields {sorted(res)}"
    d = res["data"]
    if as_frame != isinstance(d, pd.DataFrame):
        return f"as_frame={as_frame} gives {type(d).__name__}"
    names = list(res["feature_names"])
    if tuple(np.shape(d)) != SHAPE[f] or len(names) != SHAPE[f][1]:
        return f"shape {np.shape(d)}, documented {SHAPE[f]}"
    if as_frame and list(d.columns) != names:
        return "column names"
    if len(rows) != SHAPE[f][0]:
        return None
    if not set(names) <= set(header):
        return "feature names not in the file"
    if res["DESCR"] != descr:
        return f"description differs ({len(res['DESCR'])} characters of {len(descr)})"
    V = d.to_numpy() if as_frame else d
    for j, nm in enumerate(names):
        c = header.index(nm)
        for i, row in enumerate(rows):
            s, v = row[c].strip(), V[i, j]
            if s in NA:
                ok = v is None or v != v
            elif isinstance(v, (bool, np.bool_)):
                ok = s.lower() == str(bool(v)).lower()
            elif isinstance(v, str):
                ok = v.strip() == s
            else:
                try:
                    x = float(s)
                    ok = abs(x - float(v)) <= 1e-12 * max(1, abs(x))
                except ValueError:
                    ok = False
            if not ok:
                return f"cell {i},{nm}: {v!r}, file has {s!r}"
    return None


def ruin(b):
    """What a caller may do with a result."""
    d = b["data"]
    try:
        if isinstance(d, pd.DataFrame):
            d.iloc[:, 0] = d.iloc[:, 1].iloc[::-1].to_numpy()
            d.rename(columns={d.columns[0]: "renamed"}, inplace=True)
            d.drop(index=d.index[:3], inplace=True)
        else:
            d[...] = d[::-1].copy()
            d[0] = 0 if d.dtype != object else "gone"
    except Exception:
        pass
    if isinstance(b.get("feature_names"), list):
        b["feature_names"].append("junk")
        b["feature_names"].reverse()
    if isinstance(b.get("categorical_features"), list):
        b["categorical_features"].clear()
    b["DESCR"] = ""


def fds():
    return sorted(os.readlink(f"/proc/self/fd/{x}") for x in os.listdir("/proc/self/fd")
                  if os.path.exists(f"/proc/self/fd/{x}"))


def run(scn):
    r = R()
    import robpy.datasets as ds

    want = {f: oracle(f) for f in sorted({o["f"] for o in scn["ops"]})}
    for f, w in want.items():
        if len(w[1]) != SHAPE[f][0]:
            r.fail(f"incomplete-file:{f}", f"{f}: {len(w[1])} records in the file, {SHAPE[f][0]} documented")
    os.makedirs("w", exist_ok=True)
    d0 = f"w/c12-{os.getpid()}"
    os.makedirs(d0, exist_ok=True)
    if scn["cwd"] == "root":
        os.chdir("/")
    elif scn["cwd"] == "data":
        os.chdir(os.path.join(boot.PKG_DIR, "datasets"))
    else:
        os.chdir(d0)
    d0 = os.getcwd()
    if scn["cwd"] == "gone":
        os.rmdir(d0)
    disk = Disk(scn)
    g = random.Random(scn["plan"])
    line = next((f for f in scn["faults"] if f["at"] == "line"), None)
    outs = []
    stopped = False

    def load(i, op):
        e = None
        try:
            b = getattr(ds, op["f"])(**op["kw"])
        except (sched.StepLimit, sched.Deadlock):
            raise
        except BaseException as x:
            b, e = None, (type(x).__name__, str(x), any(x is y for y in disk.raised) or
                          any(c is y for c in chain(x) for y in disk.raised))
        outs.append((i, op, e))
        if e is None:
            bad = check_value(op["f"], b, want[op["f"]], op["kw"]["as_frame"])
            if bad:
                r.fail(f"wrong-data:{op['f']}", f"{op} (load {i}): {bad}; reads {scn['chunk']}, "
                                                f"encoding {scn['enc']}, faults {list(disk.fired)}")
            if scn["modify"]:
                ruin(b)
                r.stat("results_overwritten")
        elif not e[2]:
            r.fail(f"unrelated-error:{op['f']}", f"{op} (load {i}): {e[:2]} with faults {scn['faults']}, "
                                                 f"fired {list(disk.fired)}, encoding {scn['enc']}, "
                                                 f"cwd {scn['cwd']}")
        b = None

    with disk:
        if scn["threads"] == 2 and len(scn["ops"]) > 1:
            sim = sched.Sim()
            ops = list(enumerate(scn["ops"]))
            for t in (0, 1):
                sim.add(lambda t=t: [load(i, o) for i, o in ops[t::2]], limit=100_000,
                        preempts=[(g.randrange(1, 40), 1 - t) for _ in range(4)])
            sim.run(0)
            for t in sim.tasks:
                if t.error is not None:
                    r.fail("loader-hangs", repr(t.error)[:200])
            r.fault("preemption", len(sim.switches))
        else:
            ints = None
            if line:
                def mk():
                    x = MemoryError("injected line failure")
                    disk.raised.append(x)
                    return x
                ints = {line["k"] * 3: mk}
            with sched.Solo(limit=100_000, interrupts=ints) as t:
                for i, o in enumerate(scn["ops"]):
                    load(i, o)
            r.stat("steps", t.steps)
            if t.fired:
                r.fault("MemoryError at a statement")
                stopped = True
    if any(isinstance(x, KeyboardInterrupt) or "line" in str(x) for x in disk.raised):
        # pandas (and a with statement interrupted between two of its instructions) leaves closing
        # to the collector
        import gc

        disk.files.clear()
        disk.raised.clear()
        gc.collect()
    still = [f.name for f in disk.files if not f.closed]
    if still:
        r.fail("file-left-open", f"{[os.path.basename(str(x)) for x in still]} still open after {short(scn['ops'])}, "
                                 f"faults {scn['faults']}")
    left = [f for f in fds() if "/robpy/datasets/" in f]
    if left and stopped and disk.fired:
        # a second failure on the way out of a with statement: nobody can close the file then
        r.stat("closing_itself_interrupted")
    elif left:
        r.fail("file-left-open", f"{left} still open")
    # once the faults stop every loader works again
    scn2 = dict(scn, faults=[])
    clean = Disk(scn2)
    with clean, sched.Solo(limit=100_000):
        for o in scn["ops"]:
            try:
                b = getattr(ds, o["f"])(**o["kw"])
                bad = check_value(o["f"], b, want[o["f"]], o["kw"]["as_frame"])
            except Exception as e:
                bad = repr(e)[:200]
            if bad:
                r.fail(f"no-recovery:{o['f']}", f"{o} after {short(scn['ops'])} with faults "
                                                f"{scn['faults']}: {bad}")
                break
    os.chdir("/")
    if scn["cwd"] != "gone" and scn["cwd"] not in ("root", "data"):
        os.rmdir(d0)
    for i in disk.fired:
        f = scn["faults"][i]
        r.fault(f"{f['exc']} on {f['at']}")
    if scn["chunk"] != "full":
        r.fault("short reads", disk.nread)
    if scn["enc"] != "utf-8":
        r.fault("locale " + scn["enc"])
    r.fault("cwd " + scn["cwd"])
    r.stat("opens", disk.nopen + clean.nopen)
    r.stat("reads", disk.nread + clean.nread)
    r.nontrivial = disk.nopen > 0
    r.log([(i, o["f"], e) for i, o, e in outs])
    r.log([disk.nread, disk.nopen])
    r.sig = cmp.digest([scn["ops"], scn["faults"], scn["chunk"], scn["enc"], scn["cwd"],
                        scn["threads"]])
    return r.done()


def chain(x):
    while x is not None:
        yield x
        x = x.__cause__ or x.__context__
