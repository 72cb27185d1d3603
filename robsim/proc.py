"""Pristine processes: run a function in a fork and get its (pickled) result back."""
import os
import pickle
import random
import select
import signal
import struct
import time as _time
import traceback

_monotonic = _time.monotonic


cover = None  # set of (file, line) when reach is measured; merged back from children


class ChildError(Exception):
    pass


class WallTimeout(ChildError):
    pass


def isolate(fn, *args, timeout=200):
    r, w = os.pipe()
    state = random.getstate()
    pid = os.fork()
    if pid == 0:
        code = 0
        random.setstate(state)  # the interpreter reseeds this generator after a fork
        try:
            os.close(r)
            try:
                val = fn(*args)
                payload = pickle.dumps(("ok", val, sorted(cover) if cover is not None else None),
                                       protocol=4)
            except BaseException as e:  # harness-level error
                payload = pickle.dumps(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}",
                                        None))
            data = struct.pack("<Q", len(payload)) + payload
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = _monotonic() + timeout
    try:
        need = None
        while True:
            left = deadline - _monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise WallTimeout(f"child exceeded {timeout} s of real time")
            rl, _, _ = select.select([r], [], [], min(left, 5))
            if not rl:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", bytes(buf[:8]))[0]
            if need is not None and len(buf) >= 8 + need:
                break
    finally:
        os.close(r)
        try:
            _, status = os.waitpid(pid, 0)
        except ChildProcessError:
            status = 0
    if len(buf) < 8:
        raise ChildError(f"child died (status {status})")
    kind, val, cov = pickle.loads(bytes(buf[8:]))
    if cov and cover is not None:
        cover.update(map(tuple, cov))
    if kind == "err":
        raise ChildError(val)
    return val
