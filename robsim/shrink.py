"""Generic scenario shrinking: drop list elements, shrink data, drop parameters."""
import copy

LISTS = ("ops", "queries", "preempts", "faults", "history", "before", "after", "interrupts",
         "noise", "events", "splits")


def _walk(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _walk(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _walk(v, path + (i,))


def _set(root, path, fn):
    c = copy.deepcopy(root)
    if not path:
        return fn(c)
    o = c
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = fn(o[path[-1]])
    return c


def _del(root, path):
    c = copy.deepcopy(root)
    o = c
    for k in path[:-1]:
        o = o[k]
    del o[path[-1]]
    return c


def generic(scn, keep=()):
    nodes = list(_walk(scn))
    # halves first, then single elements
    for path, v in nodes:
        if path and path[-1] in LISTS and isinstance(v, list) and len(v) > 1:
            h = len(v) // 2
            yield _set(scn, path, lambda l: l[h:])
            yield _set(scn, path, lambda l: l[:h])
    for path, v in nodes:
        if path and path[-1] in LISTS and isinstance(v, list):
            for i in range(len(v)):
                yield _set(scn, path, lambda l, i=i: l[:i] + l[i + 1:])
    for path, v in nodes:
        if isinstance(v, dict) and "kind" in v and "n" in v and "seed" in v:
            for k in ("out", "nan", "round", "dup", "colscale", "vout", "const", "inf", "extra", "deg2", "spoil"):
                if v.get(k):
                    yield _set(scn, path, lambda d, k=k: {a: b for a, b in d.items() if a != k})
            if v.get("form") not in (None, "array", "frame"):
                yield _set(scn, path, lambda d: dict(d, form="array"))
            if v["n"] > 8:
                yield _set(scn, path, lambda d: dict(d, n=max(8, d["n"] // 2)))
    for path, v in nodes:
        if path and path[-1] in ("params", "kw") and isinstance(v, dict):
            for k in sorted(v):
                if k not in ("n_initial_subsets", "method", "rowwise"):
                    yield _set(scn, path, lambda d, k=k: {a: b for a, b in d.items() if a != k})
