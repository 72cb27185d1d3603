"""Per-property shrinkers (default: generic)."""
from robsim import shrink


class _G:
    shrinks = staticmethod(shrink.generic)


def get(prop):
    if prop in ("C01",):
        return _Tasks
    return _G


class _Tasks:
    @staticmethod
    def shrinks(scn):
        import copy

        n = len(scn["tasks"])
        if n > 2:
            for i in range(n):
                c = copy.deepcopy(scn)
                c["tasks"].pop(i)
                c["preempts"] = [[t - (t > i), s, g - (g > i)] for t, s, g in c["preempts"]
                                 if t != i and g != i]
                c["first"] = 0
                yield c
        yield from shrink.generic(scn)
