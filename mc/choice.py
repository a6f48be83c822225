"""Stateless exploration of choice trees: the program under test asks pick(n) wherever the
environment may answer in n ways; alternative 0 is the default answer."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.choices = []
        self.widths = []
        self.diverged = False

    def pick(self, n):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            # a prefix recorded on this code must replay: anything else is a divergence
            self.diverged = True
            c = n - 1
        self.choices.append(c)
        self.widths.append(n)
        return c


def next_prefix(choices, widths, bound=None):
    """Depth-first successor of a complete run (bound: max number of non-default choices)."""
    ch = list(choices)
    for i in range(len(ch) - 1, -1, -1):
        dev = sum(1 for c in ch[:i] if c)
        if ch[i] + 1 < widths[i] and (bound is None or dev + 1 <= bound):
            return ch[:i] + [ch[i] + 1]
    return None


def explore(run, bound=None, limit=None):
    """run(prefix) -> Chooser of the complete execution.  Yields each chooser; returns when exhausted."""
    prefix = []
    n = 0
    while prefix is not None:
        c = run(prefix)
        yield c
        n += 1
        if limit and n >= limit:
            return
        prefix = next_prefix(c.choices, c.widths, bound)
