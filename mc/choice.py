"""Stateless exploration of every choice sequence of a deterministic body.

`explore(body)` runs `body(chooser)` once per leaf of the choice tree: depth-first, replaying a prefix
and taking alternative 0 afterwards.  A replayed point whose arity differs from the recorded one is a
hard error (the body has nondeterminism the harness does not own)."""


class Divergence(Exception):
    """The body did not behave deterministically under replay: harness error, never a verdict."""


class Horizon(BaseException):
    """Execution cut at the step horizon (counted, never judged).

    Derives from BaseException so that 'except Exception' in code under test cannot swallow it."""


class Chooser(object):
    def __init__(self, prefix=(), horizon=100000):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []
        self.horizon = horizon

    def pick(self, n):
        if n <= 0:
            raise ValueError("choice among no alternatives")
        i = len(self.taken)
        if i >= self.horizon:
            raise Horizon()
        if i < len(self.prefix):
            c, want = self.prefix[i]
            if want != n:
                raise Divergence("choice %d has %d alternatives, had %d" % (i, n, want))
        else:
            c = 0
        self.taken.append(c)
        self.arity.append(n)
        return c

    def of(self, seq):
        return seq[self.pick(len(seq))]


class Result(object):
    def __init__(self):
        self.runs = 0
        self.points = 0
        self.cut = 0
        self.exhausted = True


def explore(body, horizon=100000, max_runs=None, bound=None):
    """Run body(chooser) for every choice sequence (with at most `bound` non-zero choices, if given)."""
    res = Result()
    prefix = []
    while True:
        ch = Chooser(prefix, horizon)
        try:
            body(ch)
        except Horizon:
            res.cut += 1
        if len(ch.taken) < len(prefix):
            raise Divergence("replay consumed %d of %d choices" % (len(ch.taken), len(prefix)))
        res.runs += 1
        res.points += len(ch.taken)
        # next sequence in depth-first order
        seq = list(zip(ch.taken, ch.arity))
        while seq:
            c, n = seq.pop()
            used = sum(1 for x, _ in seq if x)
            if c + 1 < n and (bound is None or used + 1 <= bound):
                seq.append((c + 1, n))
                break
        else:
            return res
        prefix = seq
        if max_runs is not None and res.runs >= max_runs:
            res.exhausted = False
            return res
