"""Exhaustive exploration of operation histories by replay.

bfs(ctx, nops, depth, replay): replay(history) rebuilds the real object, applies the operations, checks the
last one against the reference and returns a canonical key of the reached state (None = operation not
applicable there).  Histories reaching an already visited state are not extended."""


def bfs(ctx, nops, depth, replay, first=None, prune=True):
    frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for o in range(nops):
                if d == 0 and first is not None and o not in first:
                    continue
                k = replay(h + (o,))
                if k is None:
                    continue
                ctx.trans()
                if ctx.state(k) or not prune:
                    nxt.append(h + (o,))
        frontier = nxt
        if not frontier:
            return d + 1
    return depth
