"""Explicit-state search over the real CaptureGame: states are complete object snapshots, transitions are doMove calls
with either colour on every board point (legal or not), off-board points and resignation. In every state all rule
queries are compared with an independent flood-fill liberty oracle. 2x2 and 3x3 boards completely (suicide on and off),
4x4/5x5 to a bounded depth from empty and from dense deterministic positions; randomBoard under every random outcome,
handicap placement for every count."""

import copy
import collections
from mc.canon import snap
from mc.choice import explore
from mc import rng
from pybrain.rl.environments.twoplayergames import CaptureGame

ASSUMPTIONS = ['positions after the end of a game are outside the property']
B, W, E = 1, -1, 0


# ---------------------------------------------------------------- oracle
def neigh(n, p):
    for d in ((0, 1), (0, -1), (1, 0), (-1, 0)):
        q = (p[0] + d[0], p[1] + d[1])
        if 0 <= q[0] < n and 0 <= q[1] < n:
            yield q


def group(n, b, p):
    seen, todo = {p}, [p]
    while todo:
        for q in neigh(n, todo.pop()):
            if q not in seen and b[q] == b[p]:
                seen.add(q)
                todo.append(q)
    return seen


def libs(n, b, g):
    return {q for p in g for q in neigh(n, p) if b[q] == E}


def classify(n, b, c, p):
    """free point -> 'capture' / 'suicide' / 'plain'"""
    nb = dict(b)
    nb[p] = c
    for q in neigh(n, p):
        if nb[q] == -c and not libs(n, nb, group(n, nb, q)):
            return 'capture'
    if not libs(n, nb, group(n, nb, p)):
        return 'suicide'
    return 'plain'


def observed(g):
    return dict(g.b)


def board(n, g):
    """board through the public array view (two bits per point: white, black)"""
    a = g.getBoardArray()
    b = {}
    k = 0
    for i in range(n):
        for j in range(n):
            b[(i, j)] = W if a[2 * k] else (B if a[2 * k + 1] else E)
            k += 1
    return b


def text(n, b):
    return '/'.join(''.join('.XO'[b[(i, j)]] for j in range(n)) for i in range(n))


def inspect(ctx, g, n, b, suicide, hist):
    """compare every rule query in an undecided position with the oracle"""
    where = 'size%d:%s' % (n, text(n, b))
    pts = [(i, j) for i in range(n) for j in range(n)]
    ok = True
    got = board(n, g)
    ok &= ctx.check(got == b, 'board:' + where, 'board array differs', got=text(n, got), want=text(n, b), moves=hist)
    ok &= ctx.check([int(x) for x in g.getSensors()] == [b[p] for p in pts], 'sensors:' + where, 'sensors differ from board', moves=hist)
    groups = {}
    for p in pts:
        if b[p] == E:
            ok &= ctx.check(g.getLiberties(p) is None and g.getGroupSize(p) is None, 'empty:' + where, 'empty point has a group', moves=hist)
            continue
        if p not in groups:
            gr = group(n, b, p)
            l = len(libs(n, b, gr))
            for q in gr:
                groups[q] = (len(gr), l)
        sz, l = groups[p]
        ok &= ctx.check(g.getGroupSize(p) == sz, 'groupsize:' + where, 'group size', at=p, got=g.getGroupSize(p), want=sz, moves=hist)
        ok &= ctx.check(g.getLiberties(p) == l, 'liberties:' + where, 'liberty count', at=p, got=g.getLiberties(p), want=l, moves=hist)
    ok &= ctx.check(not g.gameOver() and g.getWinner() is None, 'over:' + where, 'undecided position reported as decided', moves=hist)
    kinds = {}
    for c in (B, W):
        for p in pts:
            kinds[c, p] = classify(n, b, c, p) if b[p] == E else None
        legal = {p for p in pts if kinds[c, p] and (suicide or kinds[c, p] != 'suicide')}
        acc = {p for p in pts if kinds[c, p] in ('plain', 'capture')}
        kill = {p for p in pts if kinds[c, p] == 'capture'}
        for name, want in (('getLegals', legal), ('getAcceptable', acc), ('getKilling', kill)):
            res = getattr(g, name)(c)
            ok &= ctx.check(len(res) == len(set(res)) and set(res) == want, '%s:%s:%d' % (name, where, c), name + ' wrong',
                            color=c, got=sorted(res), want=sorted(want), suicide_enabled=suicide, moves=hist)
        for p in pts:
            ok &= ctx.check(bool(g.isLegal(c, p)) == (p in legal), 'isLegal:%s:%d%s' % (where, c, p), 'isLegal wrong',
                            color=c, at=p, want=p in legal, moves=hist)
    for p in ((-1, 0), (n, 0), (0, n)):
        ok &= ctx.check(not g.isLegal(B, p), 'offboard:' + where, 'off-board point legal', at=p)
    return ok, kinds


def hidden(g):
    """the whole object, with arbitrary group names replaced by their smallest stone so that equal futures merge"""
    return snap(g.__dict__)


def apply(ctx, g, n, b, kinds, suicide, c, p, hist):
    """one real move on a copy; returns (game, board, decided) or None if illegal"""
    h = hist + [(c, p)]
    where = 'size%d:%s:%d%s' % (n, text(n, b), c, p)
    ng = copy.deepcopy(g)
    ctx.trans()
    if p == 'resign':
        ng.performAction([c, p])
        ctx.check(ng.getWinner() == -c and ng.gameOver(), 'resign:' + where, 'resignation', moves=h)
        return None
    legal = kinds.get((c, p)) is not None and (suicide or kinds[c, p] != 'suicide')
    before_moves = getattr(ng, 'movesDone', None)
    r = ng.doMove(c, p)
    ctx.check(bool(r) == legal, 'accept:' + where, 'doMove accepts/refuses wrongly', want=legal, got=r, moves=h)
    if not legal:
        same = (board(n, ng) == b and ng.getWinner() is None and [int(x) for x in ng.getSensors()] == [int(x) for x in g.getSensors()]
                and getattr(ng, 'movesDone', None) == before_moves
                and all(ng.getLiberties(q) == g.getLiberties(q) for q in b))
        ctx.check(same, 'illegal-effect:' + where, 'an illegal move changed the game', moves=h)
        return None
    k = kinds[c, p]
    if k == 'capture':
        ctx.check(ng.getWinner() == c and ng.gameOver(), 'capture:' + where, 'capture does not win', got=ng.getWinner(), moves=h)
        return None
    if k == 'suicide':
        ctx.check(ng.getWinner() == -c and ng.gameOver(), 'suicide:' + where, 'suicide does not lose', got=ng.getWinner(), moves=h)
        return None
    nb = dict(b)
    nb[p] = c
    ctx.check(ng.getWinner() is None, 'plain:' + where, 'plain move decided the game', got=ng.getWinner(), moves=h)
    return ng, nb


def bfs(ctx, n, suicide, depth, alternate, part=None, start=None):
    g0 = CaptureGame(n, suicideenabled=suicide)
    b0 = {(i, j): E for i in range(n) for j in range(n)}
    h0 = []
    if start:
        for c, p in start:
            g0.performAction([c, p])
            b0[p] = c
            h0.append((c, p))
    pts = sorted(b0)
    todo = collections.deque([(g0, b0, h0, 0)])
    seen = {hidden(g0)}
    first = True
    while todo:
        g, b, hist, d = todo.popleft()
        ctx.state((n, suicide, hidden(g)))
        ok, kinds = inspect(ctx, g, n, b, suicide, hist)
        ctx.outcome((n, tuple(sorted(str(v) for v in kinds.values()))))
        if d >= depth or not ok:
            ctx.trace()
            continue
        cols = (B, W)
        if alternate:
            cols = (B if (len(hist) % 2 == 0) else W,)
        for c in cols:
            moves = pts + [(-1, 0), (0, n), 'resign']
            if first and part is not None:
                moves = part
            for p in moves:
                r = apply(ctx, g, n, b, kinds, suicide, c, p, hist)
                if r is None:
                    ctx.trace()
                    continue
                key = hidden(r[0])
                if key not in seen:
                    seen.add(key)
                    todo.append((r[0], r[1], hist + [(c, p)], d + 1))
        first = False
        ctx.sample(dict(size=n, suicide_enabled=suicide, moves=hist, board=text(n, b)))


def dense(n, seed):
    """deterministic dense, undecided position: fill points in a seed-dependent order, skipping decisive moves"""
    pts = [(i, j) for i in range(n) for j in range(n)]
    mult = [1, 3, 5, 7, 11, 13][seed % 6]
    order = [pts[(k * mult + seed) % len(pts)] for k in range(len(pts))]
    order = list(dict.fromkeys(order))
    b = {p: E for p in pts}
    moves = []
    for k, p in enumerate(order):
        for c in ((B, W) if (k // (1 + seed % 3)) % 2 == 0 else (W, B)):
            if classify(n, b, c, p) == 'plain':
                b[p] = c
                moves.append((c, p))
                break
    return moves


def job_dense(ctx, n, seeds, depth):
    for s in seeds:
        mv = dense(n, s)
        for cut in (0, 1, 2, 3, 4, 5):
            if cut < len(mv):
                bfs(ctx, n, True, depth, False, start=mv[:len(mv) - cut])


def job_random(ctx, n, kmax):
    for k in range(kmax + 1):
        def body(ch):
            g = CaptureGame(n)
            g.performAction([B, (0, 0)])
            with rng.control(ch):
                r = g.randomBoard(k)
            b = board(n, g)
            ctx.state((n, k, text(n, b)))
            ctx.trans(k)
            ctx.trace()
            stones = sum(1 for v in b.values() if v)
            ctx.check(r == stones and r <= k, 'randomBoard:count:%d:%d:%s' % (n, k, text(n, b)), 'reported number of moves', got=r, stones=stones)
            nb = sum(1 for v in b.values() if v == B)
            ctx.check(nb - (stones - nb) in (0, 1), 'randomBoard:alternate:%d:%d' % (n, k), 'colours alternate', board=text(n, b))
            inspect(ctx, g, n, b, True, ['randomBoard(%d)' % k])
        explore(body)


def job_misc(ctx):
    for n in range(3, 7):
        total = 1 + (3 if n > 3 else 0)
        for h in range(0, total + 1):
            for col in (B, W):
                g = CaptureGame(n)
                g.giveHandicap(h, col)
                b = board(n, g)
                ctx.trans()
                ctx.trace()
                ctx.state((n, h, col))
                ctx.check(sum(1 for v in b.values() if v == col) == h and all(v in (E, col) for v in b.values()),
                          'handicap:%d:%d' % (n, h), 'handicap stones', want=h, board=text(n, b))
                inspect(ctx, g, n, b, True, ['giveHandicap(%d)' % h])
    # reset from any position is a fresh game
    fresh = {n: hidden(CaptureGame(n)) for n in (2, 3, 4)}
    for n in (2, 3, 4):
        for s in range(12):
            g = CaptureGame(n)
            for c, p in dense(n, s):
                g.performAction([c, p])
            if s % 2:
                g.performAction([B, 'resign'])
            g.reset()
            ctx.trans()
            ctx.trace()
            inspect(ctx, g, n, {(i, j): E for i in range(n) for j in range(n)}, True, ['reset'])
            ctx.check(hidden(g) == fresh[n], 'reset:%d:%d' % (n, s), 'reset leaves something behind')


def jobs(tier, seed):
    q = tier == 'quick'
    out = [('2x2', bfs, (2, True, 9, False)), ('2x2-nosuicide', bfs, (2, False, 9, False)),
           ('misc', job_misc, ()), ('randomBoard3', job_random, (3, 3 if q else 4)), ('randomBoard2', job_random, (2, 4)),
           ('3x3-nosuicide', bfs, (3, False, 4 if q else 9, True)), ('3x3-alt', bfs, (3, True, 9, True))]
    if not q:
        out.append(('3x3-any', bfs, (3, True, 9, False)))
        out.append(('4x4-alt', bfs, (4, True, 4, True)))
        for s in range(24):
            out.append(('dense4-%d' % s, job_dense, (4, [s], 3)))
            out.append(('dense5-%d' % s, job_dense, (5, [s], 2)))
    else:
        out.append(('3x3-any', bfs, (3, True, 5, False)))
        out.append(('4x4-alt', bfs, (4, True, 2, True)))
        for s in range(6):
            out.append(('dense4-%d' % s, job_dense, (4, [s], 1)))
        out.append(('dense5', job_dense, (5, [1, 3], 1)))
    return out
