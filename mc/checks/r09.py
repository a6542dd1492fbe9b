"""Lock-step exploration of the real GomokuGame and PenteGame against a plain rule model. Enumerated: every line of five
(and six) in every direction on boards 5x5..7x6, every completing stone and every blocking stone; every subset of the
eight flanking directions around a point; complete breadth-first move trees of bounded depth (both colours, legal and
illegal moves) from empty, near-win and dense positions; full-board games with illegal attempts inserted at every point.
After every move the board, winner, counters and the legal/killing move lists are compared for both colours."""

import copy
import itertools
from mc.canon import snap
from pybrain.rl.environments.twoplayergames.gomoku import GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame

ASSUMPTIONS = ['moves after the end of the game and off-board points (which raise) are not exercised']
B, W, E = 1, -1, 0
DIRS4 = [(0, 1), (1, 0), (1, 1), (1, -1)]
DIRS8 = DIRS4 + [(-a, -b) for a, b in DIRS4]


class Model(object):
    def __init__(self, size, pente):
        self.size, self.pente = size, pente
        self.b = {(i, j): E for i in range(size[0]) for j in range(size[1])}
        self.pairs = {B: 0, W: 0}
        self.winner = None
        self.moves = 0
        if pente:
            self.b[(size[0] // 2, size[1] // 2)] = W
            self.moves = 1

    def clone(self):
        m = Model.__new__(Model)
        m.size, m.pente, m.b, m.pairs, m.winner, m.moves = self.size, self.pente, dict(self.b), dict(self.pairs), self.winner, self.moves
        return m

    def five(self, c, p):
        for d in DIRS4:
            n = 1
            for s in (1, -1):
                q = (p[0] + s * d[0], p[1] + s * d[1])
                while self.b.get(q) == c:
                    n += 1
                    q = (q[0] + s * d[0], q[1] + s * d[1])
            if n >= 5:
                return True
        return False

    def flanked(self, c, p):
        out = []
        for d in DIRS8:
            q = [(p[0] + k * d[0], p[1] + k * d[1]) for k in (1, 2, 3)]
            if self.b.get(q[0]) == -c and self.b.get(q[1]) == -c and self.b.get(q[2]) == c:
                out += q[:2]
        return out

    def wins(self, c, p):
        if self.five(c, p):
            return True
        return self.pente and self.pairs[c] + len(self.flanked(c, p)) // 2 >= 5

    def legal(self):
        return [p for p in self.b if self.b[p] == E]

    def play(self, c, p):
        """returns legality"""
        if self.b[p] != E:
            return False
        self.moves += 1
        if self.wins(c, p):
            self.winner = c
            return True
        if self.pente:
            k = self.flanked(c, p)
            for q in k:
                self.b[q] = E
            self.pairs[c] += len(k) // 2
        self.b[p] = c
        if all(self.b.values()):
            self.winner = 'draw'
        return True

    def text(self):
        return '/'.join(''.join('.XO'[self.b[(i, j)]] for j in range(self.size[1])) for i in range(self.size[0]))


def new(size, pente):
    return (PenteGame if pente else GomokuGame)(size), Model(size, pente)


def compare(ctx, g, m, hist, kills=True):
    w = '%s%dx%d:%s' % ('pente' if m.pente else 'gomoku', m.size[0], m.size[1], m.text())
    ok = ctx.check(g.getWinner() == m.winner and g.gameOver() == (m.winner is not None), 'winner:%s:%s' % (w, hist[-1:]), 'winner / game over',
                   got=g.getWinner(), want=m.winner, moves=hist)
    if m.winner in (B, W):
        return ok
    pts = sorted(m.b)
    arr = g.getBoardArray()
    want = []
    for p in pts:
        want += [1 if m.b[p] == W else 0, 1 if m.b[p] == B else 0]
    ok &= ctx.check(len(arr) == g.outdim and [int(x) for x in arr] == want, 'array:' + w, 'board array differs', moves=hist)
    ok &= ctx.check([int(x) for x in g.getSensors()] == [m.b[p] for p in pts] and g.indim == len(pts), 'sensors:' + w, 'sensors differ', moves=hist,
                    got=[int(x) for x in g.getSensors()])
    if m.pente:
        ok &= ctx.check({c: g.pairsTaken[c] for c in (B, W)} == m.pairs, 'pairs:' + w, 'captured pairs', got=dict(g.pairsTaken), want=m.pairs, moves=hist)
    ok &= ctx.check(g.movesDone == m.moves, 'moves:' + w, 'move counter', got=g.movesDone, want=m.moves, moves=hist)
    free = sorted(m.legal())
    for c in (B, W):
        l = g.getLegals(c)
        ok &= ctx.check(sorted(l) == free, 'legals:' + w, 'legal moves', got=sorted(l), want=free, moves=hist)
        if kills:
            k = set(g.getKilling(c))
            wk = {p for p in free if m.wins(c, p)}
            ok &= ctx.check(k == wk, 'killing:%s:%d' % (w, c), 'winning moves', got=sorted(k), want=sorted(wk), moves=hist)
        for p in pts:
            if bool(g.isLegal(c, p)) != (m.b[p] == E):
                ok = ctx.check(False, 'islegal:' + w, 'isLegal', at=p, moves=hist)
    ctx.outcome((m.winner, len(free), m.pairs[B], m.pairs[W]))
    return ok


def step(ctx, g, m, c, p, hist, kills=True):
    ctx.trans()
    legal = m.play(c, p)
    r = g.doMove(c, p)
    hist = hist + [(c, p)]
    ctx.check(bool(r) == legal, 'accept:%s:%s' % (m.text(), (c, p)), 'accepted / refused wrongly', got=r, want=legal, moves=hist)
    ctx.state((m.pente, m.size, m.text(), m.pairs[B], m.pairs[W], m.winner))
    compare(ctx, g, m, hist, kills)
    return hist


def lines(size, k):
    for i in range(size[0]):
        for j in range(size[1]):
            for d in DIRS4:
                cells = [(i + t * d[0], j + t * d[1]) for t in range(k)]
                if all(0 <= a < size[0] and 0 <= b < size[1] for a, b in cells):
                    yield cells


def job_lines(ctx, size, pente, k):
    """k cells in a line, one left out and played last; optionally one of the others held by the opponent"""
    for cells in lines(size, k):
        for last in range(k):
            for c in (B, W):
                for foe in [None] + [x for x in range(k) if x != last][:(4 if k == 5 else 2)]:
                    g, m = new(size, pente)
                    hist = []
                    for t in list(range(k)):
                        if t == last or m.winner is not None:
                            continue
                        col = -c if t == foe else c
                        if m.b[cells[t]] != E:
                            continue
                        m.play(col, cells[t])
                        g.performAction([col, cells[t]])
                        hist.append((col, cells[t]))
                        ctx.trans()
                    if m.winner is not None or m.b[cells[last]] != E:
                        compare(ctx, g, m, hist)
                        ctx.trace()
                        continue
                    compare(ctx, g, m, hist)
                    hist = step(ctx, g, m, c, cells[last], hist)
                    ctx.trace()
    ctx.sample(dict(size=size, pente=pente, line=cells, moves=hist))


def bfs(ctx, size, pente, start, depth, cand=None, alternate=False):
    g0, m0 = new(size, pente)
    hist = []
    for c, p in start:
        if m0.winner is None and m0.b[p] == E:
            hist = step(ctx, g0, m0, c, p, hist, kills=False)
    if m0.winner is not None:
        return
    todo = [(g0, m0, hist, 0)]
    seen = set()
    while todo:
        g, m, hist, d = todo.pop()
        if d >= depth:
            ctx.trace()
            continue
        for c in ((B, W) if not alternate else ((B, W)[len(hist) % 2],)):
            for p in (cand or sorted(m.b)):
                g2, m2 = copy.deepcopy(g), m.clone()
                h2 = step(ctx, g2, m2, c, p, hist)
                if m2.winner is not None:
                    ctx.trace()
                    continue
                key = snap(g2.__dict__)
                if key not in seen:
                    seen.add(key)
                    todo.append((g2, m2, h2, d + 1))
    ctx.sample(dict(size=size, pente=pente, moves=hist))


def order(size, s):
    pts = [(i, j) for i in range(size[0]) for j in range(size[1])]
    mult = [1, 3, 7, 9, 11, 13, 17, 19][s % 8]
    o = [pts[(k * mult + s) % len(pts)] for k in range(len(pts))]
    return list(dict.fromkeys(o + pts))


def pattern(size, s):
    """colour pattern without any five in a row (checked by the model as it is played)"""
    def col(p):
        i, j = p
        kind = s % 4
        if kind == 0:
            return B if (j + 2 * i) % 4 < 2 else W
        if kind == 1:
            return B if (i + 2 * j) % 4 < 2 else W
        if kind == 2:
            return B if (i // 2 + j) % 2 else W
        return B if (i * 3 + j * 2 + s) % 5 < 2 else W
    return col


def job_full(ctx, size, pente, seeds):
    """play until the board is full; before every move one illegal attempt on each kind of taken point"""
    for s in seeds:
        col = pattern(size, s)
        for illegal_every in (0, 1, 3):
            g, m = new(size, pente)
            hist = []
            n = 0
            while m.winner is None and n < 90:
                free = [p for p in order(size, s) if m.b[p] == E]
                p = free[0]
                c = col(p)
                if m.wins(c, p) and not m.wins(-c, p):
                    c = -c
                if illegal_every and n % illegal_every == 0:
                    taken = [q for q in order(size, s + 1) if m.b[q] != E][:2]
                    for q in taken:
                        hist = step(ctx, g, m, (B, W)[n % 2], q, hist, kills=False)
                hist = step(ctx, g, m, c, p, hist, kills=(n % 4 == 0))
                n += 1
            ctx.trace()
            ctx.note('full:%s' % m.winner)
    ctx.sample(dict(size=size, pente=pente, winner=m.winner, moves=len(hist)))


def job_flank(ctx, size, centre, rev):
    """every subset of the 8 directions set up as a flanked pair around a free centre, then played"""
    for sub in range(256):
        dirs = [d for k, d in enumerate(DIRS8) if sub >> k & 1]
        if rev:
            dirs.reverse()
        for c in (B, W):
            g, m = new(size, True)
            hist = []
            good = True
            for d in dirs:
                q = [(centre[0] + k * d[0], centre[1] + k * d[1]) for k in (1, 2, 3)]
                for p, col in ((q[0], -c), (q[2], c), (q[1], -c)):
                    if p not in m.b or m.b[p] != E or m.winner is not None:
                        good = False
                        continue
                    m.play(col, p)
                    g.performAction([col, p])
                    hist.append((col, p))
                    ctx.trans()
            if m.winner is None and m.b[centre] == E:
                compare(ctx, g, m, hist)
                step(ctx, g, m, c, centre, hist)
            ctx.trace()
    ctx.sample(dict(size=size, centre=centre, moves=hist[:6]))


def job_pairs(ctx, size):
    """win by pairs: capture one pair after another with the same flank, up to the fifth, from every counter value"""
    for c in (B, W):
        for row in range(size[0]):
            g, m = new(size, True)
            hist = []
            for rnd in range(7):
                if m.winner is not None:
                    break
                j0 = 0 if row != size[0] // 2 else 0
                cells = [(row, j0 + k) for k in range(4)]
                for p, col in ((cells[1], -c), (cells[2], -c), (cells[0], c), (cells[3], c)):
                    if m.winner is None and m.b[p] == E:
                        hist = step(ctx, g, m, col, p, hist)
                # free the flanks again: the other side captures nothing, so move to a fresh row for the next pair
                row2 = (row + rnd + 1) % size[0]
                for p, col in (((row2, 5), -c), ((row2, 4), -c), ((row2, 6), c), ((row2, 3), c)):
                    if p in m.b and m.winner is None and m.b[p] == E:
                        hist = step(ctx, g, m, col, p, hist)
                for p, col in ((cells[1], -c), (cells[2], -c)):
                    if m.winner is None and m.b[p] == E:
                        hist = step(ctx, g, m, col, p, hist)
            ctx.note('pairs-winner:%s' % m.winner)
            ctx.trace()
    ctx.sample(dict(size=size, winner=m.winner, pairs=dict(m.pairs)))


def job_reset(ctx):
    for pente in (False, True):
        for size in ((5, 5), (6, 5), (5, 7)):
            for s in range(8):
                g, m = new(size, pente)
                for k, p in enumerate(order(size, s)[:10]):
                    if g.getWinner() is None and m.b[p] == E:
                        m.play((B, W)[k % 2], p)
                        g.performAction([(B, W)[k % 2], p])
                g.reset()
                ctx.trans()
                _, m = new(size, pente)
                compare(ctx, g, m, ['reset'])
                for k, p in enumerate(order(size, s + 3)[:6]):
                    if m.b[p] == E:
                        step(ctx, g, m, (B, W)[k % 2], p, ['reset'])
                ctx.trace()


def starts(size, pente):
    r = size[0] // 2
    return [[], [(B, (0, j)) for j in range(4)], [(W, (i, i)) for i in range(4)] + [(B, (i, 0)) for i in range(1, 4)],
            [(B, (1, 1)), (W, (1, 2)), (W, (1, 3)), (W, (2, 1)), (W, (3, 1)), (B, (4, 1))],
            [((B, W)[k % 2], p) for k, p in enumerate(order(size, 2)[:14])],
            [((B, W)[k // 2 % 2], p) for k, p in enumerate(order(size, 5)[:16])]]


def jobs(tier, seed):
    q = tier == 'quick'
    out = [('reset', job_reset, ())]
    for pente in (False, True):
        nm = 'pente' if pente else 'gomoku'
        for size in ([(5, 5), (5, 6), (6, 5)] if q else [(5, 5), (5, 6), (6, 5), (7, 5), (7, 7)]):
            out.append(('%s-lines-%dx%d' % ((nm,) + size), job_lines, (size, pente, 5)))
        out.append(('%s-six' % nm, job_lines, ((6, 6), pente, 6)))
        if not q:
            out.append(('%s-seven' % nm, job_lines, ((7, 7), pente, 7)))
        for size in ((5, 5), (5, 6), (7, 5)):
            out.append(('%s-full-%dx%d' % ((nm,) + size), job_full, (size, pente, range(8 if q else 32))))
        for size in ((5, 5), (5, 6)) if q else ((5, 5), (5, 6), (6, 5), (7, 7)):
            for k, st in enumerate(starts(size, pente)):
                if size != (5, 5) and k == 0 and q:
                    continue
                out.append(('%s-tree-%dx%d-%d' % (nm, size[0], size[1], k), bfs, (size, pente, st, 2 if q or size != (5, 5) else 3)))
    for k, cen in enumerate([(3, 3), (0, 0), (0, 4), (6, 6), (2, 5), (3, 0)]):
        out.append(('pente-flank-%d' % k, job_flank, ((7, 7), cen, k % 2 == 1)))
    out.append(('pente-flank-8', job_flank, ((8, 9), (4, 5), False)))
    out.append(('pente-pairs', job_pairs, ((8, 7),)))
    return out
