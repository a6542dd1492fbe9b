"""Every history of insertions and queries up to the bound over small point alphabets, for every permutation draw of MinHash and
several systematic draws of the grids of MultiDimHash; after every history every query point and every k is asked."""

import itertools
import math
import numpy
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.supervised.knn.lsh import minhash, nearoptimal

ASSUMPTIONS = ['permutations of MinHash: every one for dimension up to 3, rotations and reflections above', 'grid offsets of MultiDimHash come from equidistributed scripts',
               'dimensions from 8 on are not explored: the number of grids of MultiDimHash grows beyond memory',
               'which of the neighbours at equal distance is dropped at the k limit is open']


def hamming(a, b):
    return sum(bool(x) != bool(y) for x, y in zip(a, b))


def euclid(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def judge(ctx, what, got, stored, bucket, query, k, dist):
    """stored: list of (point, satellite); bucket: those sharing the bucket of the query"""
    res = []
    for r in got:
        if not ctx.check(len(r) == 2, what + '-form', 'not (point, satellite)', got=str(r)):
            return
        res.append((tuple(float(x) for x in r[0]), r[1]))
    ids = [s for _, s in res]
    known = dict((s, p) for p, s in stored)
    if not ctx.check(len(set(ids)) == len(ids) and all(s in known and tuple(float(x) for x in known[s]) == p for p, s in res), what + '-stored',
                     'something that was not stored (or twice) is returned', stored=stored, query=query, k=k, got=res):
        return
    ctx.check(set(ids) <= set(bucket), what + '-bucket', 'an entry of another bucket is returned', stored=stored, query=query, k=k, got=res, bucket=bucket)
    ds = [dist(p, query) for p, _ in res]
    ctx.check(all(a <= b + 1e-9 for a, b in zip(ds, ds[1:])), what + '-order', 'not ordered by distance', stored=stored, query=query, k=k, got=res)
    ctx.check(len(res) == min(k, len(bucket)), what + '-count', 'not k candidates although the bucket has them', stored=stored, query=query, k=k, got=res, bucket=bucket)
    best = sorted(dist(known[s], query) for s in bucket)[:k]
    ctx.check(len(best) == len(ds) and all(abs(a - b) < 1e-9 for a, b in zip(ds, best)), 'nearest' if what == 'knn' else what + '-nearest', 'not the nearest candidates', stored=stored,
              query=query, k=k, got=res)
    dup = [s for p, s in stored if dist(p, query) == 0]
    ctx.check(len(set(dup) & set(ids)) == min(k, len(dup)), what + '-duplicate', 'an exact duplicate of the query is missing', stored=stored, query=query, k=k, got=res)


# ------------------------------------------------------------------------------- MinHash

def first_one(perm, item):
    for i, p in enumerate(perm):
        if item[p]:
            return i
    return len(item)


def histories(points, depth):
    for n in range(depth + 1):
        for h in itertools.product(range(len(points)), repeat=n):
            yield h


def minhash_job(ctx, dim, nperm, depth, perms, interleave):
    points = list(itertools.product((0, 1), repeat=dim))

    def run(ch):
        with rng.control(ch, perms=perms):
            ok, m0 = ctx.guard('minhash-crash', minhash.MinHash, dim, nperm)
        if not ok:
            return
        draw = tuple(map(tuple, m0.permutations))
        ctx.check(len(draw) == nperm and all(sorted(p) == list(range(dim)) for p in draw), 'minhash-permutations', 'not permutations of the dimensions', got=draw)
        codes = {}
        for p in points:
            codes[p] = tuple(first_one(q, p) for q in draw)
            for kind in (int, bool, float):
                ok, h = ctx.guard('hash-crash', m0._hash, array(p, dtype=kind))
                if ok:
                    ctx.check(tuple(h) == codes[p], 'hash', 'not the first ones of the permuted item', item=p, permutations=draw, got=h)
        for hist in histories(points, depth):
            ctx.state((draw, hist))
            m = minhash.MinHash(dim, nperm)
            m.permutations = m0.permutations
            stored = []
            for i, h in enumerate(hist):
                p = points[h]
                arg = array(p, dtype=(int, bool)[(i + h) % 2])
                ok, _ = ctx.guard('put-crash', m.put, arg, ('sat', i))
                ctx.check(tuple(int(x) for x in arg) == p, 'put-argument', 'the inserted array was changed')
                arg[:] = 1 - arg.astype(int)        # the structure must not depend on the caller's array
                stored.append((p, ('sat', i)))
                if interleave:
                    ctx.guard('knn-crash', m.knn, array(points[(h * 3 + i) % len(points)]), 1)
            for q in points:
                for k in range(0, len(hist) + 2):
                    ctx.trans()
                    ok, got = ctx.guard('knn-crash', m.knn, array(q), k)
                    if ok:
                        judge(ctx, 'knn', got, stored, [s for p, s in stored if codes[p] == codes[q]], q, k, hamming)
            ctx.outcome(len(set(codes[points[h]] for h in hist)))
    explore(run)


def minhash_errors(ctx):
    m = minhash.MinHash(3, 2)
    for bad in (array([[1, 0, 1]]), array([1, 0]), array([1, 0, 1, 1]), array([])):
        for f in (lambda: m.put(bad, 1), lambda: m.knn(bad, 1)):
            ctx.trans()
            ctx.state(bad.shape)
            try:
                f()
                ctx.fail('refuse', 'an item of wrong shape is accepted', shape=bad.shape)
            except ValueError:
                pass
    for n in (1, 2, 3, 4):
        for a in itertools.product((0, 1), repeat=n):
            for b in itertools.product((0, 1), repeat=n):
                ctx.trans()
                ok, j = ctx.guard('jacard-crash', minhash.jacardCoefficient, array(a), array(b))
                if ok:
                    ctx.check(abs(j - (1 - hamming(a, b) / float(n))) < 1e-12, 'jacard', 'not the share of equal elements', a=a, b=b, got=j)
    try:
        minhash.jacardCoefficient(array([1]), array([1, 0]))
        ctx.fail('jacard-shape', 'arrays of different shape are compared')
    except ValueError:
        pass
    for n in (1, 2, 3, 4):
        for p in itertools.permutations(range(n)):
            ctx.trans()
            f = minhash.arrayPermutation(array(p))
            got = f(array([10 * (i + 1) for i in range(n)]))
            ctx.check(list(got) == [10 * (i + 1) for i in p], 'permutation', 'not the permuted array', perm=p, got=list(got))


# ------------------------------------------------------------------------------- MultiDimHash

SCRIPTS = [lambda: rng.vdc(2), lambda: rng.vdc(3), lambda: rng.script([math.sqrt(k * 7 + 2) % 1. for k in range(1, 4001)])]


def near_job(ctx, dim, points, depth, which, omega, prob):
    box = []

    def build(ch):
        with rng.control(ch, unit=SCRIPTS[which]()):
            box.append(ctx.guard('near-crash', nearoptimal.MultiDimHash, dim, omega, prob))
    explore(build)
    if not box[0][0]:
        return
    m0 = box[0][1]
    cell = m0.omega * m0.radius
    points = [tuple(round(c * cell, 6) for c in p) for p in points]
    balls = [tuple(map(float, b)) for b in m0.gridBalls]
    n = ((omega * m0.radius) / (m0.radius / math.sqrt(dim))) ** dim
    ctx.check(len(balls) == math.ceil(math.log((1 - prob) / n, 1 - 1 / n)) and all(len(b) == dim for b in balls), 'near-grids', 'not the number of grids for the probability', got=len(balls))
    codes = {}
    for p in points:
        cube = tuple(math.floor(c / cell) for c in p)
        rest = [c - f * cell for c, f in zip(p, cube)]
        local = [i for i, b in enumerate(balls) if euclid(rest, b) <= m0.radius ** 2 * (1 + 1e-12)]
        codes[p] = (cube, local[0] if local else None)
        ok, got = ctx.guard('ball-crash', m0.findBall, array(p))
        if ok:
            ctx.check((tuple(int(c) for c in got[0]), got[1]) == codes[p], 'ball', 'not the cube and the first ball of the point', point=p, got=str(got), want=codes[p])
    for hist in histories(points, depth):
        ctx.state((which, dim, hist))
        m0.balls.clear()
        stored = []
        for i, h in enumerate(hist):
            arg = array(points[h])
            ok, _ = ctx.guard('insert-crash', m0.insert, arg, ('sat', i))
            ctx.check(tuple(arg) == points[h], 'insert-argument', 'the inserted array was changed')
            stored.append((points[h], ('sat', i)))
        for q in points:
            for k in range(0, len(hist) + 2):
                ctx.trans()
                ok, got = ctx.guard('near-knn-crash', m0.knn, array(q), k)
                if ok:
                    judge(ctx, 'near', got, stored, [s for p, s in stored if codes[p] == codes[q]], q, k, euclid)
        ctx.outcome(len(set(codes[points[h]] for h in hist)))


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('minhash-1', minhash_job, (1, 1, 4, 'all', False)), ('minhash-2-1', minhash_job, (2, 1, 4 if th else 3, 'all', True)), ('minhash-2-2', minhash_job, (2, 2, 3, 'all', False)),
           ('minhash-3-1', minhash_job, (3, 1, 3, 'all', True)), ('minhash-3-2', minhash_job, (3, 2, 3 if th else 2, 'all', False)), ('minhash-4-2', minhash_job, (4, 2, 2 if th else 1, 'rot', True)),
           ('minhash-errors', minhash_errors, ())]
    one = [(-.3,), (0.,), (.2,), (.21,), (.6,), (1.1,)]
    two = [(0., 0.), (.3, .4), (.31, .4), (.3, -.6), (.8, .8), (1.2, .4)]
    three = [(.3, .4, .5), (.31, .42, .5), (.9, -.2, .1), (.5, .5, .5)]
    for w in range(len(SCRIPTS)):
        out.append(('near-1-%d' % w, near_job, (1, one, 4 if th else 3, w, 4, .8)))
        out.append(('near-2-%d' % w, near_job, (2, two, 4 if th else 2, w, 4, .8)))
        out.append(('near-2-%d-small' % w, near_job, (2, two[:4], 3, w, 2, .5)))
        out.append(('near-3-%d' % w, near_job, (3, three, 3 if th else 2, w, 4 if th else 2, .8 if th else .5)))
    return out
