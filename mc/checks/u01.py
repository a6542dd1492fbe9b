"""Every integer, list, tuple, index vector and array up to the bounds through the encoding and enumeration helpers, and every
directed graph on up to 4 nodes with every start, destination, relevance and universe set through reachable and flood,
against set-based reference computations; every call is also checked for leaving its arguments as they were."""

import itertools
import numpy
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain import utilities as ut

ASSUMPTIONS = ['a search stops at destinations (as the doctest shows): what lies behind a destination is not reached through it',
               'flood may stop at the first breadth-first level that contains everything relevant',
               'encodings are used for non-negative integers that fit the given size',
               'the factors of a crossproduct are non-empty in number']


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield c


# ------------------------------------------------------------------------------- codes

def codes(ctx, top):
    seen = {}
    for i in range(top):
        ctx.state(i)
        g = ut.int2gray(i)
        ctx.check(g not in seen, 'gray-collision', 'two integers share a gray code', i=i, other=seen.get(g), code=g)
        seen[g] = i
        if i:
            ctx.check(bin(g ^ ut.int2gray(i - 1)).count('1') == 1, 'gray-step', 'neighbouring integers differ in more than one bit of their gray codes', i=i)
        bits = max(1, i.bit_length())
        ctx.check(g.bit_length() <= bits, 'gray-size', 'the gray code needs more bits than the integer', i=i, code=g)
        for size in (bits, bits + 1, bits + 7):
            ctx.trans()
            ok, r = ctx.guard('gray-crash', ut.gray2int, g, size)
            if ok:
                ctx.check(r == i, 'gray-inverse', 'gray2int does not invert int2gray', i=i, size=size, got=r)
        ok, s = ctx.guard('binary-crash', ut.asBinary, i)
        if ok:
            ctx.check(s == bin(i)[2:], 'binary', 'wrong binary representation', i=i, got=s)
    for size in range(1, 9):
        ctx.check(sorted(ut.int2gray(i) for i in range(2 ** size)) == list(range(2 ** size)), 'gray-onto', 'not a permutation of the codes of this size', size=size)
    for n in range(1, 20):
        for v in range(n):
            ctx.trans()
            ok, a = ctx.guard('one-to-n-crash', ut.one_to_n, v, n)
            if not ok:
                continue
            ctx.check(a.shape == (n,) and [int(x) for x in a] == [int(k == v) for k in range(n)], 'one-to-n', 'not the 1-in-n vector', v=v, n=n, got=list(a))
            ctx.check(ut.n_to_one(a) == v, 'n-to-one', 'n_to_one does not invert one_to_n', v=v, n=n)
    ctx.outcome('codes')


def binary_arrays(ctx, longest):
    def one(bits, kind):
        a = array(bits, dtype=kind)
        before = a.copy()
        ok, r = ctx.guard('binArr-crash', ut.binArr2int, a)
        if ok:
            want = int(''.join(str(int(b)) for b in bits), 2)
            ctx.check(int(r) == want, 'binArr', 'not the integer the binary array represents', bits=list(map(int, bits)), got=int(r), want=want)
            ctx.check((a == before).all(), 'binArr-argument', 'the argument was changed', bits=list(bits))

    for n in range(1, longest + 1):
        for k, bits in enumerate(itertools.product((0, 1), repeat=n)):
            ctx.state(bits)
            one(bits, (int, bool, float)[k % 3])
            ctx.trans()
    for n in list(range(longest + 1, 40)) + [56, 63, 64, 65, 71, 72, 80, 127, 128, 130]:
        for pat in ([1] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1], [k % 2 for k in range(n)], [int(k % 3 == 0) for k in range(n)]):
            ctx.trans()
            one(pat, int)
    ctx.outcome('binary')


# ------------------------------------------------------------------------------- enumerations

def enumerations(ctx, maxlen, maxval):
    for n in range(1, maxlen + 1):
        for tup in itertools.product(range(maxval + 1), repeat=n):
            ctx.state(tup)
            want = list(itertools.product(*[range(v) for v in tup]))
            ok, got = ctx.guard('iter-crash', lambda: list(ut.iterCombinations(tup)))
            if ok:
                ctx.check(sorted(got) == want, 'iter', 'not every tuple below the bounds exactly once', tup=tup, got=got[:20])
                ctx.check(all(isinstance(x, tuple) for x in got), 'iter-form', 'not tuples', tup=tup)
            ok, got = ctx.guard('decrement-crash', ut.decrementAny, tup)
            if ok:
                want = [tuple(t - (k == j) for k, t in enumerate(tup)) for j in range(n) if tup[j] > 0]
                ctx.check(sorted(got) == sorted(want), 'decrement', 'not the neighbours below', tup=tup, got=got)
            for i in range(n):
                ctx.trans()
                ctx.check(ut.tupleRemoveItem(tup, i) == tuple(t for k, t in enumerate(tup) if k != i), 'remove-item', 'wrong tuple', tup=tup, index=i)
                ctx.check(ut.tupleRemoveItem(list(tup), i) == tuple(t for k, t in enumerate(tup) if k != i), 'remove-item', 'wrong tuple for a list', tup=tup, index=i)
    alph = ['a', 'b', 'c']
    for n in range(1, maxlen + 1):
        for ss in itertools.product(list(subsets(alph)) + [('a', 'a')], repeat=n):
            ctx.state(ss)
            ctx.trans()
            arg = [list(s) for s in ss]
            ok, got = ctx.guard('product-crash', ut.crossproduct, arg)
            if ok:
                want = sorted(itertools.product(*ss))
                ctx.check(sorted(tuple(r) for r in got) == want, 'product', 'not every combination exactly once', sets=ss, got=got[:20])
                ctx.check(arg == [list(s) for s in ss], 'product-argument', 'the argument was changed', sets=ss)
    ctx.outcome('enumerations')


def permuting(ctx, top):
    for n in range(1, top + 1):
        for width in (0, 1, 2):
            arr = numpy.arange(n * max(width, 1)).reshape((n, width) if width else (n,)) * 3 + 1
            for perm in itertools.permutations(range(n)):
                ctx.state((n, width, perm))
                ctx.trans()
                for a in (arr, arr.tolist()):
                    ok, got = ctx.guard('permute-crash', ut.permute, a, perm)
                    if ok:
                        ctx.check(numpy.array_equal(got, arr[list(perm)]), 'permute', 'not the permuted array', n=n, perm=perm)
                ctx.check(arr.reshape(-1)[0] == 1, 'permute-argument', 'the argument was changed')
    ctx.outcome('permute')


def blocks(ctx, top):
    def reference(arr, shape):
        """the linearized blocks, in linear order of blocks"""
        out = []
        starts = [range(0, s, b) for s, b in zip(arr.shape, shape)]
        for at in itertools.product(*starts):
            sl = tuple(slice(a, a + b) for a, b in zip(at, shape))
            out.extend(arr[sl].flatten())
        return out

    for dims in (2, 3):
        for nblocks in itertools.product(range(1, top + 1), repeat=dims):
            for shape in itertools.product(range(1, top + 1), repeat=dims):
                if dims == 3 and nblocks[0] * nblocks[1] * nblocks[2] * shape[0] * shape[1] * shape[2] > 216:
                    continue
                ctx.state((nblocks, shape))
                ctx.trans()
                size = [a * b for a, b in zip(nblocks, shape)]
                arr = numpy.arange(numpy.prod(size)).reshape(size)
                before = arr.copy()
                ok, got = ctx.guard('blocks-crash', ut.permuteToBlocks, arr, shape)
                if ok:
                    ctx.check(list(got) == reference(arr, shape), 'blocks', 'not the linearized blocks', shape=size, block=shape, got=list(got)[:30])
                    ctx.check(arr.shape == before.shape and (arr == before).all(), 'blocks-argument', 'the argument was changed', shape=size, block=shape)
    ctx.outcome('blocks')


def unique(ctx, top):
    alph = [array([0., 1.]), array([1., 0.]), array([0., 0.]), array([-1., 1.])]
    for n in range(0, top + 1):
        for idx in itertools.product(range(len(alph)), repeat=n):
            ctx.state(idx)
            ctx.trans()
            vs = [alph[i].copy() for i in idx]
            ok, got = ctx.guard('unique-crash', ut.uniqueArrays, vs)
            if ok:
                ctx.check(sorted(tuple(g) for g in got) == sorted(set(tuple(alph[i]) for i in idx)), 'unique', 'not each array once', arrays=idx, got=[list(g) for g in got])
                ctx.check(len(vs) == n, 'unique-argument', 'the argument was changed')
    ctx.outcome('unique')


def maxima(ctx, top):
    for n in range(1, top + 1):
        for vals in itertools.product((-1., 0., 2.), repeat=n):
            ctx.state(vals)
            best = [i for i, v in enumerate(vals) if v == max(vals)]
            ctx.check(list(ut.all_argmax(vals)) == best, 'all-argmax', 'not the indices of the maximum', vals=vals, got=ut.all_argmax(vals))
            seen = set()

            def run(ch):
                with rng.control(ch) as c:
                    ok, r = ctx.guard('argmax-crash', ut.r_argmax, array(vals))
                if ok:
                    seen.add(r)
            ctx.trans(explore(run).runs)
            ctx.check(seen == set(best), 'r-argmax', 'over all draws, not exactly the indices of the maximum', vals=vals, got=sorted(seen))
    ctx.outcome('argmax')


# ------------------------------------------------------------------------------- graphs

def ball(succ, starts, stops=(), allowed=None):
    """distances by breadth-first search that does not leave stops"""
    dist = {}
    layer = [s for s in set(starts) if allowed is None or s in allowed]
    for s in layer:
        dist[s] = 0
    d = 0
    while layer:
        d += 1
        new = []
        for s in layer:
            if s in stops:
                continue
            for t in succ[s]:
                if t not in dist and (allowed is None or t in allowed):
                    dist[t] = d
                    new.append(t)
        layer = new
    return dist


def graphs(n, loops):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for m in range(2 ** len(pairs)):
        yield [[j for k, (a, j) in enumerate(pairs) if a == i and m >> k & 1] for i in range(n)]


def reach_job(ctx, n, loops, orders, part, parts):
    nodes = list(range(n))
    starts = []
    for s in subsets(nodes):
        if orders:
            starts.extend(itertools.permutations(s))
        else:
            starts.extend([s, s[::-1]] if len(s) > 1 else [s])
    kinds = {}
    for gi, succ in enumerate(graphs(n, loops)):
        if gi % parts != part:
            continue
        ctx.state((n, tuple(map(tuple, succ))))
        for si, start in enumerate(starts):
            for di, dests in enumerate(subsets(nodes)):
                ctx.trans()
                want = dict((k, v) for k, v in ball(succ, start, dests).items() if k in dests)
                if not start:
                    want = {}
                for kind in ((list, set, tuple)[(gi + si + di) % 3],) if n > 2 else (list, set, tuple):
                    s, d = kind(start), (list, set, tuple)[(gi + di) % 3](dests)
                    ok, got = ctx.guard('reachable-crash', ut.reachable, lambda x: list(succ[x]), s, d)
                    if not ok:
                        return
                    ctx.check(got == want, 'reachable', 'not the reachable destinations with their distances', graph=succ, start=start, dests=dests, got=got, want=want)
                    ctx.check(s == kind(start) and len(d) == len(dests), 'reachable-argument', 'the search changed its arguments', graph=succ, start=start, left=list(s))
        kinds[len(succ[0])] = 1
    ctx.outcome(('reach', n, len(kinds)))


def flood_job(ctx, n, loops, part, parts):
    nodes = list(range(n))
    for gi, succ in enumerate(graphs(n, loops)):
        if gi % parts != part:
            continue
        ctx.state((n, tuple(map(tuple, succ))))
        for full in [None] + list(subsets(nodes)):
            for init in subsets(nodes):
                dist = ball(succ, init, (), None if full is None else set(full))
                if full is None and not loops and len(init) > 2:
                    continue
                for relevant in [None] + list(subsets(nodes)):
                    if n > 3 and relevant is not None and len(relevant) > 2:
                        continue
                    ctx.trans()
                    kind = (list, set, tuple)[(gi + len(init)) % 3]
                    f = None if full is None else kind(full)
                    i = kind(init)
                    r = None if relevant is None else kind(relevant)
                    ok, got = ctx.guard('flood-crash', ut.flood, lambda x: list(succ[x]), f, i, r)
                    if not ok:
                        return
                    ctx.check(len(got) == len(set(got)), 'flood-once', 'an element is returned twice', graph=succ, got=got)
                    got = set(got)
                    if relevant is None or any(x not in dist for x in relevant):
                        ctx.check(got == set(dist), 'flood', 'not the connected elements', graph=succ, full=full, init=init, relevant=relevant, got=sorted(got), want=sorted(dist))
                    else:
                        levels = [set(x for x in dist if dist[x] <= k) for k in range(n + 1)]
                        need = max([dist[x] for x in relevant] + [0])
                        ctx.check(set(relevant) <= got and got in levels, 'flood-relevant', 'not a breadth-first level with all relevant elements', graph=succ,
                                  full=full, init=init, relevant=relevant, got=sorted(got))
                        ctx.check(got <= levels[max(1, need)], 'flood-early', 'went on after all relevant elements were found', graph=succ, full=full,
                                  init=init, relevant=relevant, got=sorted(got))
                    ctx.check((f is None or len(f) == len(full)) and len(i) == len(init) and (r is None or len(r) == len(relevant)),
                              'flood-argument', 'the arguments were changed', graph=succ)
    ctx.outcome(('flood', n))


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('codes', codes, dict(top=4096 if th else 600)),
           ('binary', binary_arrays, dict(longest=13 if th else 11)),
           ('enumerations', enumerations, dict(maxlen=4 if th else 3, maxval=3)),
           ('permute', permuting, dict(top=6 if th else 5)),
           ('blocks', blocks, dict(top=4 if th else 3)),
           ('unique', unique, dict(top=5 if th else 4)),
           ('argmax', maxima, dict(top=6 if th else 5))]
    for n in (1, 2):
        out.append(('reach-%d' % n, reach_job, dict(n=n, loops=True, orders=True, part=0, parts=1)))
        out.append(('flood-%d' % n, flood_job, dict(n=n, loops=True, part=0, parts=1)))
    out.append(('reach-3', reach_job, dict(n=3, loops=True, orders=True, part=0, parts=1)))
    for p in range(2):
        out.append(('flood-3-%d' % p, flood_job, dict(n=3, loops=th, part=p, parts=2)))
    k = 8
    for p in range(k):
        out.append(('reach-4-%d' % p, reach_job, dict(n=4, loops=False, orders=th, part=p, parts=k)))
    for p in range(k):
        out.append(('flood-4-%d' % p, flood_job, dict(n=4, loops=False, part=p, parts=k)))
    return [(name, fn, tuple(kw.values())) for name, fn, kw in out]
