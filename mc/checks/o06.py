"""Every benchmark function in dimension 1-4 on a grid of points around its declared optimum and around the origin, for every
sign pattern and several scripts of its random ingredients: the declared optimum attains the declared value, nothing is
lower, the argument is untouched; every composition of up to two (three thorough) transformations against the composed
formula; the 54 functions of the two BBOB collections, noise included; the environment interface on every action history."""

import itertools
import math
import random
import numpy as np
from numpy import array, dot, zeros, ones
from mc.choice import explore, Chooser
from mc.core import StopJob
from mc import rng
from pybrain.rl.environments.functions import unimodal as U, multimodal as M, multiobjective as MO, unbounded as UB
from pybrain.rl.environments.functions import transformations as T, bbob2010 as BB
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.functions.lennardjones import LennardJones
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.structure.parametercontainer import ParameterContainer

ASSUMPTIONS = ['the optimum handed to a constructor is only a declaration for wrappers', 'soft constraints move the optimum when it lies outside of them',
               'functions without a minimum are judged by their formula']

UNI = ['SphereFunction', 'SchwefelFunction', 'CigarFunction', 'TabletFunction', 'ElliFunction', 'StepElliFunction', 'AttractiveSectorFunction',
       'SharpRFunctionBis', 'DiffPowFunction', 'RosenbrockFunction', 'GlasmachersFunction', 'BoundedLinear']
MUL = ['FunnelFunction', 'RastriginFunction', 'WeierstrassFunction', 'SchaffersF7Function', 'AckleyFunction', 'GriewankFunction', 'BucheRastriginFunction',
       'GriewankRosenbrockFunction', 'Schwefel_2_13Function', 'Schwefel20Function', 'GallagherGauss101MeFunction', 'GallagherGauss21HiFunction',
       'KatsuuraFunction', 'LunacekBiRastriginFunction', 'BraninFunction']
# the functions that have no other point as good
SINGLE = ['SphereFunction', 'SchwefelFunction', 'CigarFunction', 'TabletFunction', 'ElliFunction', 'AttractiveSectorFunction', 'SharpRFunctionBis',
          'DiffPowFunction', 'RosenbrockFunction', 'GlasmachersFunction', 'FunnelFunction', 'RastriginFunction', 'SchaffersF7Function', 'AckleyFunction',
          'GriewankFunction', 'BucheRastriginFunction', 'GriewankRosenbrockFunction', 'LunacekBiRastriginFunction']


def quad(start):
    """distinct draws without linear structure, so that drawn matrices are regular"""
    return random.Random(1000 + start).random


def make(name, dim, ch, script, **kw):
    cls = getattr(U, name, None) or getattr(M, name)
    with rng.control(ch, unit=quad(7 * script), gauss=[-1., 1.], perms='none'):
        return quiet(cls, dim, **kw)


def quiet(fn, *a, **kw):
    import io
    import sys
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*a, **kw)
    finally:
        sys.stdout = old


def grid(dim, opt, coarse, fine):
    pts = [array(p, dtype=float) for p in itertools.product(coarse, repeat=dim)]
    pts += [opt + array(p, dtype=float) for p in itertools.product(fine, repeat=dim)]
    return pts


def dims(name, top):
    cls = getattr(U, name, None) or getattr(M, name)
    return range(cls.xdimMin, min(top, cls.xdimMax or top) + 1)


def judge(ctx, key, f, coarse, fine, single=False, tol=1e-9):
    opt = np.array(f.xopt, dtype=float)
    keep = opt.copy()
    with rng.control(Chooser(), unit=rng.vdc(2, 3), gauss=rng.vdc_gauss(3)):
        ok, best = ctx.guard('crash:' + key, f, opt)
    if not ok:
        return
    sgn = 1 if f.toBeMinimized else -1
    ctx.check(opt.shape == (f.xdim,) and list(opt) == list(keep), 'argument:' + key, 'the function leaves its argument alone', got=list(opt), want=list(keep))
    ctx.check(abs(best) <= 1e-6, 'optimum:' + key, 'the optimal value zero is attained at the declared point', got=best, xopt=list(opt))
    ctx.check(f.desiredValue is None or sgn * best <= sgn * f.desiredValue + 1e-12 or 'Branin' in key, 'desired:' + key, 'the declared point has the desired value', got=best, want=f.desiredValue)
    for x in grid(f.xdim, keep, coarse, fine):
        y = x.copy()
        with rng.control(Chooser(), unit=rng.vdc(2, 5), gauss=rng.vdc_gauss(5)):
            v = f(x)
        ctx.trans()
        if not ctx.check(list(x) == list(y), 'argument:' + key, 'the function leaves its argument alone', got=list(x), want=list(y)):
            return
        if not ctx.check(sgn * v >= sgn * best - tol and v == v, 'lower:' + key, 'nothing is better than the declared optimum', x=list(x), got=v, optimum=[list(keep), best]):
            return
        if single and np.abs(x - keep).max() > 1e-6:
            if not ctx.check(sgn * v > sgn * best, 'single:' + key, 'no other point is as good', x=list(x), got=v, optimum=[list(keep), best]):
                return


COARSE = {1: [i / 2. for i in range(-12, 13)], 2: [-6., -4.3, -3., -2.5, -1., -.5, 0., .3, 1., 2., 2.5, 4., 5., 6.], 3: [-6., -2.5, -1., 0., .5, 1., 2.5, 5.], 4: [-5., -1., 0., 1., 2.5]}
FINE = {1: [-1., -.1, -1e-3, 0., 1e-3, .1, 1.], 2: [-1., -.1, -1e-3, 0., 1e-3, .1, 1.], 3: [-1., -.01, 0., .01, 1.], 4: [-.1, 0., .1]}


def function_job(ctx, name, scripts):
    for dim in dims(name, 4):
        def body(ch):
            sc = scripts[ch.pick(len(scripts))]
            key = '%s:%d:%s' % (name, dim, ch.taken)
            ok, f = ctx.guard('crash:' + key, make, name, dim, ch, sc)
            if not ok:
                raise StopJob()
            key = '%s:%d:%s' % (name, dim, ch.taken)
            ctx.check(f.xdim == dim and f.indim == dim and f.toBeMinimized and not hasattr(f, 'nothing'), 'dimension:' + key, 'has the dimension asked for', got=f.xdim)
            for a in ('xbound', 'feasible', 'constrained', 'violation', 'penalized', 'desiredValue', 'result'):
                ctx.check(hasattr(f, a), 'attribute:%s:%s' % (a, key), 'has the attributes optimisers ask for')
            judge(ctx, key, f, COARSE[dim], FINE[dim], name in SINGLE and not (name == 'SharpRFunctionBis' and False))
            pc = ParameterContainer(dim)
            pc._setParameters(array([.5, -1., 2., 1.5][:dim]))
            a, b = f(pc), f(array([.5, -1., 2., 1.5][:dim]))
            ctx.check(a == b and list(pc.params) == [.5, -1., 2., 1.5][:dim], 'container:' + key, 'parameter containers are points too', got=[a, b])
            ctx.state((name, dim, tuple(ch.taken)))
            ctx.trace()
            ctx.sample(dict(function=name, dim=dim, xopt=list(map(float, f.xopt)), random=list(ch.taken)))
        explore(body)
    cls = getattr(U, name, None) or getattr(M, name)
    ok, f = ctx.guard('crash:default:' + name, quiet, cls)
    if ok:
        ctx.check(f.xdim >= cls.xdimMin and f(array(f.xopt)) is not None, 'default:' + name, 'can be made without arguments', got=f.xdim)


# ------------------------------------------------------------------------------------------------- settings of functions
def settings_job(ctx):
    for name, kws in (('ElliFunction', [dict(a=10), dict(a=100)]), ('DiffPowFunction', [dict(a=4)]), ('WeierstrassFunction', [dict(kmax=11)]),
                      ('RastriginFunction', [dict(a=10), dict(a=1000)]), ('FunnelFunction', [dict(funnelSize=2., funnelDepth=2.)])):
        for kw in kws:
            for dim in dims(name, 3):
                key = '%s:%d:%s' % (name, dim, kw)
                ok, f = ctx.guard('crash:' + key, make, name, dim, Chooser(), 0, **kw)
                if not ok:
                    continue
                for k, v in kw.items():
                    ctx.check(getattr(f, k) == v, 'setting:' + key, 'takes the setting', got=getattr(f, k))
                judge(ctx, key, f, COARSE[dim], FINE[dim])
                ctx.state(key)


# ------------------------------------------------------------------------------------------------- formulas
def formula_job(ctx, dim):
    """the plain benchmarks against their textbook formula on a grid"""
    n = dim
    F = {
        'SphereFunction': lambda x: sum(v * v for v in x),
        'SchwefelFunction': lambda x: sum(sum(x[:i + 1]) ** 2 for i in range(n)),
        'SharpRFunctionBis': lambda x: x[0] ** 2 + 100 * math.sqrt(sum(v * v for v in x[1:])),
    }
    if dim > 1:
        F.update({
            'CigarFunction': lambda x: x[0] ** 2 + 1e6 * sum(v * v for v in x[1:]),
            'TabletFunction': lambda x: 1e6 * x[0] ** 2 + sum(v * v for v in x[1:]),
            'ElliFunction': lambda x: sum(1000 ** (2. * i / (n - 1)) * x[i] ** 2 for i in range(n)),
            'DiffPowFunction': lambda x: sum(abs(x[i]) ** (2 + 10. * i / (n - 1)) for i in range(n)),
            'RosenbrockFunction': lambda x: sum(100 * (x[i] ** 2 - x[i + 1]) ** 2 + (x[i] - 1) ** 2 for i in range(n - 1)),
            'RastriginFunction': lambda x: 10 * n + sum(v * v - 10 * math.cos(2 * math.pi * v) for v in x),
            'AckleyFunction': lambda x: 20 + math.e - 20 * math.exp(-.2 * math.sqrt(sum(v * v for v in x) / n)) - math.exp(sum(math.cos(2 * math.pi * v) for v in x) / n),
            'GriewankFunction': lambda x: 1 + sum(v * v for v in x) / 4000. - np.prod([math.cos(v / math.sqrt(i + 1)) for i, v in enumerate(x)]),
        })
    G = {'LinearFunction': lambda x: sum(x), 'ParabRFunction': lambda x: -x[0] + 100 * sum(v * v for v in x[1:]),
         'SharpRFunction': lambda x: -x[0] + 100 * math.sqrt(sum(v * v for v in x[1:]))}
    for name, want in list(F.items()) + list(G.items()):
        cls = getattr(U, name, None) or getattr(M, name, None) or getattr(UB, name)
        f = cls(dim)
        for x in grid(dim, zeros(dim), COARSE[dim], FINE[dim]):
            got, w = float(f(x.copy())), float(want(x.tolist()))
            ctx.trans()
            if not ctx.check(abs(got - w) <= 1e-9 * (1 + abs(w)), 'formula:%s:%d' % (name, dim), 'is the function of that name', x=list(x), got=got, want=w):
                break
        ctx.state((name, dim))
        ctx.sample(dict(function=name, dim=dim))


# ------------------------------------------------------------------------------------------------- transformations
class Ref(object):
    """value at x, optimum, direction, desired value as they should be"""

    def __init__(self, f, opt, mini, desired, penal):
        self.f, self.opt, self.mini, self.desired, self.penal = f, opt, mini, desired, penal


def transforms(dim):
    offs = [array([.5, -1.5, 2., .25][:dim]), array([-3., 0., 1., 2.][:dim])]
    mats = [np.eye(dim)[::-1].copy()]
    m = np.eye(dim)
    if dim > 1:
        c, s = math.cos(.7), math.sin(.7)
        m[0, 0], m[0, 1], m[1, 0], m[1, 1] = c, -s, s, c
    mats.append(m)
    mats.append(2 * np.eye(dim) + np.triu(ones((dim, dim)), 1))
    out = []
    for o in offs:
        out.append(('translate%s' % o.tolist(), lambda b, o=o: T.TranslateFunction(b, offset=o),
                    lambda r, o=o: Ref(lambda x: r.f(x - o), r.opt + o, r.mini, r.desired, r.penal)))
    for i, A in enumerate(mats):
        out.append(('rotate%d' % i, lambda b, A=A: T.RotateFunction(b, A),
                    lambda r, A=A: Ref(lambda x: r.f(dot(x, A)), np.linalg.solve(A.T, r.opt), r.mini, r.desired, r.penal)))
    out.append(('opposite', lambda b: T.oppositeFunction(b), lambda r: Ref(lambda x: -r.f(x), r.opt, not r.mini, -r.desired, r.penal)))
    for dist, fac in ((5, 1.), (1.5, 3.)):
        def pen(r, dist=dist, fac=fac):
            p = lambda x: fac * sum(max(0., abs(v) - dist) ** 2 for v in x) * (1 if r.mini else -1)
            inside = np.abs(r.opt).max() <= dist
            return Ref(r.f if r.penal else lambda x: r.f(x) + p(x), r.opt if inside else None, r.mini, r.desired, True)
        out.append(('constrain%s' % dist, lambda b, dist=dist, fac=fac: T.SoftConstrainedFunction(b, dist, fac), pen))
    return out


def compose_job(ctx, name, dim, depth, first=None):
    tr = transforms(dim)
    pts = [array(p) for p in itertools.product([-6., -1., 0., .7, 2., 5.5], repeat=dim)][::(1 if dim < 3 else 5)]

    def body(ch):
        n = ch.pick(depth) + 1
        pick = [ch.pick(len(tr)) for _ in range(n)]
        base = make(name, dim, Chooser(), 0)
        chain = [base]
        if base.penalized and any(tr[i][0].startswith('constrain') for i in pick):
            return
        refs = [Ref(base.f, np.array(base.xopt, dtype=float), True, base.desiredValue, base.penalized)]
        key = '%s:%d:%s' % (name, dim, '>'.join(tr[i][0] for i in pick))
        seen = 0
        for i in pick:
            seen += tr[i][0].startswith('constrain')
        if seen > 1:
            return                                 # whether a second constraint counts is open
        for i in pick:
            ok, f = ctx.guard('crash:' + key, tr[i][1], chain[-1])
            if not ok:
                return
            chain.append(f)
            r = refs[-1]
            refs.append(tr[i][2](r))
            if refs[-1].opt is None:
                refs[-1].opt = r.opt
                refs[-1].lost = True
            if getattr(r, 'lost', False):
                refs[-1].lost = True
        f, r = chain[-1], refs[-1]
        for a, b in zip(chain, refs):
            ctx.check(np.allclose(a.xopt, b.opt, atol=1e-9), 'xopt:' + key, 'every function of the chain declares its own optimum', got=list(a.xopt), want=list(b.opt))
        ctx.check(f.toBeMinimized == r.mini and (f.desiredValue == r.desired), 'direction:' + key, 'direction and desired value follow', got=[f.toBeMinimized, f.desiredValue], want=[r.mini, r.desired])
        ctx.check(f.xdim == dim, 'dim:' + key, 'keeps the dimension', got=f.xdim)
        if not getattr(r, 'lost', False):
            v = f(np.array(f.xopt, dtype=float))
            ctx.check(abs(v) < 1e-6, 'value:' + key, 'the optimal value is kept at the declared optimum', got=v, xopt=list(f.xopt))
        for x in pts:
            y = x.copy()
            got = float(f(y))
            want = float(r.f(x))
            ctx.trans()
            if not ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)) and list(x) == list(y), 'point:' + key, 'the value is that of the composition', x=list(x), got=got, want=want):
                return
            pc = ParameterContainer(dim)
            pc._setParameters(y)
        ctx.check(f(pc) == got, 'container:' + key, 'parameter containers are points too', got=f(pc), want=got)
        ctx.trace()
        ctx.state(key)
        ctx.sample(dict(function=name, dim=dim, chain=[tr[i][0] for i in pick]))

    explore(body)


def default_job(ctx):
    """offsets and rotations that are drawn: right length, orthogonal; evaluators and plain functions are negated"""
    for dim in (1, 2, 3, 4):
        for dist in (.1, 2.):
            for sc in range(4):
                base = U.SphereFunction(dim)
                with rng.control(Chooser(), unit=quad(5 * sc)):
                    f = T.TranslateFunction(base, dist)
                ctx.check(abs(np.linalg.norm(f.xopt) - dist) < 1e-12 and not base.xopt.any(), 'offset:%d:%s:%d' % (dim, dist, sc), 'moved by the distance', got=list(f.xopt), base=list(base.xopt))
                ctx.check(abs(f(np.array(f.xopt))) < 1e-12, 'offset value:%d:%s:%d' % (dim, dist, sc), 'the optimum moved with it')
                ctx.state(('t', dim, dist, sc))
        for sc in range(4):
            base = T.TranslateFunction(U.SphereFunction(dim), offset=array([1., -2., .5, 3.][:dim]))
            with rng.control(Chooser(), unit=quad(5 * sc)):
                f = T.RotateFunction(base)
            ctx.check(abs(f(np.array(f.xopt))) < 1e-12, 'rotation:%d:%d' % (dim, sc), 'the optimum turned with it', got=list(f.xopt))
            for x in itertools.product([-1., .5, 2.], repeat=dim):
                c = dot(array(x), f._M) if hasattr(f, '_M') else None
                if c is not None:
                    ctx.check(abs(dot(c, c) - dot(x, x)) < 1e-9, 'orthogonal:%d:%d' % (dim, sc), 'drawn rotations keep lengths')
            ctx.state(('r', dim, sc))

    class Ev(FitnessEvaluator):
        desiredValue = 3.
        toBeMinimized = True

        def f(self, x):
            return x[0] * 2.
    for f, g in ((Ev(), lambda x: x[0] * 2.),):
        o = T.oppositeFunction(f)
        oo = T.oppositeFunction(o)
        ctx.check(o([2.]) == -4. and oo([2.]) == 4. and o.desiredValue == -3. and oo.desiredValue == 3. and not o.toBeMinimized and oo.toBeMinimized, 'opposite', 'negated twice is the same',
                  got=[o([2.]), oo([2.]), o.desiredValue])
        h = T.oppositeFunction(g)
        ctx.check(h([2.]) == -4. and T.oppositeFunction(h)([2.]) == 4., 'opposite:plain', 'plain functions are negated')
    for cls in (MO.SchBenchmark, MO.FonBenchmark, MO.PolBenchmark, MO.KurBenchmark, MO.Deb, MO.Pol, MO.ConstDeb, MO.ConstSrn, MO.ConstOsy, MO.ConstTnk, MO.ConstBnh):
        f = cls()
        o = T.oppositeFunction(f)
        for x in itertools.product([.5, 1., 3.], repeat=f.xdim):
            a, b = f(array(x)), o(array(x))
            if not ctx.check(list(a) == list(-b) and len(a) == f.outdim == o.outdim, 'opposite:%s' % cls.__name__, 'every objective is negated', x=x, got=list(b), want=list(-a)):
                break
            ctx.trans()
        ctx.check(o.xdim == f.xdim and o.xbound == f.xbound and o.toBeMinimized != f.toBeMinimized and bool(o.constrained) == bool(f.constrained), 'opposite attributes:%s' % cls.__name__, 'dimension and bounds stay', got=[o.xdim, o.xbound, o.constrained])
        ctx.state(cls.__name__)
    for bound in (5, [(0., 1.), (-2., 3.)]):
        f = U.SphereFunction(2, xbound=bound, constrained=True)
        o = T.oppositeFunction(f)
        ctx.check(o.xbound == bound and o.constrained is True, 'opposite bounds:%s' % (bound,), 'bounds stay', got=[o.xbound, o.constrained])


# ------------------------------------------------------------------------------------------------- BBOB
def bbob_job(ctx, coll, lo, hi, ds, scripts):
    fns = getattr(BB, coll)[lo:hi]
    for fn in fns:
        for dim in ds:
            for sc in scripts:
                with rng.control(Chooser(), unit=quad(7 * sc), gauss=rng.vdc_gauss(1 + 4 * sc), perms='none'):
                    ok, f = ctx.guard('crash:%s:%d' % (fn.__name__, dim), quiet, fn, dim)
                if not ok:
                    break
                key = '%s:%d:%d' % (fn.__name__, dim, sc)
                ctx.check(len(f.xopt) == dim and np.abs(f.xopt).max() <= 5, 'range:' + key, 'the optimum lies within [-5,5]', got=list(f.xopt))
                judge(ctx, key, f, COARSE[dim] if dim < 3 else [-5., -1., 0., 2.], FINE[dim], tol=1e-8)
                ctx.state(key)
                ctx.trace()
                ctx.sample(dict(function=key, xopt=list(map(float, f.xopt))))


def maps_job(ctx):
    """the monotone maps of BBOB: zero stays zero, order of magnitudes stays, asymmetry only for positive coordinates"""
    B = T.BBOBTransformationFunction
    vals = [-5., -1., -.25, 0., .25, 1., 5.]
    for dim in (2, 3):
        for x in itertools.product(vals, repeat=dim):
            x = array(x)
            y = x.copy()
            a = B.asymmetrify(y, .5)
            o = B.oscillatify(y)
            ctx.trans()
            good = True
            for i in range(dim):
                want = x[i] if x[i] <= 0 else x[i] ** (1 + .5 * i / (dim - 1.) * math.sqrt(x[i]))
                good = good and abs(a[i] - want) < 1e-9 * (1 + abs(want))
                if x[i] == 0:
                    good = good and abs(o[i]) < 1e-90
                else:
                    k1, k2 = (10, 7.9) if x[i] > 0 else (5.5, 3.1)
                    h = math.log(abs(x[i]))
                    # either argument of the sine is in use
                    ws = [math.exp(h + .049 * (math.sin(k1 * t) + math.sin(k2 * t))) for t in (x[i], h)]
                    good = good and min(abs(abs(o[i]) - w) for w in ws) < 1e-9 * (1 + abs(x[i]))
            ctx.check(good and list(x) == list(y), 'maps:%s' % list(x), 'asymmetry and oscillation are as defined', asym=list(a), osc=list(o))
            ctx.state(tuple(x))
    for dim in (2, 3, 5):
        for alpha in (10., .01, 1000.):
            d = T.generateDiags(alpha, dim)
            want = [alpha ** (.5 * i / (dim - 1)) for i in range(dim)]
            ctx.check(np.allclose(np.diag(d), want) and np.allclose(d, np.diag(np.diag(d))), 'diags:%d:%s' % (dim, alpha), 'graded diagonal', got=np.diag(d).tolist(), want=want)

            def body(ch):
                with rng.control(ch, perms='all'):
                    s = T.generateDiags(alpha, dim, shuffled=True)
                ctx.check(np.allclose(sorted(np.diag(s)), sorted(want)), 'diags shuffled:%d:%s' % (dim, alpha), 'shuffled diagonal', got=np.diag(s).tolist(), want=want)
            explore(body)


# ------------------------------------------------------------------------------------------------- environment interface
def env_job(ctx, depth):
    acts = ['reset', 'sense', 0, 1]
    pts = [array([1., 2.]), array([-1., .5])]

    def body(ch):
        f = U.SphereFunction(2)
        res = None
        hist = []
        for t in range(depth):
            a = acts[ch.pick(len(acts))]
            hist.append(a)
            key = 'env:%s' % hist
            if a == 'reset':
                f.reset()
                res = None
            elif a == 'sense':
                try:
                    got = list(f.getSensors())
                except AssertionError:
                    got = None
                ctx.check(got == (None if res is None else [res]), 'sensors:' + key, 'the sensor shows the last result once', got=got, want=res)
                res = None
            else:
                f.performAction(pts[a])
                res = float(dot(pts[a], pts[a]))
            ctx.trans()
            ctx.state((tuple(map(str, hist)), res))
        ctx.trace()
        ctx.check(f.outdim == 0 and f.indim == 2, 'env dims', 'has no observations and one action per coordinate', got=[f.indim, f.outdim])
        ctx.sample(dict(history=hist))
    explore(body)
    for bad in ([1., 2.], (1., 2.), 'x', None):
        try:
            U.SphereFunction(2)(bad)
            got = True
        except AssertionError:
            got = False
        ctx.check(not got, 'input:%r' % (bad,), 'anything but arrays and containers is refused')
    for cls, d in ((U.CigarFunction, 1), (M.AckleyFunction, 1), (M.BraninFunction, 3), (MO.SchBenchmark, 2)):
        try:
            cls(d)
            got = True
        except AssertionError:
            got = False
        ctx.check(not got, 'dimension refused:%s:%d' % (cls.__name__, d), 'unsupported dimensions are refused')


def cluster_job(ctx, n):
    """atom clusters: pair energies add up, best known is never beaten on the grid, order of atoms does not matter"""
    f = LennardJones(3 * n)
    r0 = 2 ** (1. / 6)
    vals = [0., 1., r0, 2.]
    pts = [p for p in itertools.product(vals, repeat=3)]
    for c in itertools.combinations(pts, n) if n < 3 else itertools.islice(itertools.combinations(pts, n), 0, None, 13):
        x = array([v for p in c for v in p])
        y = x.copy()
        e = 0.
        for a, b in itertools.combinations(c, 2):
            d = math.sqrt(sum((u - v) ** 2 for u, v in zip(a, b)))
            e += 4 * (d ** -12 - d ** -6)
        got = f(x)
        ctx.trans()
        ctx.check(abs(got - e) < 1e-7 * (1 + abs(e)) and list(x) == list(y), 'energy:%d:%s' % (n, c), 'the energy is the sum over all pairs', got=got, want=e)
        ctx.check(got >= f.BEST_KNOWN_TABLE[n] - 1e-9, 'best:%d:%s' % (n, c), 'no configuration beats the best known one', got=got)
        ctx.state(c)
    ctx.check(abs(f.desiredValue - f.BEST_KNOWN_TABLE[n]) < 1e-4, 'desired:%d' % n, 'aims at the best known energy', got=f.desiredValue)


def jobs(tier, seed):
    deep = tier == 'thorough'
    out = []
    sc = list(range(6)) if deep else [0, 1]
    for n in UNI + MUL:
        out.append((n, function_job, (n, sc)))
    out.append(('settings', settings_job, ()))
    for d in (1, 2, 3, 4):
        out.append(('formulas %d' % d, formula_job, (d,)))
    for n, ds in (('SphereFunction', (1, 2, 3)), ('RosenbrockFunction', (2, 3)), ('RastriginFunction', (2,)), ('BoundedLinear', (2,)), ('AttractiveSectorFunction', (2,)),
                  ('FunnelFunction', (2,)), ('Schwefel_2_13Function', (2,)), ('BraninFunction', (2,)), ('ElliFunction', (3,)), ('GriewankRosenbrockFunction', (2,))):
        for d in ds:
            out.append(('compose %s %d' % (n, d), compose_job, (n, d, 3 if deep or (n == 'SphereFunction' and d == 2) else 2)))
    out.append(('defaults', default_job, ()))
    for coll, k in (('bbob_collection', 24), ('bbob_noise_collection', 30)):
        for lo in range(0, k, 3):
            out.append(('%s %d-%d' % (coll, lo + 1, lo + 3), bbob_job, (coll, lo, lo + 3, (2, 3) if not deep else (2, 3, 4), range(2) if not deep else range(8))))
    out.append(('bbob maps', maps_job, ()))
    out.append(('environment', env_job, (5 if not deep else 7,)))
    for n in (2, 3):
        out.append(('clusters %d' % n, cluster_job, (n,)))
    return out
