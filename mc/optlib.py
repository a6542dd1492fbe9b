"""Optimisers of the library with small settings, and a scripted objective that answers each new point from a menu."""

import logging
from numpy import array, ndarray
from mc import rng
from mc.choice import Chooser
import pybrain.optimization as po
from pybrain.structure.parametercontainer import ParameterContainer

logging.getLogger().setLevel(logging.CRITICAL)
logging.disable(logging.CRITICAL)


class Conf(object):
    def __init__(self, name, cls, dim, init, step, selfstop=False, slack=0, **kw):
        self.name, self.cls, self.dim, self.init, self.step, self.kw = name, cls, dim, init, step, kw
        self.selfstop = selfstop       # has convergence criteria of its own
        self.slack = slack             # evaluations after the target within one indivisible step without listener calls


def confs():
    C = Conf
    out = [
        C('HillClimber', po.HillClimber, 2, 1, 1),
        C('HillClimber:noisy', po.HillClimber, 1, 1, 2, evaluatorIsNoisy=True),
        C('StochasticHillClimber', po.StochasticHillClimber, 2, 1, 1),
        C('StochasticHillClimber:cold', po.StochasticHillClimber, 1, 1, 1, temperature=0.1),
        C('RandomSearch', po.RandomSearch, 2, 1, 1),
        C('WeightGuessing', po.WeightGuessing, 1, 1, 1),
        C('WeightMaskGuessing', po.WeightMaskGuessing, 2, 1, 1),
        C('NelderMead:1', po.NelderMead, 1, 0, 1, selfstop=True, slack=6),
        C('NelderMead:2', po.NelderMead, 2, 0, 1, selfstop=True, slack=8),
        C('ES:1,2', po.ES, 2, 2, 2, mu=1, lambada=2),
        C('ES:2+2', po.ES, 1, 4, 2, mu=2, lambada=2, elitism=True),
        C('ES:1+2', po.ES, 2, 3, 2, mu=1, lambada=2, elitism=True),
        C('ES:1,2:noisy', po.ES, 1, 2, 3, mu=1, lambada=2, evaluatorIsNoisy=True),
        C('GA:4', po.GA, 2, 0, 4, populationSize=4, topProportion=0.5),
        C('GA:3:elite', po.GA, 1, 0, 3, populationSize=3, topProportion=0.7, elitism=True),
        C('PSO:2', po.ParticleSwarmOptimizer, 2, 0, 2, size=2),
        C('PSO:3', po.ParticleSwarmOptimizer, 1, 0, 3, size=3),
        C('MemeticSearch', po.MemeticSearch, 2, 1, 2, localSteps=2),
        C('InverseMemeticSearch', po.InverseMemeticSearch, 2, 1, 2, localSteps=2),
        C('InnerMemeticSearch', po.InnerMemeticSearch, 2, 1, 2, mu=1, lambada=1, localSteps=2),
        C('InnerInverseMemeticSearch', po.InnerInverseMemeticSearch, 2, 1, 2, mu=1, lambada=1, localSteps=2),
        C('FiniteDifferences', po.FiniteDifferences, 2, 0, 3, batchSize=3),
        C('SimpleSPSA', po.SimpleSPSA, 2, 0, 2),
        C('PGPE:local', po.PGPE, 2, 0, 2, batchSize=2),
        C('PGPE:global', po.PGPE, 2, 0, 2, batchSize=2, exploration='global'),
        C('CMAES:1', po.CMAES, 1, 0, 4, selfstop=True),
        C('CMAES:2', po.CMAES, 2, 0, 6, selfstop=True),
        C('SNES', po.SNES, 2, 0, 3, batchSize=3),
        C('SNES:1', po.SNES, 1, 0, 4),
        C('XNES', po.XNES, 2, 0, 3, batchSize=3),
        C('XNES:mixing', po.XNES, 2, 0, 3, batchSize=3, importanceMixing=True, selfstop=True),
        C('Rank1NES', Rank1(), 2, 0, 5),
        C('FEM', po.FEM, 2, 1, 1, windowSize=2, batchSize=1),
        C('VanillaNES', po.VanillaGradientEvolutionStrategies, 2, 0, 3, batchSize=3, importanceMixing=False, selfstop=True),
        C('VanillaNES:mixing', po.VanillaGradientEvolutionStrategies, 1, 0, 3, batchSize=3, selfstop=True),
        C('VanillaNES:online', po.VanillaGradientEvolutionStrategies, 1, 0, 3, batchSize=3, online=True, selfstop=True),
        C('ExactNES', po.ExactNES, 2, 0, 3, batchSize=3, importanceMixing=False, selfstop=True),
        C('OriginalNES', po.OriginalNES, 1, 0, 3, batchSize=3, importanceMixing=False, selfstop=True),
    ]
    return out


def Rank1():
    from pybrain.optimization.distributionbased.rank1 import Rank1NES
    return Rank1NES


def vec(x):
    """the point as a tuple, from whatever form it has"""
    if isinstance(x, ndarray):
        return tuple(float(v) for v in x)
    return tuple(float(v) for v in x.params)


class Objective(object):
    """answers each new point with the next value of `answers` (a callable), the same point always the same"""

    def __init__(self, answers, kinds=None):
        self.answers, self.memo, self.rec, self.kinds, self.changed = answers, {}, [], set(), False

    def __call__(self, x):
        self.kinds.add(type(x).__name__)
        p = vec(x)
        if p not in self.memo:
            self.memo[p] = self.answers(p)
        self.rec.append((p, self.memo[p]))
        return self.memo[p]


def start(dim, kind, values=None):
    vals = (values or [0.75, -1.25, 2.0])[:dim]
    if kind == 'list':
        return list(vals)
    if kind == 'vec':
        return array(vals, dtype=float)
    if kind == 'int':
        return array([int(round(v)) for v in vals])
    pc = ParameterContainer(dim)
    pc._setParameters(array(vals, dtype=float))
    return pc


def draws(n=0, units=None):
    """the scripted random stream number n, discrete draws always the first alternative"""
    return rng.control(Chooser(), unit=units or rng.vdc(2, 1 + 3 * n), gauss=rng.vdc_gauss(1 + 3 * n))


_BY = {}


def withdim(name, dim):
    """the configuration `name` in another dimension"""
    if not _BY:
        _BY.update((c.name, c) for c in confs())
    b = _BY[name]
    c = Conf(b.name, b.cls, dim, b.init, b.step, b.selfstop, b.slack, **b.kw)
    c.step = stepsize(name, dim)
    return c


def stepsize(name, dim):
    if not _BY:
        _BY.update((c.name, c) for c in confs())
    if name.startswith('CMAES'):
        return 4 + int(3 * __import__('math').log(dim))
    if name.startswith('NelderMead'):
        return 2
    if name == 'SNES:1' or name == 'Rank1NES':
        return 4 + int(3 * __import__('math').log(dim))
    return _BY[name].step
