"""Every history of training results through NNregression and NNclassifier (feed-forward and recurrent), with every combination of
test set, validation set, epoch increment, epoch limit and convergence setting; the trainer is a stand-in which puts the network
into the next scripted state.  The experiment collector over every history of results."""

import csv, itertools, os, pickle, shutil, tempfile
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.supervised import BackpropTrainer
from pybrain.datasets import SupervisedDataSet, ClassificationDataSet, SequenceClassificationDataSet
from pybrain.tools.neuralnets import NNregression, NNclassifier
from pybrain.tools.example_tools import ExTools

ASSUMPTIONS = ['the trainer is a stub that sets the output bias, so that training and test error follow a script', 'no plots are drawn',
               'when increments do not divide the epoch limit the last increment completes it', 'errors compared up to 1e-9']


def outputBias(net):
    for con in net.connections[net['bias']]:
        if con.outmod is net['out']:
            return con
    raise KeyError('no output bias')


class Script(BackpropTrainer):
    """Training brings the network into the next state of a script."""
    choose = states = None

    def __init__(self, module, **kw):
        BackpropTrainer.__init__(self, module, **kw)
        self.seen, self.epochs = [], []

    def trainEpochs(self, epochs=1, *a, **kw):
        i = Script.choose.pick(len(Script.states))
        self.module.params[:] = 0.
        outputBias(self.module).params[:] = Script.states[i]
        self.seen.append(i)
        self.epochs.append(epochs)


def expect(errs, trn, inc, maxepochs, conv, tested):
    """Number of increments, index of the best increment (None without test set) for the errors of the increments in order."""
    n, best, since = 0, None, 0
    while n * inc < maxepochs:
        if n == len(errs):
            return n + 1, best
        e = errs[n]
        n += 1
        if tested:
            if best is None or e < errs[best]:
                best, since = n - 1, 0
            else:
                since += 1
            if conv > 0 and since >= conv:
                break
    return n, best


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1., abs(y)) for x, y in zip(a, b))


def verify(ctx, tool, table, inc, maxepochs, conv, tds, vds, d, what):
    """table[i] = (training error, test error) of state i."""
    tr = tool.Trainer
    seen = tr.seen
    detail = dict(kind=what, seen=list(seen), inc=inc, maxepochs=maxepochs, conv=conv, tds=tds, vds=vds)
    n, best = expect([table[i][1] for i in seen], None, inc, maxepochs, conv, tds) if len(seen) else (0, None)
    ctx.check(len(seen) == n, 'increments', 'training ends after a wrong number of increments', want=n, **detail)
    ctx.check(tr.epochs == [inc] * len(seen), 'increment', 'wrong number of epochs in an increment', **detail)
    keep = seen[best] if vds and best is not None else seen[-1]
    ctx.check(same(list(outputBias(tr.module).params), list(Script.states[keep])), 'final', 'the network does not end up with the expected parameters', want=keep,
              got=list(outputBias(tr.module).params), **detail)
    xs, ys, vs = tool.trainCurve
    ctx.check(list(xs) == [inc * k for k in range(n + 1)], 'curve-x', 'wrong epochs in the training curve', got=list(xs), **detail)
    ctx.check(same(list(ys)[1:], [table[i][0] for i in seen]), 'curve-train', 'wrong training errors', got=list(ys), **detail)
    if tds:
        ctx.check(same(list(vs)[1:], [table[i][1] for i in seen]), 'curve-test', 'wrong test errors', got=list(vs), **detail)
    f = os.path.join(d, 'curve.csv')
    ok, _ = ctx.guard('curve-crash', tool.saveTrainingCurve, f)
    if ok:
        with open(f, newline='') as fp:
            rows = [[float(x) for x in r] for r in csv.reader(fp)]
        want = [[inc * (k + 1), table[i][0]] + ([table[i][1]] if tds else []) for k, i in enumerate(seen)]
        ctx.check(len(rows) == len(want) and all(same(a, b) for a, b in zip(rows, want)), 'curve-file', 'the saved curve is not the training curve', got=rows, want=want,
                  **detail)


def regress(ctx, maxinc, deep, patience=False):
    states = [[1.], [2.], [3.]]
    d = tempfile.mkdtemp()
    try:
        for inc, limit, conv, tds, vds in itertools.product((1, 2), range(1, maxinc + 1), (0, 1, 2, 3), (False, True), (False, True)):
            if patience:
                if not (inc == 1 and limit == maxinc and conv == 2 and tds):
                    continue
            elif (not tds and conv == 2) or (inc == 2 and conv == 3 and not deep):
                continue
            for odd in (0, 1) if inc == 2 else (0,):
                def run(ch):
                    ctx.trans()
                    Script.choose, Script.states = ch, states
                    def data(targets):
                        ds = SupervisedDataSet(1, 1)
                        for t in targets:
                            ds.addSample([1.], [t])
                        return ds
                    kw = dict(epoinc=inc, maxepochs=limit * inc - odd)
                    trn, tst = [0., 1.], [2.25, 2.25, 2.25]
                    if tds:
                        kw['TDS'] = data(tst)
                    if vds:
                        kw['VDS'] = data([0.])
                    tool = NNregression(data(trn), hidden=1, **kw)
                    tool.setupNN(trainer=Script)
                    ok, _ = ctx.guard('regression-crash', tool.runTraining, convergence=conv)
                    if ok:
                        table = [tuple(sum((b - t) ** 2 for t in ts) / len(ts) for ts in (trn, tst)) for (b,) in states]
                        verify(ctx, tool, table, inc, limit * inc - odd, conv, tds, vds, d, 'regression')
                        ctx.outcome(tuple(tool.Trainer.seen))
                        ctx.state((inc, limit, odd, conv, tds, vds, tuple(tool.Trainer.seen)))
                        ctx.trace()
                explore(run)
    finally:
        shutil.rmtree(d)


def classify(ctx, maxinc, recurrent, deep, patience=False):
    states = [[4., 0., 0.], [0., 4., 0.], [0., 0., 4.]]
    d = tempfile.mkdtemp()
    try:
        for (trn, tst), inc, limit, conv, tds, vds in itertools.product([([0, 1, 1, 2], [0, 1, 1, 2, 2, 2]), ([0, 0, 1, 2, 2], [1, 1, 1, 2])], (1, 2), range(1, maxinc + 1),
                                                                       (0, 1, 2), (False, True), (False, True)):
            if patience:
                if not (inc == 1 and limit == maxinc and conv == 2 and tds):
                    continue
            elif inc == 2 and (limit > 2 or conv == 1) or (not tds and conv == 2):
                continue
            def run(ch):
                ctx.trans()
                Script.choose, Script.states = ch, states
                def data(targets):
                    if recurrent:
                        ds = SequenceClassificationDataSet(1, 1, nb_classes=3)
                        for t in targets:
                            ds.newSequence()
                            for k in range(1 + t):
                                ds.addSample([1. + k], [t])
                    else:
                        ds = ClassificationDataSet(1, 1, nb_classes=3)
                        for t in targets:
                            ds.addSample([1.], [t])
                    return ds
                kw = dict(epoinc=inc, maxepochs=limit * inc)
                if tds:
                    kw['TDS'] = data(tst)
                if vds:
                    kw['VDS'] = data([0, 1, 2])
                tool = NNclassifier(data(trn), hidden=1, **kw)
                if recurrent:
                    tool.setupRNN(trainer=Script)
                else:
                    tool.setupNN(trainer=Script)
                ok, _ = ctx.guard('classifier-crash', tool.runTraining, convergence=conv)
                if ok:
                    table = [tuple(100. * sum(t != i for t in ts) / len(ts) for ts in (trn, tst)) for i in range(3)]
                    verify(ctx, tool, table, inc, limit * inc, conv, tds, vds, d, 'recurrent' if recurrent else 'classifier')
                    ctx.check([list(x) for x in tool.DS['target']][-1] == [0., 0., 1.], 'one-of-many', 'the targets are not one-of-many')
                    ctx.state((recurrent, tuple(trn), inc, limit, conv, tds, vds, tuple(tool.Trainer.seen)))
                    ctx.outcome(tuple(tool.Trainer.seen))
                    ctx.trace()
            explore(run)
    finally:
        shutil.rmtree(d)


class Learner(object):
    bestEvaluation = 1.

    def _bestFound(self):
        return [0.], 1.


class Agent(object):
    learner = Learner()


def collector(ctx, depth):
    """Two collectors driven in every interleaving: each returns exactly its own results."""
    import io, contextlib
    d = tempfile.mkdtemp()
    try:
        def run(ch):
            ctx.trans()
            tools = [ExTools(kind='optimizer'), ExTools(kind='learner')]
            tools[0].agent = Agent()
            want = [([], []), ([], [])]
            log = []
            for _ in range(depth):
                k = ch.pick(2)
                op = ch.pick(3)
                log.append((k, op))
                with contextlib.redirect_stdout(io.StringIO()):
                    if op < 2:
                        res = [[1., 2.], [5.]][op] if k == 0 else [3., 4.][op]
                        ok, _ = ctx.guard('collector-crash', tools[k].printResults, res, 0, 0)
                        want[k][0].append([1.5, 5.][op] if k == 0 else res)
                    else:
                        ok, _ = ctx.guard('collector-crash', tools[k].addExps)
                        want[k][1].append(list(want[k][0]))
                        del want[k][0][:]
                if not ok:
                    return
                for i in (0, 1):
                    ctx.check(list(tools[i].rl) == want[i][0] and [list(r) for r in tools[i].rll] == want[i][1], 'collector', 'a collector holds wrong results', log=log, which=i,
                              got=(list(tools[i].rl), [list(r) for r in tools[i].rll]), want=want[i])
                ctx.state(tuple(log))
            f = os.path.join(d, 'r.dat')
            for i, save in ((0, tools[0].saveResults), (1, tools[1].saveWeights)):
                ok, _ = ctx.guard('collector-save', save, f, tools[i].rll)
                if ok:
                    with open(f, 'rb') as fp:
                        ctx.check(pickle.load(fp) == want[i][1], 'collector-file', 'the saved results differ', log=log)
            ctx.trace()
        explore(run)
    finally:
        shutil.rmtree(d)


def jobs(tier, seed):
    deep = tier != 'quick'
    return [('regression', regress, (5 if deep else 4, deep)), ('classifier', classify, (5 if deep else 4, False, deep)), ('recurrent', classify, (4 if deep else 3, True, deep)),
            # long enough for the patience to start over at an improvement and run out again
            ('regression-patience', regress, (7 if deep else 6, deep, True)), ('classifier-patience', classify, (6 if deep else 5, False, deep, True)),
            ('collector', collector, (5 if deep else 4,))]
