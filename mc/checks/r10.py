"""Every built-in player of the real capture game, Go-Moku and Pente, on every position of a bounded move tree (all of the
2x2 capture game with and without suicide, 3x3 to a depth, Go-Moku/Pente opening trees, every line of four, every
almost-full board, square and not), for both colours and every random draw; killing and suicide are decided by playing
the move on a copy of the game. The real Tournament over a scripted game: every outcome pattern (win/loss/draw) of up to
3 agents, repeated and continued, with illegal attempts, and over every random play-out of the 2x2 capture game. The real
two-player tasks over every play-out of the 2x2 capture game and every scripted Go-Moku/Pente outcome, in every setting."""

import copy
import itertools
from numpy import array
from mc.choice import explore, Chooser
from mc import rng
from mc.core import StopJob
from mc.checks import r09
from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
from pybrain.rl.environments.twoplayergames.twoplayergame import TwoPlayerGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame
from pybrain.rl.environments.twoplayergames.capturegameplayers.randomplayer import RandomCapturePlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers.nonsuicide import NonSuicidePlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers.killing import KillingPlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers.captureplayer import CapturePlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers import moduledecision as cap_md
from pybrain.rl.environments.twoplayergames.gomokuplayers.randomplayer import RandomGomokuPlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers.killing import KillingGomokuPlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers.gomokuplayer import GomokuPlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers import moduledecision as gom_md
from pybrain.rl.environments.twoplayergames.tasks.capturetask import CaptureGameTask
from pybrain.rl.environments.twoplayergames.tasks.gomokutask import GomokuTask
from pybrain.rl.environments.twoplayergames.tasks.pentetask import PenteTask
from pybrain.rl.environments.twoplayergames.tasks.relativegomokutask import RelativeGomokuTask
from pybrain.rl.environments.twoplayergames.tasks.relativetask import RelativeCaptureTask
from pybrain.rl.experiments.tournament import Tournament

ASSUMPTIONS = ['players are asked only where their colour has a legal move',
               'the module deciding for a player has one non-negative output per board position',
               'the players that talk to an external server and the handicap task are not exercised']
UNITS = [0.0, 0.4, 1 - 2.0 ** -53]


def req(ctx, cond, msg, cfg, detail):
    if not cond:
        ctx.fail('%s:%s' % (msg, cfg), msg, input=cfg, **({'observed': detail} if detail is not None else {}))
        raise StopJob()


def step(ctx):
    ctx.state(len(ctx._states))


class StubModule(object):
    """stands for a network: fixed preferences per board position, remembers its input"""

    params = inputbuffer = outputbuffer = None

    def __init__(self, prefs):
        self.prefs, self.seen = array(prefs), None

    def reset(self):
        pass

    def activate(self, x):
        self.seen = [float(v) for v in x]
        return self.prefs.copy()


def positions_of(g):
    return sorted(g.b)


def try_move(g, c, p):
    """(legal, winner) of the move, on a copy"""
    h = copy.deepcopy(g)
    ok = h.doMove(c, p)
    return bool(ok), h.winner


def ask(ctx, make, g, c, outs, where, judge):
    """every answer of the player over all its draws"""
    before = dict(g.b)

    def body(ch):
        with rng.control(ch, unit=UNITS):
            pl = make()
            try:
                a = pl.getAction()
            except Exception as e:
                req(ctx, False, '%s raised' % where[0], where[1] + [c], {'error': repr(e)})
                return
        ctx.transitions += 1
        req(ctx, g.b == before, '%s changed the board' % where[0], where[1] + [c], None)
        a = list(a)
        req(ctx, len(a) == 2 and a[0] == c, '%s moves for another colour' % where[0], where[1] + [c], {'action': repr(a)})
        p = tuple(int(v) for v in a[1])
        req(ctx, outs.get(p, (False, None))[0], '%s answers an illegal move' % where[0], where[1] + [c],
                    {'move': p, 'legal': sorted(q for q in outs if outs[q][0])})
        judge(pl, p)
        ctx.outcome((where[0], c, p))
        ctx.trace()

    explore(body)


def prefs_for(g, variant):
    ps = positions_of(g)
    n = len(ps)
    if variant == 0:
        return [0.1 + 0.8 * ((7 * k + 3) % n) / n for k in range(n)]
    if variant == 1:
        return [0.5] * n
    return [1.0 if g.b[p] != 0 else 0.0 for p in ps]      # prefers the taken points


def check_players(ctx, g, c, game, where, full):
    outs = {p: try_move(g, c, p) for p in g.b}
    ctx.sample(dict(position=where, colour=c, outcomes=[[list(p), o[0], o[1]] for p, o in sorted(outs.items())]))
    legal = [p for p in outs if outs[p][0]]
    if not legal:
        return
    wins = [p for p in legal if outs[p][1] == c]
    safe = [p for p in legal if outs[p][1] != -c]

    def none(pl, p):
        pass

    def kill(pl, p):
        req(ctx, not wins or p in wins, 'a killing player does not take a win', where + [c], {'move': p, 'wins': wins})
        req(ctx, not safe or p in safe, 'a killing player commits suicide', where + [c], {'move': p})

    def nosuicide(pl, p):
        req(ctx, not safe or p in safe, 'a non-suicide player commits suicide', where + [c], {'move': p, 'safe': safe})

    if game == 'capture':
        ask(ctx, lambda: RandomCapturePlayer(g, c), g, c, outs, ('the random capture player', where), none)
        ask(ctx, lambda: NonSuicidePlayer(g, c), g, c, outs, ('the non-suicide capture player', where), nosuicide)
        ask(ctx, lambda: KillingPlayer(g, c), g, c, outs, ('the killing capture player', where), kill)
        MD = cap_md.ModuleDecidingPlayer
    else:
        ask(ctx, lambda: RandomGomokuPlayer(g, c), g, c, outs, ('the random Go-Moku player', where), none)
        ask(ctx, lambda: KillingGomokuPlayer(g, c), g, c, outs, ('the killing Go-Moku player', where), kill)
        MD = gom_md.ModuleDecidingPlayer
    ps = positions_of(g)
    for variant in ((0, 1, 2) if full else (0, 2)):
        prefs = prefs_for(g, variant)
        best = max(prefs[ps.index(p)] for p in legal)

        def module(pl, p):
            want = []
            for q in ps:
                want += [float(g.b[q] == -c), float(g.b[q] == c)]
            req(ctx, pl.module.seen == want, "the deciding module does not see the board from the player's side",
                        where + [c], {'seen': pl.module.seen, 'want': want})
            if pl.temperature == 0:
                req(ctx, prefs[ps.index(p)] == best, 'the greedy module player does not play its best legal move',
                            where + [c], {'move': p})

        ask(ctx, lambda: MD(StubModule(prefs), g, c, greedySelection=True), g, c, outs, ('the greedy module player', where), module)
        if full or variant == 2:
            for T in (1.0, 0.02):
                ask(ctx, lambda: MD(StubModule(prefs), g, c, temperature=T), g, c, outs, ('the Gibbs module player', where), module)


def capture_job(ctx, size, suicide, depth, full):
    start = CaptureGame(size, suicideenabled=suicide)
    seen = set()
    frontier = [(start, 1, [])]
    while frontier:
        g, c, path = frontier.pop()
        key = (tuple(g.b[p] for p in positions_of(g)), c)
        if key in seen:
            continue
        seen.add(key)
        step(ctx)
        for col in (1, -1):
            check_players(ctx, g, col, 'capture', [size, suicide, [list(p) for p in path]], full)
        if len(path) >= depth:
            continue
        for p in positions_of(g):
            h = copy.deepcopy(g)
            if h.doMove(c, p) and not h.gameOver():
                frontier.append((h, -c, path + [p]))


def fill(g, stones):
    """stones placed one by one with the game's own move, which must not end it"""
    for c, p in stones:
        if not g.doMove(c, p) or g.gameOver():
            return False
    return True


def gomoku_job(ctx, cls, size, part, full):
    game = 'gomoku' if cls is GomokuGame else 'pente'
    cells = [(i, j) for i in range(size[0]) for j in range(size[1])]
    todo = []
    if part == 'tree':
        todo = [[]] + [[(1, p)] for p in cells] + [[(1, cells[k]), (-1, q)] for k in (0, len(cells) // 2 + 1, len(cells) - 2) for q in cells]
    elif part == 'lines':
        for p in cells:
            for d in r09.DIRS4:
                line = [(p[0] + k * d[0], p[1] + k * d[1]) for k in range(5)]
                if all(q in cells for q in line):
                    for hole in range(5):
                        for c in (1, -1):
                            todo.append([(c, q) for k, q in enumerate(line) if k != hole])
    else:
        # almost full: a colouring without five in a row
        col = lambda p: 1 if (p[0] // 2 + p[1]) % 2 else -1
        for a in range(len(cells)):
            b = (a + size[1]) % len(cells)
            todo.append([(col(q), q) for k, q in enumerate(cells) if k not in (a, b)])
            if full:
                todo.append([(col(q), q) for k, q in enumerate(cells) if k != a])
    for stones in todo:
        g = cls(size)
        if not fill(g, [(c, p) for c, p in stones if g.b[p] == 0]):
            continue
        step(ctx)
        for col in (1, -1):
            check_players(ctx, g, col, 'gomoku', [game, list(size), [[c, list(p)] for c, p in stones]], full)


# ---- tournaments ----------------------------------------------------------------------------------
class ScriptGame(TwoPlayerGame):
    """a game whose players 'play' the outcome: each game lasts `length` moves"""

    startcolor = 1

    def __init__(self, plan):
        self.plan = plan            # outcome of each game: 0 first wins, 1 second wins, 2 draw
        self.games = -1
        self.log = []
        self.reset()
        self.games = -1

    def reset(self):
        TwoPlayerGame.reset(self)
        self.games += 1
        self.n = 0

    def isLegal(self, c, a):
        return a != 'bad'

    def doMove(self, c, a):
        self.log.append((self.games, c, a))
        self.n += 1
        if self.n == 2 + self.games % 2:
            self.winner = [self.startcolor, -self.startcolor, self.DRAW][self.plan(self.games)]


class ScriptAgent(object):
    def __init__(self, name, bad=0):
        self.name, self.bad, self.left, self.episodes = name, bad, 0, 0
        self.color = None

    def newEpisode(self):
        self.episodes += 1
        self.left = self.bad

    def getAction(self):
        if self.left:
            self.left -= 1
            return [self.color, 'bad']
        self.left = self.bad
        return [self.color, self.name]


def expected_elo(agents, results, start, k):
    elos = dict((a, start.get(a.name, 1500)) for a in agents)
    for i, a in enumerate(agents):
        for b in agents[i + 1:]:
            out = results[a, b] + results[b, a]
            s = sum(1.0 if w is a else 0.5 if w == 'draw' else 0.0 for w in out)
            est = len(out) / (1.0 + 10 ** ((elos[b] - elos[a]) / 400.0))
            elos[a], elos[b] = elos[a] + k * (s - est), elos[b] - k * (s - est)
    return elos


def tournament_job(ctx, n, rounds, forced):
    """rounds: list of organize(repeat) calls"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    total = sum(rounds) * len(pairs)
    for plan in itertools.product((0, 1, 2), repeat=total):
        ctx.trace()
        step(ctx)
        cfg = {'agents': n, 'rounds': list(rounds), 'outcomes': list(plan), 'forced': forced}
        ctx.sample(cfg)
        env = ScriptGame(lambda k: plan[k] if 0 <= k < total else 2)
        agents = [ScriptAgent('a%d' % i, bad=(i if forced else 0)) for i in range(n)]
        t = Tournament(env, agents)
        t.forcedLegality = forced
        req(ctx, all(a.game is env for a in agents), 'agents are not told the game', cfg, None)
        env.games = -1
        for r in rounds:
            t.organize(r)
        req(ctx, t.numGames == total and env.games == total - 1, 'wrong number of games', cfg, {'numGames': t.numGames, 'played': env.games + 1})
        req(ctx, t.rounds == sum(rounds), 'wrong number of rounds', cfg, {'rounds': t.rounds})
        # who played each game, from the moves themselves
        want = dict(((agents[i], agents[j]), []) for i, j in pairs)
        byname = dict((a.name, a) for a in agents)
        for k in range(total):
            moves = [(c, a) for gme, c, a in env.log if gme == k]
            ok = len(moves) == 2 + k % 2 and [c for c, a in moves] == [1, -1, 1][:len(moves)] and all(a in byname for c, a in moves)
            req(ctx, ok and moves[0][1] != moves[1][1] and (len(moves) < 3 or moves[2][1] == moves[0][1]),
                        'a game is not played alternately by its two players, the first with the starting colour', dict(cfg, game=k), {'moves': moves})
            p1, p2 = byname[moves[0][1]], byname[moves[1][1]]
            want[p1, p2].append([p1, p2, 'draw'][plan[k]])
        for (a, b), w in want.items():
            req(ctx, len(w) == sum(rounds), 'an ordered pairing is not played the requested number of times', cfg, {'pair': (a.name, b.name), 'games': len(w)})
            got = t.results.get((a, b), [])
            nm = lambda l: [x if isinstance(x, str) else x.name for x in l]
            req(ctx, nm(got) == nm(w), 'a result is credited wrongly', cfg, {'pair': (a.name, b.name), 'got': nm(got), 'want': nm(w)})
        req(ctx, set(t.results) == set(want), 'results list pairings that were not played', cfg, None)
        req(ctx, all(a.episodes == 2 * (n - 1) * sum(rounds) for a in agents), 'agents are not told of every new game', cfg, None)
        lines = str(t).split('\n')
        for (a, b), w in want.items():
            line = [l for l in lines if l.strip().startswith(a.name + ' ') and l.rstrip().endswith(' ' + b.name)]
            won, lost = sum(1 for x in w if x is a), sum(1 for x in w if x is b)
            req(ctx, len(line) == 1 and 'won %d times' % won in line[0] and 'lost %d times' % lost in line[0],
                        'the printed table miscounts', cfg, {'line': line, 'won': won, 'lost': lost})
        start = {}
        if plan[0] == 1:
            agents[0].elo = start['a0'] = 1700.0
        if plan[-1] == 2:
            agents[-1].elo = start[agents[-1].name] = 1333.0
        for k in ((32, 10) if plan[0] != 0 else (32,)):
            cur = dict((a.name, getattr(a, 'elo', 1500)) for a in agents)
            e = expected_elo(agents, want, cur, k)
            got = t.eloScore(k=k)
            req(ctx, all(abs(got[a] - e[a]) < 1e-9 * 1500 and getattr(a, 'elo', None) == got[a] for a in agents),
                        'ratings do not count every game once for the right agent', cfg, {'got': [got[a] for a in agents], 'want': [e[a] for a in agents]})
        if plan[-1] == 0:
            t.reset()
            req(ctx, not t.results and t.numGames == 0 and t.rounds == 0, 'reset keeps earlier games', cfg, None)


def real_tournament_job(ctx, players):
    mk = {'random': RandomCapturePlayer, 'nonsuicide': NonSuicidePlayer, 'killing': KillingPlayer}

    def body(ch):
        step(ctx)
        with rng.control(ch):
            env = CaptureGame(2)
            ags = [mk[p](env, name=p + str(i)) for i, p in enumerate(players)]
            t = Tournament(env, ags)
            games, orig_reset, orig_act = [], env.reset, env.performAction

            def reset():
                games.append([])
                orig_reset()

            def act(a):
                who = [x for x in ags if x.color == a[0] and x is turn[0]]
                orig_act(a)
                games[-1].append((turn[0], a[0], env.winner))

            turn = [None]
            for x in ags:
                def wrap(x=x, f=x.getAction):
                    turn[0] = x
                    return f()
                x.getAction = wrap
            env.reset, env.performAction = reset, act
            t.organize(1)
        ctx.transitions += sum(len(g) for g in games)
        log = [[(x.name, c, w) for x, c, w in g] for g in games]
        req(ctx, len(games) == len(ags) * (len(ags) - 1), 'wrong number of games', players, None)
        for g in games:
            p1, p2 = g[0][0], g[1][0]
            win = g[-1][2]
            req(ctx, win is not None and all(w is None for _, _, w in g[:-1]), 'a counted game is not finished, or goes on after its end', players, {'log': log})
            got = t.results.get((p1, p2), [])
            wp = [x for x, c, w in g if c == win][0]
            req(ctx, len(got) == 1 and got[0] is wp, 'a result is credited wrongly', players, {'log': log})

    r = explore(body)
    ctx.trace(r.runs)


# ---- tasks ----------------------------------------------------------------------------------------
def watch(env):
    """record every game played on env: list of [(colour), ...], winner, moves"""
    games = []
    oreset, oact = env.reset, env.performAction

    def reset():
        oreset()
        games.append({'colors': [], 'winner': None, 'moves': 0})

    def act(a):
        n = env.movesDone
        oact(a)
        games[-1]['colors'].append(a[0])
        games[-1]['winner'] = env.winner
        games[-1]['moves'] = env.movesDone
        games[-1].setdefault('done', []).append(env.movesDone - n)

    env.reset, env.performAction = reset, act
    return games


def judge_task(ctx, task, games, mine, ngames, value, settings, cfg, min_max, draw):
    started = [g for g in games if g['colors']]
    req(ctx, len(started) == ngames, 'wrong number of games', cfg, {'games': len(started)})
    tot = 0.0
    ctx.sample(dict(settings=cfg, games=started))
    ctx.outcome(repr([(g['winner'], g['moves']) for g in started]))
    for k, g in enumerate(started):
        c = mine[k]
        want = [(1, -1)[i % 2] for i in range(len(g['colors']))]
        req(ctx, g['colors'] == want and all(d == 1 for d in g['done']), 'moves do not alternate from black', cfg, g)
        req(ctx, g['winner'] is not None, 'an unfinished game is counted', cfg, g)
        first_opp = settings['opponentStart'] != (settings['alternateStarting'] and k % 2 == 1)
        req(ctx, c == (-1 if first_opp else 1), 'the wrong side starts', dict(cfg, game=k), g)
        if g['winner'] == draw:
            continue
        r = 1.0 - settings['numMovesCoeff'] * (g['moves'] - min_max[0]) / float(min_max[1] - min_max[0])
        tot += r if g['winner'] == c else -r
    req(ctx, abs(value - tot / ngames) < 1e-9, 'the score does not reflect the outcome of the games', cfg,
                {'got': value, 'want': tot / ngames, 'games': started})


SETTINGS = [dict(opponentStart=a, alternateStarting=b, numMovesCoeff=c) for a in (True, False) for b in (False, True) for c in (0.0, 0.5)]


def capture_task_job(ctx, kind, games_n):
    for s in SETTINGS:
        for give in ('default', 'class', 'instance') if games_n == 1 else ('instance',):
            def body(ch):
                step(ctx)
                with rng.control(ch):
                    opp = {'default': None, 'class': KillingPlayer,
                           'instance': RandomCapturePlayer(CaptureGame(3))}[give]
                    task = CaptureGameTask(2, opponent=opp, averageOverGames=games_n, **s)
                    req(ctx, task.opponent.game is task.env, 'the opponent plays on another board', [give, s], None)
                    req(ctx, task.env.movesDone == (1 if s['opponentStart'] else 0), 'the opening move is missing or too many', [give, s], None)
                    agent = {'random': RandomCapturePlayer, 'killing': KillingPlayer}[kind](CaptureGame(3))
                    mine = []
                    orig = agent.getAction

                    def getAction():
                        while len(mine) < len([g for g in games]):
                            mine.append(None)
                        a = orig()
                        mine[len(games) - 1] = a[0]
                        return a
                    agent.getAction = getAction
                    games = watch(task.env)
                    v = task(agent)
                cfg = dict(s, opponent=give, agent=kind, choices=list(ch.taken))
                judge_task(ctx, task, games, [m for m in mine if m is not None], games_n, v, s, cfg, (3, 4), 'draw')
            r = explore(body)
            ctx.trace(r.runs)


def capture_task_module_job(ctx):
    """networks as players: getReward / performAction used directly, and wrapped by the task"""
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SigmoidLayer
    for s in SETTINGS:
        def body(ch):
            step(ctx)
            with rng.control(ch, gauss=rng.vdc_gauss()):
                net = buildNetwork(8, 4, outclass=SigmoidLayer)
                task = CaptureGameTask(2, averageOverGames=1, **s)
                games = watch(task.env)
                v = task(net)
            g = [x for x in games if x['colors']]
            first_opp = s['opponentStart']
            judge_task(ctx, task, games, [-1 if first_opp else 1], 1, v, s, dict(s, choices=list(ch.taken)), (3, 4), 'draw')
        r = explore(body)
        ctx.trace(r.runs)


def find_script(cls, size, want):
    """a complete legal game (list of moves, black first) with the wanted outcome"""
    start = cls(size)
    cells = positions_of(start)

    def rank(p):
        # a colouring without long lines, so that draws are found quickly
        return (p[0] // 2 + p[1]) % 2

    if want == 'draw':
        order = {1: sorted(cells, key=lambda p: (rank(p) == 0, p)), -1: sorted(cells, key=lambda p: (rank(p) == 1, p))}
    else:
        row = [p for p in cells if p[0] == 0]
        line = {want: row, -want: [(i, (2 * i + 1) % size[1]) for i in range(1, size[0])] + [(i, (2 * i + 3) % size[1]) for i in range(1, size[0])]}
        order = {c: line[c] + [p for p in cells if p not in line[c]] for c in line}
    budget = [20000]

    def dfs(g, c, path):
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        for p in order[c]:
            if g.b[p] != 0:
                continue
            h = copy.deepcopy(g)
            h.doMove(c, p)
            if h.gameOver():
                if h.winner == want:
                    return path + [p]
                continue
            if want != 'draw' or h.movesDone > len(path) :
                r = dfs(h, -c, path + [p])
                if r:
                    return r
        return None

    return dfs(start, 1, [])


class Scripted(GomokuPlayer):
    script = None

    def getAction(self):
        if self.script.pos is None or self.script.board.movesDone == self.script.base:
            self.script.start()
        return [self.color, self.script.next()]


class Script(object):
    def __init__(self, board, plays, base):
        self.board, self.plays, self.base = board, plays, base
        self.k, self.pos = -1, None

    def start(self):
        self.k += 1
        self.pos = 0

    def next(self):
        p = self.plays[self.k % len(self.plays)][self.pos]
        self.pos += 1
        return p


def gomoku_task_job(ctx, cls, taskcls):
    size = 5
    base = cls((size, size)).movesDone
    plays = {}
    for want in (1, -1, 'draw'):
        plays[want] = find_script(cls, (size, size), want)
        req(ctx, plays[want] is not None, 'no game with this outcome was found', [cls.__name__, want], None)
    for s in SETTINGS:
        for ngames in (1, 2, 3):
            for outs in itertools.product((1, -1, 'draw'), repeat=ngames):
                step(ctx)
                ctx.trace()
                cfg = dict(s, game=cls.__name__, outcomes=list(outs))
                opp = Scripted(cls((6, 6)))
                opp.script = None
                holder = Script(None, [plays[outs[0]]], base)

                class First(Scripted):
                    pass
                opp.script = holder
                # the constructor already asks for an opening move
                holder.board = cls((size, size))
                task = taskcls(size, opponent=opp, averageOverGames=ngames, **s)
                req(ctx, opp.game is task.env, 'the opponent plays on another board', cfg, None)
                req(ctx, task.env.movesDone == base + (1 if s['opponentStart'] else 0), 'the opening move is missing or too many', cfg, None)
                script = Script(task.env, [plays[o] for o in outs], base)
                opp.script = script
                agent = Scripted(cls((6, 6)))
                agent.script = script
                mine = []
                orig = agent.getAction

                def getAction(orig=orig):
                    a = orig()
                    while len(mine) <= script.k:
                        mine.append(None)
                    mine[script.k] = a[0]
                    return a
                agent.getAction = getAction
                games = watch(task.env)
                v = task(agent)
                n = [len(plays[o]) for o in outs]
                judge_task(ctx, task, games, mine, ngames, v, s, cfg, (9, size * size), 'draw')


def relative_job(ctx):
    size = 5
    plays = dict((w, find_script(GomokuGame, (size, size), w)) for w in (1, -1, 'draw'))
    for outs in itertools.product((1, -1, 'draw'), repeat=3):
        for n in (1, 3):
            for coeff in (0.5, 0.0):
                step(ctx)
                ctx.trace()
                with rng.control(Chooser()):
                    task = RelativeGomokuTask(size, maxGames=n, numMovesCoeff=coeff)
                sc = Script(task.env, [plays[o] for o in outs], 0)
                a, b = Scripted(task.env), Scripted(task.env)
                a.script = b.script = sc
                v = task(a, b)
                want = []
                for o in outs[:n]:
                    r = 1 - coeff * (len(plays[o]) - 9) / 16.0
                    want.append(0.0 if o == 'draw' else r if o == 1 else -r)
                req(ctx, abs(v - sum(want) / n) < 1e-9, 'the relative score does not reflect the games', {'outcomes': list(outs[:n]), 'coeff': coeff},
                            {'got': v, 'want': sum(want) / n})
    # capture game: who wins is read off the board; every third game has a preset stone and the second player moves first
    for n, prop in ((1, 0.5), (2, 0.5), (2, 0)):
        def body(ch):
            step(ctx)
            with rng.control(ch):
                task = RelativeCaptureTask(2, maxGames=n, presetGamesProportion=prop) if prop == 0 else \
                    RelativeCaptureTask(3, maxGames=n, presetGamesProportion=prop)
                a, b = KillingPlayer(task.env), KillingPlayer(task.env)
                env = task.env
                games = []
                oreset, oact = env.reset, env.performAction

                def reset():
                    oreset()
                    games.append(None)

                def act(x):
                    oact(x)
                    if env.gameOver():
                        games[-1] = (env.winner, env.movesDone)
                env.reset, env.performAction = reset, act
                v = task(a, b)
            sz = task.size
            vals = [(1 if w == 1 else -1) * (1 - 0.5 * (m - 3) / float(sz * sz - 3)) for w, m in games]
            ok = len(vals) and min(vals) - 1e-9 <= v <= max(vals) + 1e-9 and (len(set(vals)) > 1 or abs(v - vals[0]) < 1e-9)
            req(ctx, ok, 'the relative score does not reflect the games', {'n': n, 'choices': list(ch.taken)}, {'got': v, 'games': games})
        r = explore(body, max_runs=4000)
        ctx.trace(r.runs)


def jobs(tier, seed):
    T = tier != 'quick'
    out = []
    for suicide in (True, False):
        out.append(('capture players 2x2 suicide=%s' % suicide, capture_job, (2, suicide, 9, True)))
        out.append(('capture players 3x3 suicide=%s' % suicide, capture_job, (3, suicide, 5 if T else 3, T)))
    for cls in (GomokuGame, PenteGame):
        for size in ((5, 5), (5, 6), (6, 5)) if not T else ((5, 5), (5, 6), (6, 5), (7, 5)):
            for part in ('tree', 'lines', 'dense'):
                if size == (5, 5) and part == 'tree' and not T:
                    continue
                out.append(('%s players %dx%d %s' % ((cls.__name__,) + size + (part,)), gomoku_job, (cls, size, part, T)))
    for n, rounds, forced in [(2, (1,), True), (2, (2,), False), (2, (1, 2), False), (3, (1,), True)] + ([(2, (4,), True)] if T else []):
        out.append(('tournament of %d %s %s' % (n, rounds, forced), tournament_job, (n, rounds, forced)))
    for players in (('random', 'nonsuicide'), ('killing', 'nonsuicide'), ('killing', 'killing')):
        out.append(('real tournament %s-%s' % players, real_tournament_job, (players,)))
    for kind in ('random', 'killing'):
        out.append(('capture task %s 1' % kind, capture_task_job, (kind, 1)))
    out.append(('capture task killing 2', capture_task_job, ('killing', 2)))
    out.append(('capture task networks', capture_task_module_job, ()))
    for cls, t in ((GomokuGame, GomokuTask), (PenteGame, PenteTask)):
        out.append(('%s task' % cls.__name__, gomoku_task_job, (cls, t)))
    out.append(('relative tasks', relative_job, ()))
    return out
