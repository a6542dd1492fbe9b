"""Every interleaving of connects, listens, sends and receives of a server and up to three clients over an in-memory stand-in for
UDP sockets (which insists on bytes, truncates to the buffer and times out when empty), against a queue model; every message of a
menu of shapes and sizes; and the same schedules (without timeouts) over real loopback sockets, which validates the stand-in."""

import os
import socket as real
import numpy
from numpy import array
from collections import deque
from mc.core import StopJob
from pybrain.tools.networking import udpconnection as udp

ASSUMPTIONS = ['datagrams are neither lost nor reordered by the network, as on the loopback', 'a client is connected when its constructor has returned',
               'each client has its own address: the server tells clients apart by it', 'messages fit the buffer; arrays are plain float or integer arrays',
               'a listen call of the server without any datagram is a timeout: as documented, all clients are taken for disconnected']


class Net(object):
    def __init__(self):
        self.bound = {}
        self.sent = []

    def make(self):
        net = self

        class FakeSocket(object):
            def __init__(self, *a, **kw):
                self.q = deque()
                self.closed = False

            def bind(self, addr):
                if addr in net.bound:
                    raise OSError('address in use')
                net.bound[addr] = self

            def sendto(self, data, *rest):
                addr = rest[-1]
                if not isinstance(data, (bytes, bytearray, memoryview)):
                    raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
                net.sent.append((bytes(data), addr))
                if addr in net.bound:
                    net.bound[addr].q.append((bytes(data), addr))
                return len(data)

            def recvfrom(self, n, *flags):
                if not self.q:
                    raise real.timeout('timed out')
                d, a = self.q.popleft()
                return d[:n], a

            def recv(self, n, *flags):
                return self.recvfrom(n)[0]

            def settimeout(self, t):
                pass

            def setsockopt(self, *a):
                pass

            def setblocking(self, b):
                pass

            def close(self):
                self.closed = True
        return FakeSocket


class Patched(object):
    """replaces the socket class wherever the module under test can see it"""
    def __enter__(self):
        self.net = Net()
        self.orig = real.socket
        cls = self.net.make()
        self.names = [n for n, v in vars(udp).items() if v is self.orig]
        real.socket = cls
        for n in self.names:
            setattr(udp, n, cls)
        return self.net

    def __exit__(self, *a):
        real.socket = self.orig
        for n in self.names:
            setattr(udp, n, self.orig)


def ip(i):
    return '127.0.0.%d' % (i + 1)


MSGS = [[1, 2.5, 'a'], [array([.1 + .2, 1e-17, -3.]), [4]], [], [array([[1, 2], [3, 4]]), ('x', None)], [{'k': [1. / 3]}, True], [7] * 40]


def same(a, b):
    if isinstance(b, numpy.ndarray):
        return isinstance(a, numpy.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if type(a) != type(b):
        return False
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in b)
    return a == b


class Model(object):
    """registered clients in order, datagrams at the server and at each client"""
    def __init__(self, n):
        self.reg = []
        self.atserver = []
        self.at = [None] * n
        self.sent = 0

    def key(self):
        return (tuple(self.reg), tuple(self.atserver), tuple(None if q is None else tuple(q) for q in self.at), self.sent)

    def enabled(self, msgs):
        out = ['L']
        if self.sent < msgs:
            out.append('S')
        for i, q in enumerate(self.at):
            out.append(('R' if q is not None else 'C') + str(i))
        return out

    def step(self, a):
        """expected result of the client's listen, if that is the action"""
        if a == 'L':
            if self.atserver:
                i = self.atserver.pop(0)
                if i not in self.reg:
                    self.reg.append(i)
            else:
                self.reg = []
        elif a == 'S':
            for i in self.reg:
                self.at[i].append(self.sent)
            self.sent += 1
        elif a[0] == 'C':
            self.atserver.append(int(a[1]))
            self.at[int(a[1])] = []
        else:
            i = int(a[1])
            self.atserver.append(i)
            if self.at[i]:
                return (self.at[i].pop(0),)
            return (None,)


class World(object):
    def __init__(self, n, port='21560', buf='1024'):
        self.port, self.buf = port, buf
        self.server = udp.UDPServer(ip='127.0.0.1', port=port, buf=buf)
        self.clients = [None] * n
        self.sent = 0

    def step(self, a, msgs=MSGS):
        if a == 'L':
            self.server.listen()
        elif a == 'S':
            self.server.send(msgs[self.sent % len(msgs)])
            self.sent += 1
        elif a[0] == 'C':
            i = int(a[1])
            self.clients[i] = udp.UDPClient(servIP='127.0.0.1', ownIP=ip(i), port=self.port, buf=self.buf)
        else:
            return self.clients[int(a[1])].listen()

    def close(self):
        for o in [self.server] + [c for c in self.clients if c is not None]:
            for v in list(vars(o).values()):
                for s in (v if isinstance(v, list) else [v]):
                    if isinstance(s, real.socket):
                        s.close()


def run_path(ctx, n, path, offset):
    """replays a schedule against the implementation; False: a violation or crash"""
    msgs = MSGS[offset:] + MSGS[:offset]
    model = Model(n)
    with Patched() as net:
        ok, w = ctx.guard('server-crash', World, n)
        if not ok:
            return None
        for at, a in enumerate(path):
            want = model.step(a)
            ok, got = ctx.guard('step-crash', w.step, a, msgs)
            if not ok:
                return None
            ctx.trans()
            if want is not None:
                if want[0] is None:
                    good = ctx.check(got is None, 'receive-nothing', 'a client received something although nothing is there', schedule=path[:at + 1], got=str(got))
                else:
                    good = ctx.check(same(got, msgs[want[0] % len(msgs)]), 'receive', 'a client does not receive the next message unchanged', schedule=path[:at + 1], got=repr(got),
                                     want=repr(msgs[want[0] % len(msgs)]))
                if not good:
                    return None
            if not ctx.check(w.server.clients == len(model.reg), 'registry', 'wrong number of connected clients', schedule=path[:at + 1], got=w.server.clients, want=len(model.reg)):
                return None
            left = [len(net.bound[(ip(i), 21560)].q) if model.at[i] is not None else 0 for i in range(n)]
            if not ctx.check(left == [len(q or []) for q in model.at], 'delivered', 'messages are sent to the wrong clients, or more than once', schedule=path[:at + 1], got=left,
                             want=[len(q or []) for q in model.at]):
                return None
    ctx.trace()
    return model


def interleavings(ctx, n, depth, msgs, offset):
    """all schedules of this length (their prefixes are checked on the way)"""
    def rec(path, model):
        if len(path) == depth:
            run_path(ctx, n, path, offset)
            return
        for a in model.enabled(msgs):
            m = Model(n)
            for b in path:
                m.step(b)
            m.step(a)
            ctx.state(m.key())
            rec(path + [a], m)
    rec([], Model(n))
    ctx.outcome((n, depth))


def reachable(ctx, n, depth, msgs):
    """breadth-first over model states, every transition of every state replayed on the implementation"""
    seen = {Model(n).key(): []}
    layer = [[]]
    for d in range(depth):
        new = []
        for path in layer:
            m = Model(n)
            for a in path:
                m.step(a)
            for a in m.enabled(msgs):
                r = run_path(ctx, n, path + [a], d % len(MSGS))
                if r is None:
                    return
                if r.key() not in seen:
                    seen[r.key()] = 1
                    ctx.state(r.key())
                    new.append(path + [a])
        layer = new
    ctx.note('states', len(seen))
    ctx.outcome(len(seen) > 100)


def messages(ctx):
    menu = list(MSGS)
    for v in (0, 1, -2.5, 1e300, 1e-300, .1, 1. / 3, True, None, '', "it's", 'a"b', 'line\nbreak', u'\u00e4\u20ac', (), (1,), [[]], {}, {1: 2}):
        menu.append([v])
    for shape in ((1,), (3,), (2, 2), (2, 2, 2)):
        for k in range(3):
            menu.append([numpy.arange(numpy.prod(shape)).reshape(shape) * (.1, 1, 1e-9)[k] + (0., 0, 1e5)[k]])
    menu.append([array([.1 + .2 * k for k in range(1200)])])
    menu.append([array([[1. / (3 + i + j) for i in range(40)] for j in range(40)])])
    for m in menu:
        ctx.state(repr(m)[:300])
        need = len(repr(m).encode())
        for clients in (1, 2):
            with Patched():
                size = 65000 if need > 700 or any(getattr(x, 'size', 0) > 100 for x in m) else 1024
                ok, w = ctx.guard('server-crash', World, clients, '21560', str(size))
                if not ok:
                    return
                for i in range(clients):
                    w.step('C%d' % i)
                    w.step('L')
                ok, _ = ctx.guard('send-crash', w.step, 'S', [m])
                for i in range(clients):
                    ctx.trans()
                    ok, got = ctx.guard('listen-crash', w.step, 'R%d' % i)
                    ctx.check(ok and same(got, m), 'message', 'the message does not arrive unchanged', sent=repr(m)[:200], got=repr(got)[:200])
    # exactly the buffer
    for size in (20, 64, 1024):
        m = ['x' * (size - 4)]
        ctx.state(size)
        with Patched():
            w = World(1, '5000', str(size))
            for a in ('C0', 'L'):
                w.step(a)
            w.step('S', [m])
            ctx.check(same(w.step('R0'), m), 'buffer', 'a message that fills the buffer does not arrive', size=size)
            w.step('S', [['x' * size]])
            ok, got = ctx.guard('overflow-crash', w.step, 'R0')
            ctx.check(got is None, 'overflow', 'a truncated message is not reported as unusable', got=repr(got))
            w.step('S', [m])
            w.sent = 0
            w.step('S', [m])
            ctx.check(same(w.step('R0'), m), 'after-overflow', 'messages after an unusable one do not arrive')
    ctx.outcome('messages')


def hello(ctx):
    """what the client sends reaches the server unchanged"""
    for own in ('127.0.0.1', '10.1.2.3', '192.168.100.200'):
        with Patched() as net:
            srv = udp.UDPServer(port='700')
            ok, c = ctx.guard('client-crash', udp.UDPClient, '127.0.0.1', own, '700')
            if not ok:
                return
            srv.listen()
            ctx.state(own)
            ctx.trans()
            ctx.check(list(srv.cIP) == [own] and list(srv.addrList) == [(own, 700)] and srv.clients == 1, 'hello', 'the address of the client does not arrive', own=own, got=[srv.cIP, srv.addrList])
            srv.send([1])
            ctx.check([a for d, a in net.sent][-1:] == [(own, 700)], 'hello-address', 'the message is not sent to the client', own=own, got=net.sent)


def loopback(ctx, depth):
    """schedules without timeouts over real sockets"""
    paths = []

    def rec(path, model):
        if path:
            paths.append(path)
        if len(path) == depth:
            return
        for a in model.enabled(2):
            if (a == 'L' and not model.atserver) or (a[0] == 'R' and not model.at[int(a[1])]):
                continue
            m = Model(2)
            for b in path + [a]:
                m.step(b)
            rec(path + [a], m)
    rec([], Model(2))
    paths = [p for p in paths if any(a[0] == 'R' for a in p)]
    port = None
    for k in range(200):
        cand = 20000 + (os.getpid() * 7 + k * 131) % 30000
        try:
            for h, p in ((ip(0), cand), (ip(1), cand), (ip(0), cand + 1)):
                s = real.socket(real.AF_INET, real.SOCK_DGRAM)
                s.bind((h, p))
                s.close()
            port = cand
            break
        except OSError:
            continue
    if port is None:
        ctx.note('loopback', 'no free port')
        return
    for i, path in enumerate(paths):
        model = Model(2)
        try:
            w = World(2, str(port))
        except OSError:
            ctx.note('loopback', 'port taken')
            return
        try:
            for at, a in enumerate(path):
                want = model.step(a)
                try:
                    got = w.step(a)
                except OSError:
                    ctx.note('loopback', 'network error')
                    return
                ctx.trans()
                if want is not None:
                    if got is None:
                        ctx.note('loopback', 'datagram lost')
                        break
                    ctx.check(same(got, MSGS[want[0] % len(MSGS)]), 'loopback', 'over real sockets, a client does not receive the next message unchanged', schedule=path[:at + 1], got=repr(got))
            ctx.state(tuple(path))
            ctx.trace()
        finally:
            w.close()
    ctx.outcome('loopback')


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('schedules-1', interleavings, (1, 9 if th else 8, 3, 0)), ('schedules-2', interleavings, (2, 8 if th else 6, 3, 1)), ('schedules-2b', interleavings, (2, 7 if th else 5, 3, 3)),
           ('schedules-3', interleavings, (3, 6 if th else 5, 2, 0)),
           ('states-1', reachable, (1, 14 if th else 11, 3)), ('states-2', reachable, (2, 12 if th else 9, 3)), ('states-3', reachable, (3, 9 if th else 7, 2)),
           ('messages', messages, ()), ('hello', hello, ()), ('loopback', loopback, (7 if th else 6,))]
    return out
