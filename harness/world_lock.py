"""Real tree locks and controlled threads for spec/Lock.tla."""
import os

from harness import coop

if os.environ.get('COOP', '1') == '1':
    coop.install()

from node import locking  # noqa
from node.base import AttributedNode  # noqa
from node.base import BaseNode  # noqa
from node.base import OrderedNode  # noqa
from node.behaviors import GetattrChildren  # noqa
from node.locking import TreeLock  # noqa
from node.locking import locktree  # noqa
from plumber import plumbing  # noqa


coop.instrument()


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


EXCEPTIONS = [Boom, KeyError, StopIteration, Interrupt, AttributeError, GeneratorExit]
STYLES = ['with', 'acquire', 'method', 'shared', 'own', 'method', 'property']


def locked(self, world, th, *args, **kw):
    """The doc string."""
    return world.body(th, self, args, kw)


class Locking(object):
    locked = locktree(locked)


class LockedAttributed(Locking, AttributedNode):
    pass


class LockedBase(Locking, BaseNode):
    pass


class LockedOrdered(Locking, OrderedNode):
    @property
    @locktree
    def prop(self):
        w, th = coop.current().via
        return w.body(th, self, (), {})


class LockedFalsy(Locking, OrderedNode):
    def __bool__(self):
        return False


@plumbing(GetattrChildren)
class LockedGetattr(Locking, BaseNode):
    pass


KINDS = [LockedBase, LockedAttributed, LockedOrdered, LockedFalsy, LockedGetattr]


class World(object):
    def __init__(self, conf):
        self.c = conf
        pick = conf.get('pick', 0)
        self.pick = pick
        self.node, self.home = {}, {}
        kind = KINDS[pick % len(KINDS)]
        for n in sorted(conf['root'], key=lambda x: (conf['root'][x] != x, x)):
            r = conf['root'][n]
            if n == r:
                # the names of roots need not differ
                self.node[n] = kind(name=[n, None, 'root', ''][pick % 4])
                continue
            # somewhere below its root
            self.pick += 1
            at = self.node[r]
            for i in range(self.pick % 3):
                at['x%d' % i] = at = at['x%d' % i] if 'x%d' % i in at else kind()
            if self.pick % 4 == 0 and kind is LockedAttributed:
                self.node[n] = at.attrs
            else:
                at[n] = self.node[n] = kind()
        self.parent = {}
        self.shared = {}
        self.inside = {}
        self.bad = []
        self.results = {}
        self.sched = coop.Scheduler()
        for t in sorted(conf['ths']):
            self.sched.spawn(t, self.program)
        self.stk = {t: [] for t in conf['ths']}
        self.waits = {t: '' for t in conf['ths']}
        self.n = 0

    def close(self):
        self.sched.kill()

    def root(self, n):
        r = self.c['root'][n]
        while r in self.parent:
            r = self.c['root'][self.parent[r]]
        return r

    # -- what the threads do
    def program(self, th):
        while True:
            if self.loop(th) is None:
                return

    def loop(self, th):
        """Commands inside of one section -> how to leave it"""
        while True:
            cmd = th.next()
            if cmd[0] == 'leave':
                return cmd[1]
            self.section(th, *cmd[1:])

    def section(self, th, n, style, exc):
        node, token = self.node[n], object()
        if style in ('method', 'property') and not isinstance(node, Locking):
            style = 'with'
        boom = exc(th.name)
        th.plan = (n, token, boom, style)
        self.waits[th.name] = self.root(n)
        raised = result = None
        how = None
        try:
            if style in ('method', 'property'):
                if style == 'property' and isinstance(node, LockedOrdered):
                    th.via = (self, th)
                    th.plan = (n, token, boom, 'property')
                    result = node.prop
                else:
                    th.plan = (n, token, boom, 'method')
                    result = node.locked(self, th, 1, token, k=boom)
            elif style == 'acquire':
                lock = TreeLock(node)
                lock.acquire()
                try:
                    result = self.body(th, node)
                finally:
                    lock.release()
            else:
                if style == 'shared':
                    if n not in self.shared:
                        self.shared[n] = TreeLock(node)
                    lock = self.shared[n]
                elif style == 'own':
                    own = th.__dict__.setdefault('own', {})
                    if n not in own:
                        own[n] = TreeLock(node)
                    lock = own[n]
                else:
                    lock = TreeLock(node)
                with lock:
                    result = self.body(th, node)
        except coop.Killed:
            raise
        except BaseException as e:
            raised = e
        if raised is boom:
            how = 'raise'
        elif raised is not None:
            how = 'raised ' + repr(raised)[:100]
        elif result is token:
            how = 'return'
        else:
            how = 'returned ' + repr(result)[:100]
        self.results[th.name] = how

    def body(self, th, node, args=None, kw=None):
        n, token, boom, style = th.plan
        r = self.root(n)
        if style == 'method' and (args != (1, token) or list(kw) != ['k'] or kw['k'] is not boom):
            self.bad.append('arguments')
        if node is not self.node[n]:
            self.bad.append('self')
        others = [t for t in self.inside.get(r, []) if t != th.name]
        if others:
            self.bad.append('inside at once: {} and {}'.format(th.name, others[0]))
        self.inside.setdefault(r, []).append(th.name)
        self.stk[th.name].append(r)
        self.waits[th.name] = ''
        try:
            how = self.loop(th)
        finally:
            self.inside[r].remove(th.name)
            self.stk[th.name].pop()
        if how == 'raise':
            raise boom
        return token

    # -- operations
    def run(self, op):
        o = op['o']
        self.n += 1
        if o == 'join':
            self.shared.clear()
            for t in self.sched.threads.values():
                t.__dict__.pop('own', None)
            self.parent[op['n']] = op['m']
            m = self.node[op['m']]
            m['joined ' + op['n']] = self.node[op['n']]
            return ['ok']
        if o == 'split':
            self.shared.clear()
            for t in self.sched.threads.values():
                t.__dict__.pop('own', None)
            m = self.node[self.parent.pop(op['n'])]
            m.detach('joined ' + op['n'])
            self.node[op['n']].__parent__ = None
            return ['ok']
        cmds = {}
        self.results = {}
        for i, x in enumerate(op['acts']):
            if x['a'] == 'want':
                style = x.get('style') or STYLES[(self.n * 3 + i + self.pick) % len(STYLES)]
                cmds[x['t']] = ('want', x['n'], style,
                                EXCEPTIONS[(self.n + i) % len(EXCEPTIONS)])
            else:
                cmds[x['t']] = ('leave', x['how'])
        sched = op.get('sched') or [self.n * 7 + self.pick,
                                    sorted({(self.n * 37 + self.pick * 101) % 251,
                                            (self.n * 91 + self.pick * 13) % 157})]
        try:
            self.sched.run(cmds, sched)
        except coop.Stuck as e:
            return ['STUCK', str(e)]
        if self.bad:
            return ['bad'] + self.bad
        for t in self.sched.threads.values():
            if t.state == 'done':
                return ['died', t.name, repr(t.error)]
        # who waits must be blocked by a lock
        for t, th in self.sched.threads.items():
            if bool(self.waits[t]) != (th.state == 'blocked'):
                return ['state', t, th.state, self.waits[t]]
        view = {t: [self.stk[t][:], self.waits[t]] for t in self.c['ths']}
        return ['ok', view, [self.results.get(x['t'], 'nothing') if x['a'] == 'leave' else ''
                             for x in op['acts']]]


def vary(conf, rnd):
    return dict(conf, pick=rnd.randint(0, 59))


def random_conf(rnd):
    shape = rnd.choice([{'a': 'a', 'a1': 'a', 'a2': 'a'}, {'a': 'a', 'b': 'b'},
                        {'a': 'a', 'a1': 'a', 'b': 'b', 'b1': 'b'},
                        {'a': 'a', 'a1': 'a', 'b': 'b', 'c': 'c', 'c1': 'c'}])
    return dict(root=shape, ths=['t1', 't2', 't3', 't4', 't5'][:rnd.randint(2, 5)],
                pick=rnd.randint(0, 59), many=0)


def choose(rnd, w):
    c = w.c
    free = [t for t in c['ths'] if not w.waits[t]]
    roots = [n for n in c['root'] if c['root'][n] == n]
    if rnd.random() < .15 and len(roots) > 1:
        n = rnd.choice(roots)
        if n in w.parent:
            if w.root(n) == c['root'][w.root(n)] and w.root(n) not in w.waits.values():
                return dict(o='split', n=n)
        else:
            ms = [m for m in sorted(c['root']) if w.root(m) != n and w.root(m) == c['root'][m]]
            m = rnd.choice(ms or [n])
            if ms and not any(n in w.stk[t] or w.waits[t] == n for t in c['ths']) and all(c['root'][k] == n for k in c['root'] if w.root(k) == n) and \
                    hasattr(w.node[m], 'locked'):
                return dict(o='join', n=n, m=m)
    if not free:
        return None
    acts = []
    for t in rnd.sample(free, min(len(free), rnd.choice([1, 2, 2, 3, 3, 4, 5]))):
        if w.stk[t] and (rnd.random() < .6 or len(w.stk[t]) > 3):
            acts.append(dict(t=t, a='leave', n='', how=rnd.choice(['return', 'raise'])))
        else:
            acts.append(dict(t=t, a='want', n=rnd.choice(sorted(c['root'])), how='',
                             style=rnd.choice(STYLES)))
    k = rnd.choice([0, 1, 1, 2, 2, 3, 6])
    top = rnd.choice([30, 80, 200, 400])
    return dict(o='par', acts=acts, sched=[rnd.randint(0, 10 ** 6),
                                           sorted(rnd.sample(range(top), k))])
