"""Real event dispatchers for spec/Events.tla."""
import functools
import threading

from node.base import BaseNode
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import UnknownEvent
from node.events import EventDispatcher
from plumber import plumbing

EVSETS = {
    'plain': ['e0', 'e1', 'e2', 'e3', 'e4'],
    'odd': ['', 'a b', 'name', '__e__', '\xe4'],
    'clash': ['event', 'subscriber', 'args', 'kw', 'dispatch_'],
}
for s in EVSETS:
    EVSETS[s] += ['%s%d' % (s, i) for i in range(5, 12)]


RETURNS = [None, True, False, 0, 'stop', NotImplemented, StopIteration, [], 1]


class Boom(Exception):
    pass


class Callable(object):
    """Equal to every other one with this token."""

    def __init__(self, w, s):
        self.w, self.s = w, s

    def __call__(self, *args, **kw):
        return self.w.called(self.s, args, kw)

    def __eq__(self, other):
        return isinstance(other, Callable) and self.s == other.s

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class Falsy(Callable):
    def __len__(self):
        return 0


class Holder(object):
    def __init__(self, w, s):
        self.w, self.s = w, s

    def method(self, *args, **kw):
        return self.w.called(self.s, args, kw)


TAGS = {
    't0': ((), {}),
    't1': ((1, None), {}),
    't2': ((), dict(value=0, x='')),
    't3': (([], {}), dict(a=None, b=[1])),
    'nested': (('nested',), dict(n=1)),
}


class World(object):
    def __init__(self, conf):
        self.c = conf
        names = EVSETS[conf.get('evset', 'plain')]
        if conf['how'] == 'attr' and conf.get('evset') == 'clash':
            names = EVSETS['plain']
        self.ev = {e: names[i] for i, e in enumerate(sorted(conf['evs']))}
        self.cls = {}
        todo = sorted(conf['cls'])
        while todo:
            c = todo.pop(0)
            d = conf['cls'][c]
            if any(b not in self.cls for b in d['bases']):
                todo.append(c)
                continue
            self.cls[c] = self.build(c, d)
        self.inst, self.calls, self.subs = {}, [], {}
        for i in sorted(conf['insts']):
            self.make(i)
        for s in conf['subs']:
            self.subs[s] = self.subscriber(s)

    def build(self, c, d):
        decl = [self.ev[e] for e in d['decl']]
        how = self.c['how']
        if how == 'mixed':
            how = 'attr' if len(c) % 2 and ord(c[0]) % 2 else 'list'
        if how == 'attr':
            # event attributes cannot have every name
            dct = {e: EventAttribute(0) for e in decl}
        elif decl:
            dct = dict(__events__=list(decl))
        else:
            dct = {}
        bases = tuple(self.cls[b] for b in d['bases'])
        if d.get('mix'):
            # a plain class which other classes mix in
            dct = dict(__events__=list(decl)) if decl else {}
            return type(c, bases or (object,), dct)
        plumbed = [self.cls[b] for b in d['bases'] if not self.c['cls'][b].get('mix')]
        if self.c.get('init') and not plumbed and self.c.get('base') != 'node':
            def __init__(self, value, flag=None):
                self.given = (value, flag)
            dct['__init__'] = __init__
        if bases and not plumbed:
            return plumbing(Events)(type(c, bases, dct))
        if bases:
            if self.c.get('replumb') and len(bases) == 1:
                return plumbing(Events)(type(c, bases, dct))
            return type(plumbed[0])(c, bases, dct)
        base = self.c.get('base')
        if base == 'dispatcher':
            return type(EventDispatcher)(c, (EventDispatcher,), dct)
        if base == 'node':
            return plumbing(Events)(type(BaseNode)(c, (BaseNode,), dct))
        return plumbing(Events)(type(c, (object,), dct))

    def make(self, i):
        cls = self.cls[self.c['insts'][i]]
        if not self.c.get('init'):
            self.inst[i] = cls()
        elif self.c.get('base') == 'node':
            self.inst[i] = d = cls(name=i)
            if d.name != i:
                raise AssertionError('constructor arguments are lost')
        else:
            self.inst[i] = d = cls(i, flag=0)
            if d.given != (i, 0):
                raise AssertionError('constructor arguments are lost')

    def subscriber(self, s):
        kind = (self.c.get('kinds') or {}).get(s, 'function')
        if kind == 'function':
            def fn(*args, **kw):
                return self.called(s, args, kw)
            return lambda: fn
        if kind == 'partial':
            p = functools.partial(lambda *args, **kw: self.called(s, args, kw))
            return lambda: p
        if kind == 'method':
            h = Holder(self, s)
            return lambda: h.method
        if kind == 'falsy':
            return lambda: Falsy(self, s)
        return lambda: Callable(self, s)

    def called(self, s, args, kw):
        tag = next((t for t, (a, k) in TAGS.items() if a == args and k == kw), repr((args, kw)))
        self.calls.append([s, tag])
        if len(self.calls) > 5000:
            raise Boom('too many calls')
        f = self.c['eff'][s]
        d = self.inst[self.current]
        if f['o'] == 'bind':
            d.bind(**{self.ev[f['e']]: self.subs[f['s']]()})
        elif f['o'] == 'unbind':
            self.unbind(d, f['e'], f['s'], 'kw')
        elif f['o'] == 'register':
            d.register_event(self.ev[f['e']])
        elif f['o'] == 'raise':
            raise Boom()
        elif f['o'] == 'dispatch':
            a, k = TAGS['nested']
            d.dispatch(self.ev[f['e']], *a, **k)
        # what a subscriber returns has no meaning
        return RETURNS[(len(self.calls) + len(s) + ord(s[-1])) % len(RETURNS)]

    def unbind(self, d, e, s, via):
        kw = {}
        if e != '*':
            kw['event'] = self.ev[e]
        if s != '*':
            kw['subscriber'] = self.subs[s]()
        if via == 'pos':
            d.unbind(kw.get('event'), kw.get('subscriber'))
        else:
            d.unbind(**kw)

    def run(self, op):
        if op.get('via') == 'thread':
            res = []
            t = threading.Thread(target=lambda: res.append(self._run(op)))
            t.start()
            t.join(8)
            return res[0] if res else ['HANG']
        return self._run(op)

    def _run(self, op):
        o, i = op['o'], op['i']
        d = self.inst[i]
        self.calls = []
        self.current = i
        if o == 'new':
            self.make(i)
            return ['ok']
        if o == 'register':
            d.register_event(self.ev[op['e']])
            return ['ok']
        if o == 'bind':
            try:
                d.bind(**dict((self.ev[e], self.subs[s]()) for e, s in op['items']))
            except UnknownEvent:
                return ['err', 'rejected']
            return ['ok']
        if o == 'unbind':
            self.unbind(d, op['e'], op['s'], op.get('via', 'kw'))
            return ['ok']
        if o == 'dispatch':
            a, k = TAGS[op['tag']]
            try:
                r = d.dispatch(self.ev[op['e']], *a, **k)
            except (Boom, UnknownEvent):
                return ['err', self.calls]
            return ['ok', self.calls]
        raise AssertionError(o)


def random_conf(rnd):
    big = rnd.random() < .25
    ne = rnd.randint(1, 5) if not big else rnd.randint(1, 12)
    evs = ['e%d' % i for i in range(ne)]
    cls = {}
    mixes = rnd.random() < .45
    for c in ['A', 'B', 'C', 'D'][:rnd.randint(1, 4)]:
        bases = []
        if cls and rnd.random() < .6:
            bases = [rnd.choice(sorted(cls))]
            roots = [x for x in cls if not cls[x]['bases'] and x not in bases
                     and not cls[bases[0]]['bases']]
            if roots and rnd.random() < .4:
                bases.append(rnd.choice(roots))
        mix = mixes and all(cls[b]['mix'] for b in bases) and rnd.random() < .85
        cls[c] = dict(mix=mix, bases=bases, decl=rnd.sample(evs, rnd.randint(0, min(6 if big else 2, ne))))
    if all(d['mix'] for d in cls.values()):
        cls[max(cls)]['mix'] = False
    insts = {i: rnd.choice([c for c in sorted(cls) if not cls[c]['mix']]) for i in ['a', 'b', 'c', 'd'][:rnd.randint(1, 4)]}
    subs = ['s%d' % i for i in range(rnd.randint(1, 5) if not big else 12)]
    outer = evs[:ne // 2]
    inner = evs[ne // 2:]
    eff = {}
    for s in subs:
        o = rnd.choice(['none'] * (12 if big else 4) + ['bind', 'unbind', 'unbind', 'register'] +
                       (['dispatch'] if outer else []) + (['raise'] if rnd.random() < .3 else []))
        eff[s] = dict(o=o, e='', s='')
    for s in subs:
        f = eff[s]
        if f['o'] == 'bind':
            f['s'] = rnd.choice(subs)
            # a dispatching subscriber only to outer events
            f['e'] = rnd.choice(outer if eff[f['s']]['o'] == 'dispatch' else evs)
        if f['o'] == 'unbind':
            f['e'], f['s'] = rnd.choice(evs + ['*']), rnd.choice(subs + ['*'])
        if f['o'] == 'register':
            f['e'] = rnd.choice(evs)
        if f['o'] == 'dispatch':
            f['e'] = rnd.choice(inner)
    how = rnd.choice(['list', 'attr', 'mixed'])
    return dict(cls=cls, insts=insts, evs=evs, subs=subs, outer=outer, eff=eff,
                how=how, parts='all',
                evset=rnd.choice(sorted(EVSETS)) if how == 'list' else 'plain',
                kinds={s: rnd.choice(['function', 'partial', 'method', 'falsy', 'eq']) for s in subs},
                base=rnd.choice(['object', 'dispatcher', 'node']) if not any(
                    len(d['bases']) > 1 or d['mix'] for d in cls.values()) else 'object',
                replumb=rnd.random() < .3 and how != 'attr',
                init=rnd.random() < .5)


def choose(rnd, w):
    c = w.c
    i = rnd.choice(sorted(c['insts']))
    evs = c['evs'] if len(c['evs']) < 6 or rnd.random() < .2 else c['evs'][:3]
    o = rnd.choice(['bind'] * 5 + ['dispatch'] * 5 + ['unbind'] * 2 + ['register', 'new'])
    if o == 'new' and rnd.random() < .5:
        o = 'dispatch'
    op = dict(o=o, i=i, via=rnd.choice(['kw', 'kw', 'pos', 'thread']))
    if o == 'bind':
        items = []
        for e in rnd.sample(evs, rnd.choice([1, 1, 1, min(2, len(evs)), len(evs)])):
            s = rnd.choice(c['subs'])
            if c['eff'][s]['o'] == 'dispatch' and e not in c['outer']:
                continue
            items.append([e, s])
        op['items'] = items
    if o in ('dispatch', 'register'):
        op['e'] = rnd.choice(evs)
    if o == 'dispatch':
        op['tag'] = rnd.choice(['t0', 't1', 't2', 't3'])
    if o == 'unbind':
        if rnd.random() < .3:
            op['e'], op['s'] = rnd.choice(evs), rnd.choice(c['subs'])
        else:
            op['e'], op['s'] = rnd.choice(evs + ['*']), rnd.choice(c['subs'] + ['*'])
    return op


def vary(conf, rnd):
    cls = {c: dict(d) for c, d in conf['cls'].items()}
    used = set(conf['insts'].values())
    for c in sorted(cls):
        cls[c]['mix'] = c not in used and rnd.random() < .5 and all(
            cls[b].get('mix') for b in cls[c]['bases'])
    conf = dict(conf, cls=cls)
    simple = not any(len(d['bases']) > 1 or d['mix'] for d in cls.values())
    conf.setdefault('evset', rnd.choice(sorted(EVSETS)) if conf['how'] == 'list' else 'plain')
    conf.setdefault('kinds', {s: rnd.choice(['function', 'partial', 'method', 'falsy', 'eq'])
                              for s in conf['subs']})
    conf.setdefault('base', rnd.choice(['object', 'dispatcher', 'node']) if simple else 'object')
    conf.setdefault('init', rnd.random() < .5)
    return conf
