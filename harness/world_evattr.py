"""Real event attributes and suppression scopes for spec/EvAttr.tla."""
import threading

from harness.threads import Thread
from node.base import AttributedNode
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import suppress_events
from node.utils import UNSET
from plumber import plumbing

NAMES = {'a': 'alpha', 'b': 'beta', 'c': 'gamma', 'd': 'delta'}


class Boom(Exception):
    pass


class Storage(object):
    """Another storage container."""

    def __get__(self, obj, type_=None):
        return obj.__dict__.setdefault('_other', {})


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.calls, self.ths, self.scopes = [], {}, {}
        self.count = 0
        self.stack = {t: [] for t in conf['ths']}
        for t in sorted(conf['ths']):
            if t != 't0':
                self.ths[t] = Thread()
        skin = conf.get('skin', 'plain')
        self.vals = {'v0': lambda: None, 'v1': lambda: 0, 'v2': lambda: '', 'v3': lambda: 'x',
                     'v4': lambda: 1} if skin == 'plain' else \
                    {'v0': lambda: [0], 'v1': lambda: [], 'v2': lambda: {}, 'v3': lambda: 'x',
                     'v4': lambda: (1, [2])}
        self.build()
        self.inst, self.last = {}, {}
        for i in sorted(conf['insts']):
            self.inst[i] = self.cls()
        self.fn = {s: self.subscriber(s) for s in conf['subs']}

    def close(self):
        for t in self.ths.values():
            t.do(lambda: None)
        for t, gens in self.stack.items():
            while gens:
                g = gens.pop()
                self.do(t, lambda: next(g, None))
        for t in self.ths.values():
            t.stop()

    def do(self, t, f):
        return f() if t == 't0' else self.ths[t].do(f)

    def val(self, v):
        return UNSET if v == 'UNSET' else self.vals[v]()

    def unval(self, v):
        if v is UNSET:
            return 'UNSET'
        for k in self.vals:
            x = self.vals[k]()
            if type(x) is type(v) and x == v:
                return k
        return repr(v)

    def name(self, n):
        return NAMES.get(n, n)

    def build(self):
        w, dct, attrs = self, {}, self.c['attrs']
        attrs_store = any(a['store'] == 'attrs' for a in attrs.values())
        base_names = sorted(attrs)[:1] if self.c.get('sub') else []
        basedct = {}
        for n in sorted(attrs):
            a = attrs[n]
            store = {'dict': '__dict__', 'attrs': 'attrs', 'other': 'other'}[a['store']]
            kw = {}
            if a['always'] == 'T':
                kw['always_dispatch'] = True
            if store != '__dict__':
                kw['storage'] = store
            if a['def'] == 'UNSET':
                ea = EventAttribute(**kw)
            else:
                self.defaults = getattr(self, 'defaults', {})
                self.defaults[n] = self.val(a['def'])
                ea = EventAttribute(self.defaults[n], **kw)
            target = basedct if n in base_names else dct
            for j, s in enumerate(a['own']):
                def own(self, value, s=s):
                    w.called(s, 'own', self, value)
                target['on_%s_%d' % (n, j + 1)] = ea.subscriber(own)
            target[self.name(n)] = ea
        (basedct if self.c.get('sub') else dct)['other'] = Storage()
        if self.c['evs']:
            dct['__events__'] = sorted(self.c['evs'])
        root = AttributedNode if attrs_store else object
        if self.c.get('sub'):
            base = plumbing(Events)(type(root)('Base', (root,), basedct))
            self.cls = type(base)('Derived', (base,), dct)
        else:
            self.cls = plumbing(Events)(type(root)('Plain', (root,), dct))

    def subscriber(self, s):
        def fn(*args, **kw):
            self.called(s, 'bound', None, *args, **kw)
        return fn

    def called(self, s, kind, obj, *args, **kw):
        here = next((t for t in self.c['ths'] if t != 't0' and
                     self.ths[t].t is threading.current_thread()), 't0')
        i = self.current
        if kind == 'own' and obj is not self.inst[i]:
            i = 'wrong instance'
        v = self.unval(args[0]) if len(args) == 1 and not kw else repr((args, kw))
        self.calls.append([s, kind, i, v, here])
        if len(self.calls) > 5000:
            raise Boom('too many calls')
        f = self.c['eff'][s]
        if f['o'] == 'none':
            return
        if f['o'] == 'raise':
            raise Boom(s)
        d, n = self.inst[self.current], self.name(f['n'])

        def act():
            if f['o'] == 'set':
                setattr(d, n, self.val(f['v']))
            elif f['o'] == 'del':
                delattr(d, n)
            elif f['o'] == 'dispatch':
                d.dispatch(n, self.val(f['v']))
            elif f['o'] == 'unbind':
                d.unbind(event=n)
        if f['th'] and f['th'] != here:
            self.do(f['th'], act) if f['th'] != 't0' else act()
        else:
            act()

    def run(self, op):
        return self.do(op['t'], lambda: self._run(op))

    def scope(self, x):
        names = sorted(self.c['scopes'][x])
        names = [self.name(n) for n in names]
        if names == ['*']:
            return suppress_events()
        if self.count % 5 == 4 and names != ['*']:
            # a name given twice
            names = names + names[:1]
        if len(names) == 1:
            return suppress_events(names[0])
        return suppress_events(names) if len(x) % 2 else suppress_events(tuple(names))

    def _run(self, op):
        o, t = op['o'], op['t']
        self.calls = []
        if 'i' in op:
            d, self.current = self.inst[op['i']], op['i']
        n = self.name(op.get('n'))
        if o in ('set', 'del', 'dispatch', 'method'):
            try:
                if o == 'set':
                    v = self.val(op['v'])
                    self.last[op['i'], op['n']] = v
                    setattr(d, n, v)
                elif o == 'del':
                    delattr(d, n)
                elif o == 'method':
                    getattr(d, 'on_%s_%d' % (op['n'], op['j']))(self.val(op['v']))
                else:
                    d.dispatch(n, self.val(op['v']))
            except (Boom, KeyError, AttributeError):
                return ['err', self.calls]
            return ['ok', self.calls]
        if o == 'get':
            return ['ok', self.unval(getattr(d, n))]
        if o == 'stored':
            store = self.c['attrs'][op['n']]['store']
            data = {'dict': lambda: d.__dict__, 'attrs': lambda: d.attrs,
                    'other': lambda: d.other}[store]()
            mark = object()
            v = data.get(n, mark)
            if v is mark:
                return ['ok', 'none']
            if store == 'attrs' and n in d.__dict__:
                return ['ok', 'stored elsewhere']
            return ['ok', self.unval(v)]
        if o == 'class':
            return ['ok', self.unval(getattr(self.cls, n))]
        if o == 'bind':
            d.bind(**{n: self.fn[op['s']]})
            return ['ok']
        if o == 'unbind':
            d.unbind(event=n, subscriber=self.fn[op['s']])
            return ['ok']
        if o == 'create':
            self.scopes.setdefault(op['x'], []).append(self.scope(op['x']))
            return ['ok']
        if o == 'enter':
            pre = self.scopes.get(op['x'])
            self.count += 1
            # scopes may be used again, also while they are open
            scope = pre[self.count % len(pre)] if pre and self.count % 3 else self.scope(op['x'])
            got = []

            def block():
                with scope as count:
                    got.append(count)
                    yield

            g = block()
            next(g)
            self.stack[t].append(g)
            return ['ok', got[0]]
        if o in ('exit', 'abort'):
            g = self.stack[t].pop()
            if o == 'exit':
                if next(g, 'end') != 'end':
                    return ['exit']
            else:
                try:
                    g.throw(Boom('abort'))
                except Boom:
                    return ['ok']
                return ['exception swallowed']
            return ['ok']
        if o == 'new':
            self.inst[op['i']] = self.cls()
            return ['ok']
        raise AssertionError(o)


def random_conf(rnd):
    vals = ['v0', 'v1', 'v2', 'v3', 'v4', 'UNSET']
    big = rnd.random() < .25
    subs = ['s%d' % i for i in range(12 if big else 5)]
    owns = ['o%d' % i for i in range(7 if big else 3)]
    attrs = {}
    names = list('abcdghij' if big else 'abcd')[:rnd.randint(1, 8 if big else 4)]
    evs = ['e', 'f'][:rnd.randint(0, 2)]
    ths = ['t0', 't1', 't2'][:rnd.choice([1, 2, 2, 3])]
    outer = names[:len(names) // 2]
    inner = names[len(names) // 2:] + evs
    eff = {}
    for s in subs + owns:
        o = rnd.choice(['none'] * (12 if big else 5) + ['set', 'dispatch', 'unbind', 'del'] +
                       (['raise'] if rnd.random() < .4 else []))
        f = dict(o=o, n='', v='', th='')
        target = [n for n in inner if n in names] if o in ('set', 'del') else inner
        if o not in ('none', 'raise'):
            f['n'] = rnd.choice(target)
            f['v'] = rnd.choice(vals)
            if o != 'unbind' and len(ths) == 2 and rnd.random() < .3:
                f['th'] = 't1'
        eff[s] = f
    # one crossing of threads only
    acting = [s for s in eff if eff[s]['o'] in ('set', 'dispatch', 'del')]
    for n in names:
        own = rnd.sample(owns, rnd.randint(0, 6 if big else 2))
        if n not in outer:
            own = [s for s in own if s not in acting]
        attrs[n] = {'def': rnd.choice(vals), 'always': rnd.choice('FFT'), 'own': own,
                    'store': rnd.choice(['dict', 'dict', 'attrs', 'other'])}
    scopes = {'x': ['*'], 'y': [rnd.choice(names)]}
    scopes['zz'] = rnd.sample(names + evs, rnd.randint(1, min(8 if big else 3, len(names + evs))))
    return dict(attrs=attrs, evs=evs, subs=subs + owns, insts=['i', 'j'][:rnd.randint(1, 2)],
                ths=ths, scopes=scopes, vals=vals, eff=eff, outer=outer,
                skin=rnd.choice(['plain', 'objects']), sub=rnd.random() < .4,
                bindable=subs, nest=12 if big else 4)


def choose(rnd, w):
    c = w.c
    t = rnd.choice(c['ths'])
    i = rnd.choice(c['insts'])
    names = sorted(c['attrs'])
    while True:
        o = rnd.choice(['set'] * 6 + ['get', 'stored', 'class', 'del', 'del', 'dispatch', 'bind',
                        'bind', 'bind', 'unbind', 'create', 'enter', 'enter', 'exit', 'exit',
                        'abort', 'new', 'method'])
        if o == 'new' and rnd.random() < .7:
            continue
        if o in ('exit', 'abort') and not w.stack[t]:
            continue
        if o == 'enter' and len(w.stack[t]) > c['nest']:
            continue
        op = dict(o=o, t=t)
        if o in ('create', 'enter'):
            op['x'] = rnd.choice(sorted(c['scopes']))
        if o in ('set', 'get', 'stored', 'del', 'dispatch', 'bind', 'unbind', 'new', 'method'):
            op['i'] = i
        if o in ('set', 'get', 'stored', 'class', 'del'):
            op['n'] = rnd.choice(names)
        if o in ('dispatch', 'bind', 'unbind'):
            op['n'] = rnd.choice(names + c['evs'])
        if o in ('bind', 'unbind'):
            op['s'] = rnd.choice(c['bindable'])
            if c['eff'][op['s']]['o'] in ('set', 'dispatch', 'del') and op['n'] not in c['outer']:
                continue
        if o in ('set', 'dispatch', 'method'):
            op['v'] = rnd.choice(c['vals'])
        if o == 'method':
            op['n'] = rnd.choice(names)
            if not c['attrs'][op['n']]['own']:
                continue
            op['j'] = rnd.randint(1, len(c['attrs'][op['n']]['own']))
        # nobody waits for a thread which waits
        return op
