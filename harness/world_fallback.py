"""Real trees with fallback lookups for spec/Fallback.tla."""
import threading

from harness.threads import Thread
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from plumber import Behavior
from plumber import plumb
from plumber import plumbing

GATE = threading.local()


class Gate(Behavior):
    """Stops a thread at one of its accesses to the storage."""

    @plumb
    def __getitem__(_next, self, key):
        g = getattr(GATE, 'gate', None)
        if g is not None:
            g()
        return _next(self, key)


def classes(storage, life):
    @plumbing(Nodespaces, Fallback, Gate, Adopt, DefaultInit, Nodify, storage)
    class FAttrs(object):
        pass

    @plumbing(Nodespaces, Gate, Adopt, DefaultInit, Nodify, storage)
    class NAttrs(object):
        pass

    @plumbing(Nodespaces, Fallback, Gate, Adopt, Attributes, DefaultInit, Nodify, storage)
    class FNode(object):
        pass

    @plumbing(Nodespaces, Gate, Adopt, Attributes, DefaultInit, Nodify, storage)
    class NNode(object):
        pass

    class FNodeAccess(FNode):
        attribute_access_for_attrs = True

    return dict(F=FNode, N=NNode, FA=FAttrs, NA=NAttrs)


CLASSES = {s: classes(b, 0) for s, b in (('odict', OdictStorage), ('dict', DictStorage))}
# nodes with false truth value
CLASSES['false'] = {k: type('Falsy' + k, (c,), {'__bool__': lambda self: False})
                    for k, c in CLASSES['odict'].items()}
SKINS = {
    'plain': {'a': 'a', 'b': 'b', 'c': 'c', 'x': 'x', 'y': 'y', '@': '__attrs__'},
    'odd': {'a': '', 'b': '__attrs_', 'c': '/', 'x': 'None', 'y': '0', '@': '__attrs__'},
    'blank': {'a': 'a ', 'b': 'e\u0301', 'c': '\xe9', 'x': ' a', 'y': 'A', '@': '__attrs__'},
    'same': {'a': 'root', 'b': 'x', 'c': 'fallback_key', 'x': 'roo', 'y': '__parent', '@': '__attrs__'},
}
VALS = {'u': None, 'v': 0, 'w': '', 'z': 'value', 'm': {}, 'l': []}
MARK = object()


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.skin = SKINS[conf.get('skin', 'plain')]
        self.cls = CLASSES[conf.get('storage', 'odict')]
        self.ths = {t: Thread() for t in sorted(conf['ths']) if t != 't0'}
        self.gates = {}
        root = conf.get('root', 'root')
        self.root = self.cls['F'](name=None if root == 'NONE' else root)
        self.at = {(): self.root}
        for p in sorted(conf.get('start', [[]]), key=len):
            if p:
                n = self.at[tuple(p)] = self.at[tuple(p[:-1])][self.skin[p[-1]]] = self.cls['F']()
        self.n = 0

    def close(self):
        for t in list(self.gates):
            self.finish(t)
        for t in self.ths.values():
            t.stop()

    def path(self, p):
        return tuple(p)

    def find(self, v):
        for p, n in self.at.items():
            if n is v:
                return ['node', list(p)]
        for k, x in VALS.items():
            if type(x) is type(v) and x == v:
                return ['val', k]
        return ['unknown', repr(v)]

    def snap(self):
        """Everything a lookup could change."""
        res = []
        for p, n in sorted(self.at.items()):
            ns = n.nodespaces
            res.append((p, id(n), id(n.__parent__), n.__name__,
                        [(k, id(n.storage[k])) for k in n.storage],
                        [(k, id(ns[k])) for k in ns if k != '__children__'],
                        n.fallback_key if 'fallback_key' in n.__dict__ else '-'))
        return res

    def lookup(self, how, node, key):
        if how == 'contains':
            return ['T' if key in node else 'F']
        if how == 'get':
            r = node.get(key, MARK)
            return ['default'] if r is MARK else self.find(r)
        try:
            return self.find(node[key])
        except KeyError as e:
            ok = len(e.args) == 1 and e.args[0] == key
            return ['err', self.back(key) if ok else repr(e.args)]

    def back(self, key):
        return next(k for k, v in self.skin.items() if v == key)

    def run(self, op):
        o = op['o']
        p = self.path(op['p']) if 'p' in op else None
        if o == 'finish':
            return self.finish(op['t'])
        node = self.at[p]
        key = self.skin[op['key']] if 'key' in op else None
        if o == 'add':
            kind, q = op['k'], p + (op['key'],)
            if kind == 'V':
                node[key] = VALS[op['v']]
            elif op['key'] == '@':
                cls = self.cls[kind + 'A']
                if len(p) % 2 or self.c.get('direct'):
                    node.attributes_factory = cls
                    self.at[q] = node.attrs
                else:
                    self.at[q] = node['__attrs__'] = cls()
            else:
                cls = self.cls[kind]
                if op['fb'] and self.c.get('klass'):
                    cls = type(cls)('Sub', (cls,), {'fallback_key': self.skin[op['fb']]})
                    self.at[q] = cls()
                else:
                    self.at[q] = cls()
                    if op['fb']:
                        self.at[q].fallback_key = self.skin[op['fb']]
                node[key] = self.at[q]
            return ['ok']
        if o == 'del':
            del node[key]
            q = p + (op['key'],)
            self.at = {r: n for r, n in self.at.items() if r[:len(q)] != q}
            return ['ok']
        if o == 'declare':
            fb = op['fb']
            self.n += 1
            if fb:
                node.fallback_key = self.skin[fb]
            elif self.n % 2 or 'fallback_key' not in node.__dict__ or self.c.get('klass'):
                node.fallback_key = None
            else:
                del node.fallback_key
            return ['ok']
        if o == 'look':
            before = self.snap()
            f = lambda: self.lookup(op['how'], node, key)
            r = f() if op['t'] == 't0' else self.ths[op['t']].do(f)
            if self.snap() != before:
                return ['lookup changed the tree']
            return r
        if o == 'lookfail':
            self.n += 1
            return self.fail(op['t'], op['how'], node, key, op.get('at', self.n % 3 + 1))
        if o == 'start':
            return self.start(op['t'], op['how'], node, key, op.get('at', 2))
        raise AssertionError(o)

    def fail(self, t, how, node, key, at):
        before = self.snap()
        left = [at]

        def gate():
            left[0] -= 1
            if left[0] == 0:
                raise OSError('storage')

        def f():
            GATE.gate = gate
            try:
                return self.lookup(how, node, key)
            except OSError:
                return ['err', 'OSError']
            finally:
                GATE.gate = None
        r = f() if t == 't0' else self.ths[t].do(f)
        if left[0] <= 0 and r != ['err', 'OSError']:
            return ['error of the storage disappeared']
        return r if self.snap() == before else ['lookup changed the tree']

    def start(self, t, how, node, key, at):
        arrived, go = threading.Event(), threading.Event()
        before = self.snap()
        left = [at]

        def gate():
            left[0] -= 1
            if left[0] == 0:
                arrived.set()
                go.wait(20)

        def f():
            GATE.gate = gate
            try:
                r = self.lookup(how, node, key)
            finally:
                GATE.gate = None
                arrived.set()
            return r if self.snap() == before else ['lookup changed the tree']
        self.ths[t].start(f)
        self.gates[t] = go
        arrived.wait(10)
        return ['ok']

    def finish(self, t):
        self.gates.pop(t).set()
        return self.ths[t].result()


def random_conf(rnd):
    keys = ['a', 'b', 'c', 'x', 'y'][:rnd.randint(3, 5)] + (['x'] if rnd.random() < .5 else [])
    keys = sorted(set(keys + ['x']))
    if rnd.random() < .5:
        keys.append('@')
    skin = rnd.choice(sorted(SKINS))
    big = rnd.random() < .3
    return dict(size=40 if big else 14, depth=12 if big else 5, start=[[]], keys=keys, attrs='@', vals=sorted(VALS), ths=['t0', 't1', 't2'][:rnd.randint(1, 3)],
                skin=skin, storage=rnd.choice(['odict', 'odict', 'dict', 'false']),
                direct=rnd.random() < .5, klass=rnd.random() < .3,
                root=rnd.choice(['root', 'NONE', 'x', '']),
                fbs=rnd.sample([k for k in keys if k != '@' and SKINS[skin][k]], rnd.randint(1, 2)))


def choose(rnd, w):
    c = w.c
    entries = {}
    for p, n in w.at.items():
        entries[p] = set(w.back(k) for k in n.storage)
        if '__attrs__' in n.nodespaces:
            entries[p].add('@')
    quiet = not w.gates
    for _ in range(200):
        p = rnd.choice(sorted(entries))
        if rnd.random() < .4:       # prefer deep nodes
            p = max(p, rnd.choice(sorted(entries)), key=len)
        key = rnd.choice(c['keys'])
        grow = len(entries) < c['size']
        o = rnd.choice((['add'] * (5 if grow else 2) + ['declare', 'declare', 'del'] if quiet else
                        ['finish', 'finish']) + ['look'] * 8 + ['start', 'lookfail'])
        inattr = '@' in p
        if o == 'add':
            if key in entries[p] or (inattr and key == '@') or len(p) > c['depth']:
                continue
            kind = rnd.choice('FFFFN' if key == '@' else 'FFFFFNVV')
            # values where no fallback is expected
            if kind == 'V' and key in c['fbs']:
                continue
            fb = rnd.choice(c['fbs']) if kind != 'V' and key != '@' and rnd.random() < .4 else ''
            return dict(o=o, p=list(p), key=key, k=kind,
                        v=rnd.choice(c['vals']) if kind == 'V' else '', fb=fb)
        if o == 'del':
            if key not in entries[p] or rnd.random() < .5:
                continue
            return dict(o=o, p=list(p), key=key)
        if o == 'declare':
            now = getattr(w.at[p], 'fallback_key', None)
            now = w.back(now) if now or now in w.skin.values() and now is not None else ''
            fb = rnd.choice(c['fbs'] + [''])
            if fb == now or (not fb and not now) or w.skin.get(fb) == '':
                continue
            return dict(o=o, p=list(p), fb=fb)
        if o == 'finish':
            return dict(o=o, t=rnd.choice(sorted(w.gates)))
        free = [t for t in c['ths'] if t not in w.gates]
        if o == 'start':
            free = [t for t in free if t != 't0']
        if not free:
            continue
        if key == '@' or meets_value(w, c, p, key):
            continue
        op = dict(o=o, how=rnd.choice(['read', 'read', 'get', 'contains']), t=rnd.choice(free),
                  p=list(p), key=key)
        if o in ('start', 'lookfail'):
            op['at'] = rnd.randint(1, 6)
        return op
    return None


def meets_value(w, c, p, key):
    """Some path that may be tried leads through a value (conservative)."""
    names = [set([k]) for k in p] + [set([key])]
    fbs = set(c['fbs'])
    for q, n in w.at.items():
        for k in n.storage:
            q2 = q + (w.back(k),)
            if q2 in w.at or len(q2) > len(p):
                continue
            if all(a == b or a in fbs for a, b in zip(q2, p)):
                return True
    return False


def vary(conf, rnd):
    conf = dict(conf)
    conf.setdefault('skin', rnd.choice(['plain', 'same', 'blank']))
    conf.setdefault('storage', rnd.choice(['odict', 'dict', 'false']))
    conf.setdefault('root', rnd.choice(['root', 'NONE', 'x', '']))
    conf.setdefault('direct', rnd.random() < .5)
    conf.setdefault('klass', rnd.random() < .3)
    return conf
