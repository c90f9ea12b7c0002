"""Real nodes with caching for spec/Cache.tla."""
from harness import guard
from node.behaviors import Adopt
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import Reference
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import DictStorage
from node.behaviors import VolatileStorageInvalidate
from node.interfaces import INode
from odict import odict
from plumber import plumbing
import uuid

KEYSETS = {
    'words': ['foo', 'bar', 'baz', 'bam'],
    'odd': ['', 'a/b', '__x', 'None'],
    'types': [0, '', (), -1],
    'blank': ['a ', 'e\u0301', '\xe9', ' a'],
    'mixed': ['0', 0, 'x', ('a', 1)],
}
for s in KEYSETS:
    KEYSETS[s] += [7 + i if s == 'types' and i % 2 else '%s%d' % (s, i) for i in range(8)]


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class Child(object):
    val = None


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class RefChild(object):
    val = None


class Falsy(list):
    """False, and equal to all of its kind."""
    val = None


class Backend(object):
    """Creates a new object on every load."""

    def __init__(self, make):
        self.data, self.make = odict(), make
        self.loads, self.fail = {}, None

    def check(self, what):
        if self.fail == what:
            self.fail = None
            raise OSError(what)


class CountingDict(dict):
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.loads = {}

    def _count(self, key):
        self.loads[key] = self.loads.get(key, 0) + 1

    def __getitem__(self, key):
        self._count(key)
        return dict.__getitem__(self, key)

    def get(self, key, default=None):
        self._count(key)
        return dict.get(self, key, default)


class CountingOdict(odict):
    def __init__(self, *a):
        self.__dict__['loads'] = {}
        odict.__init__(self, *a)

    def __getitem__(self, key):
        loads = self.__dict__['loads']
        loads[key] = loads.get(key, 0) + 1
        return odict.__getitem__(self, key)


def loading_class(kind, cache, life, outer):
    behaviors = []
    if outer and cache:
        behaviors.append(Cache)
    if life:
        behaviors.append(Lifecycle)
    if cache and not outer:
        behaviors.append(Cache)
    if kind == 'plain':
        behaviors.append(Invalidate)
    behaviors += [DefaultInit, Nodify]

    class Loading(object):
        def __getitem__(self, key):
            b = self.vf_backend
            b.loads[key] = b.loads.get(key, 0) + 1
            b.check('read')
            return b.make(b.data[key])

        def __setitem__(self, key, value):
            self.vf_backend.check('write')
            self.vf_backend.data[key] = 'N' if value is None else value.val
            self.vf_backend.check('late')

        def __delitem__(self, key):
            if key in self.vf_backend.data:
                self.vf_backend.check('write')
            del self.vf_backend.data[key]
            self.vf_backend.check('late')

        def __iter__(self):
            return iter(self.vf_backend.data)

        if kind == 'own':
            def invalidate(self, key=None):
                pass
    return plumbing(*behaviors)(Loading)


def storing_class(kind, cache, mix, factories):
    behaviors = []
    outer = mix.startswith('out')
    if outer and cache:
        behaviors.append(Cache)
    if 'life' in mix:
        behaviors.append(Lifecycle)
    behaviors.append(Adopt)
    if 'ref' in mix:
        behaviors.append(Reference)
    if cache and not outer:
        behaviors.append(Cache)
    behaviors.append(Invalidate if kind == 'plain' else VolatileStorageInvalidate)
    behaviors += [DefaultInit, Nodify]
    if kind == 'fac':
        behaviors.append(ChildFactory)
    behaviors.append(DictStorage if mix == 'dict' else OdictStorage)
    dct = {}
    if kind == 'fac':
        dct['factories'] = factories
    counting = CountingDict if mix == 'dict' else CountingOdict

    class Storing(object):
        @property
        def storage(self):
            try:
                return self.__dict__['vf_storage']
            except KeyError:
                self.__dict__['vf_storage'] = counting()
                return self.__dict__['vf_storage']
        locals().update(dct)
    return plumbing(*behaviors)(Storing)


CLASSES = {}


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.load = conf['load'] == 'T'
        self.falsy = conf.get('values') == 'falsy' and 'ref' not in conf['mix']
        self.x = list(conf['order'])
        ks = KEYSETS[conf.get('keys', 'words')]
        self.key = {x: ks[int(x.split('.')[1])] for x in self.x}
        self.made = []
        ident = (conf['kind'], conf['cache'], conf['load'], conf['mix'], conf.get('keys'),
                 tuple(self.x), self.falsy)
        if ident not in CLASSES:
            if self.load:
                CLASSES[ident] = loading_class(conf['kind'], conf['cache'] == 'T',
                                               'life' in conf['mix'],
                                               conf['mix'].startswith('out'))
            else:
                facs = odict()
                for x in self.x:
                    facs[self.key[x]] = factory(conf, self.falsy)
                CLASSES[ident] = storing_class(conf['kind'], conf['cache'] == 'T',
                                               conf['mix'], facs)
        cls = CLASSES[ident]
        self.node = {}
        for n in sorted(conf['slots']):
            if 'ref' in conf['mix']:
                self.node[n] = cls(name=n)
            else:
                self.node[n] = cls(name=n)
            if self.load:
                self.node[n].vf_backend = Backend(self.make)
        self.last = {}        # slot -> object returned by the last read
        self.read = []        # all objects ever returned

    def make(self, val):
        if val == 'N':
            return None
        if self.falsy:
            o = Falsy()
        elif 'ref' in self.c['mix']:
            o = RefChild()
        else:
            o = Child()
        o.val = val
        return o

    def loads(self, n):
        nd = self.node[n]
        return (nd.vf_backend if self.load else nd.storage).loads

    def nk(self, x):
        return self.node[x.split('.')[0]], self.key[x]

    def status(self, x, o):
        if o is None:
            self.last[x] = o
            return '-'
        if x in self.last and self.last[x] is o:
            return 'same'
        st = 'old' if any(o is p for p in self.read) else 'new'
        self.last[x] = o
        self.read.append(o)
        return st

    def counted(self, x):
        if self.c['cache'] == 'F':
            return '-'
        n = self.loads(x.split('.')[0]).get(self.key[x], 0)
        if n == 0:
            return '0'
        if self.c['kind'] == 'fac':
            return '+'
        return '1' if n == 1 else 'many'

    def seen(self, x, o):
        return ['N' if o is None else getattr(o, 'val', repr(o)), self.status(x, o)]

    def run(self, op):
        try:
            return self._run(op)
        except KeyError:
            return ['err', 'KeyError']
        except OSError:
            return ['err', 'OSError']
        finally:
            if self.load:
                for n in self.node.values():
                    n.vf_backend.fail = None

    def _run(self, op):
        o, via = op['o'], op.get('via', '')
        for n in self.node:
            self.loads(n).clear()
        if 'x' in op:
            x = op['x']
            node, key = self.nk(x)
        else:
            n = op['n']
            node = self.node[n]
            slot = {self.key[s]: s for s in self.c['slots'][n]}
        if o in ('read', 'readfail'):
            if o == 'readfail':
                node.vf_backend.fail = 'read'
            v = node[key]
            return ['ok'] + self.seen(x, v) + [self.counted(x)]
        if o == 'get':
            mark = object()
            v = node.get(key, mark)
            if v is mark:
                return ['default']
            return ['ok'] + self.seen(x, v) + [self.counted(x)]
        if o == 'contains':
            r = node.has_key(key) if via == 'b' else key in node
            return ['ok', 'T' if r is True else 'F' if r is False else repr(r)]
        if o == 'values':
            if via == 'b':
                vals = list(node.iteritems())
            elif via == 'c':
                vals = list(zip(node.keys(), node.values()))
            elif via == 'd':
                vals = list(zip(node.iterkeys(), node.itervalues()))
            else:
                vals = node.items()
            res = []
            for k, v in vals:
                s = slot.get(k, repr(k))
                res.append([s] + self.seen(s, v) + [self.counted(s) if k in slot else ''])
            return ['ok', sorted(res, key=lambda r: self.x.index(r[0]) if r[0] in self.x else 99)]
        if o == 'keys':
            ks = list(node.iterkeys()) if via == 'b' else list(node) if via == 'c' else node.keys()
            if len(node) != len(ks):
                return ['ok', 'len differs']
            return ['ok', sorted([slot.get(k, repr(k)) for k in ks],
                                 key=lambda s: self.x.index(s) if s in self.x else 99)]
        if o in ('set', 'setfail', 'setlate'):
            v = self.make(op['v'])
            if o != 'set':
                node.vf_backend.fail = 'write' if o == 'setfail' else 'late'
            if via == 'b':
                node.update([(key, v)])
            else:
                node[key] = v
            return ['ok']
        if o == 'setdefault':
            v = self.make(op['v'])
            r = node.setdefault(key, v)
            if r is v and v is not None:
                return ['ok', op['v'], 'default']
            return ['ok'] + self.seen(x, r)
        if o in ('del', 'delfail', 'dellate'):
            if o != 'del':
                node.vf_backend.fail = 'write' if o == 'delfail' else 'late'
            del node[key]
            return ['ok']
        if o == 'pop':
            if via == 'b':
                mark = object()
                r = node.pop(key, mark)
                if r is mark:
                    return ['err', 'KeyError']
            else:
                r = node.pop(key)
            return ['ok'] + self.seen(x, r)
        if o == 'detach':
            return ['ok'] + self.seen(x, node.detach(key))
        if o == 'popitem':
            k, v = node.popitem()
            s = slot.get(k, repr(k))
            return ['ok', s] + self.seen(s, v)
        if o == 'clear':
            node.clear()
            return ['ok']
        if o == 'inv':
            if via == 'b':
                node.invalidate(key)
            else:
                node.invalidate(key=key)
            return ['ok']
        if o == 'invunknown':
            node.invalidate(key='unknown key')
            return ['ok']
        if o == 'invall':
            if via == 'b':
                node.invalidate(None)
            elif via == 'c':
                node.invalidate(key=None)
            else:
                node.invalidate()
            return ['ok']
        if o == 'ext':
            if self.load:
                if op['v'] == 'none':
                    node.vf_backend.data.pop(key, None)
                else:
                    node.vf_backend.data[key] = op['v']
            elif op['v'] == 'none':
                if key in node.storage:
                    del node.storage[key]
            else:
                node.storage[key] = self.make(op['v'])
            return ['ok']
        raise AssertionError(o)


def factory(conf, falsy):
    def make():
        o = Falsy() if falsy else RefChild() if 'ref' in conf['mix'] else Child()
        o.val = 'F'
        return o
    return make


MIXES = [('own', 'T', 'T', 'nodify'), ('plain', 'T', 'T', 'nodify'), ('own', 'T', 'T', 'life'),
         ('plain', 'T', 'T', 'life'), ('plain', 'T', 'F', 'adopt'), ('vol', 'T', 'F', 'adopt'),
         ('fac', 'T', 'F', 'adopt'), ('vol', 'T', 'F', 'dict'), ('fac', 'T', 'F', 'dict'),
         ('plain', 'T', 'F', 'life'), ('vol', 'T', 'F', 'life'), ('plain', 'T', 'F', 'ref'),
         ('vol', 'T', 'F', 'ref'), ('plain', 'T', 'F', 'reflife'), ('fac', 'T', 'F', 'reflife'),
         ('plain', 'T', 'F', 'outlife'), ('vol', 'T', 'F', 'outlife'), ('plain', 'T', 'T', 'outlife'),
         ('own', 'T', 'T', 'outlife'), ('plain', 'T', 'F', 'outref'), ('vol', 'T', 'F', 'outref'),
         ('plain', 'T', 'F', 'outreflife'), ('fac', 'T', 'F', 'outreflife'),
         ('plain', 'F', 'F', 'adopt'), ('vol', 'F', 'F', 'adopt'), ('vol', 'F', 'F', 'dict'),
         ('fac', 'F', 'F', 'adopt'), ('plain', 'F', 'F', 'ref'), ('plain', 'F', 'F', 'life')]


def random_conf(rnd):
    kind, cache, load, mix = rnd.choice(MIXES)
    nodes = ['a', 'b', 'c'][:rnd.choice([1, 1, 2, 3])]
    nk = rnd.randint(1, 4) if rnd.random() < .8 else 12
    if nk > 4:
        nodes = nodes[:2]
    slots = {n: ['%s.%d' % (n, i) for i in range(nk)] for n in nodes}
    order = [x for n in nodes for x in slots[n]]
    rnd.shuffle(order)
    ext = 'ref' not in mix
    return dict(slots=slots, order=order, cache=cache, kind=kind, load=load,
                ext='T' if ext and rnd.random() < .8 else 'F',
                fail='T' if load == 'T' and rnd.random() < .6 else 'F',
                vals=['v', 'w', 'x'] + (['N'] if ext and rnd.random() < .5 else []), mix=mix, keys=rnd.choice(sorted(KEYSETS)),
                values=rnd.choice(['node', 'falsy']))


def choose(rnd, w):
    c = w.c
    x = rnd.choice(c['order'])
    n = rnd.choice(sorted(c['slots']))
    node, key = w.nk(x)
    back = node.vf_backend.data if w.load else node.storage
    for _ in range(50):
        o = rnd.choice(['read'] * 6 + ['get', 'contains', 'values', 'keys', 'set', 'set', 'setdefault',
                        'del', 'pop', 'detach', 'popitem', 'clear', 'inv', 'inv', 'invunknown',
                        'invall', 'ext', 'ext', 'readfail', 'setfail', 'delfail', 'setlate', 'dellate'])
        if o == 'ext' and c['ext'] == 'F':
            continue
        if (o.endswith('fail') or o.endswith('late')) and (
                c['fail'] == 'F' or (o[:3] == 'del' and o != 'del' and key not in back)):
            continue
        if c['kind'] == 'fac' and (o in ('clear', 'popitem') or (
                o == 'del' and key not in back and c['mix'] not in ('adopt', 'dict'))):
            continue
        break
    op = dict(o=o, via=rnd.choice('abcd'))
    if o in ('values', 'keys', 'popitem', 'clear', 'invall', 'invunknown'):
        op['n'] = n
    else:
        op['x'] = x
    if o in ('set', 'setdefault', 'setfail', 'setlate'):
        op['v'] = rnd.choice(c['vals'])
    if o == 'ext':
        op['v'] = rnd.choice(c['vals'] + ['none'])
    return op


def vary(conf, rnd):
    return dict(conf, keys=conf.get('keys') or rnd.choice(sorted(KEYSETS)))
