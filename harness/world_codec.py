"""Real values and codecs for spec/Codec.tla."""
from collections import OrderedDict

from node.base import BaseNode
from node.base import OrderedNode
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Adopt
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.interfaces import INode
from node.utils import UNSET
from node.utils import StrCodec
from node.utils import decode
from node.utils import encode
from plumber import plumbing


class Str(str):
    pass


class Octets(bytes):
    pass


class List(list):
    pass


class Tuple(tuple):
    pass


class Obj(object):
    pass


class FalseObj(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


@plumbing(Nodify, DictStorage)
class Loose(object):
    """Any values, any keys"""
    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(Nodify, OdictStorage)
class LooseOrdered(object):
    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class LooseAdopt(object):
    pass

OTHER = {'n': None, 'i': 7, 'f': 1.5, 's': {u'\xfc', b'x'}, 'a': bytearray(b'\xfc'), 'x': Obj(),
         'y': frozenset([u'ab', b'ab']), 'c': Loose, 't': True, 'z': 0, 'g': (lambda: u'x'),
         'U': UNSET, 'F': FalseObj(), 'v': memoryview(b'ab'), 'e': Ellipsis, 'k': u'\xfc'.encode}
FROZEN = {k: repr(v) for k, v in OTHER.items()}


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.pick = conf.get('pick', 0)
        self.v = {s: None for s in conf['slots']}
        self.codecs = {}

    def codec(self, e, soft):
        self.pick += 1
        if e == 'utf-8' and soft and self.pick % 3:
            return StrCodec() if self.pick % 3 == 1 else None
        key = (e, soft)
        if key not in self.codecs:
            if e == 'utf-8' and self.pick % 2:
                self.codecs[key] = StrCodec(soft=soft)
            elif soft and self.pick % 2:
                self.codecs[key] = StrCodec(e)
            else:
                self.codecs[key] = StrCodec(e, soft)
        return self.codecs[key]

    def build(self, t):
        self.pick += 1
        k = self.pick
        if t[0] == 'u':
            s = u''.join(map(chr, t[1]))
            return Str(s) if k % 7 == 0 else s
        if t[0] == 'b':
            s = bytes(t[1])
            return Octets(s) if k % 7 == 0 else s
        if t[0] == 'o':
            return OTHER[t[1]]
        if t[0] == 'L':
            return (List if k % 5 == 0 else list)(self.build(x) for x in t[1])
        if t[0] == 'T':
            return (Tuple if k % 5 == 0 else tuple)(self.build(x) for x in t[1])
        items = [(self.build(a), self.build(b)) for a, b in t[1]]
        if t[0] == 'D':
            return (OrderedDict if k % 5 == 0 else dict)(items)
        cls = [Loose, LooseOrdered, Loose]
        if all(isinstance(a, str) and a and a[:2] != '__' for a, b in items):
            cls = cls + [LooseAdopt]
            if all(INode.providedBy(b) for a, b in items):
                cls = [BaseNode, OrderedNode, LooseAdopt]
        n = cls[k % len(cls)](name='name')
        for a, b in items:
            n[a] = b
        return n

    def view(self, x):
        for k, v in OTHER.items():
            if x is v:
                if repr(v) != FROZEN[k]:
                    return ['o', '?changed ' + k]
                return ['o', k]
        if INode.providedBy(x):
            return ['N', [[self.view(k), self.view(x[k])] for k in x.keys()]]
        if isinstance(x, dict):
            return ['D', [[self.view(k), self.view(v)] for k, v in x.items()]]
        if isinstance(x, list):
            return ['L', [self.view(v) for v in x]]
        if isinstance(x, tuple):
            return ['T', [self.view(v) for v in x]]
        if isinstance(x, bytes):
            return ['b', list(x)]
        if isinstance(x, str):
            return ['u', list(map(ord, x))]
        return ['o', '?' + repr(x)[:80]]

    def all(self):
        return {s: ['-', '-'] if x is None else self.view(x[0]) for s, x in self.v.items()}

    def run(self, op):
        o = op['o']
        if o == 'put':
            self.v[op['s']] = [self.build(op['v'])]
            return ['ok', self.all()]
        if o == 'grow':
            x = self.v[op['s']][0]
            for i in op['p']:
                if isinstance(x, (list, tuple)):
                    x = x[i - 1]
                else:
                    x = x[list(x.keys())[i - 1]]
            if isinstance(x, list):
                x.append(None)
            else:
                x['new'] = BaseNode()
            return ['ok', self.all()]
        c = self.codec(op['e'], op['f'] == 'T')
        x = self.v[op['s']][0]
        before = self.identity(x)
        try:
            if c is None:
                r = encode(x) if o == 'enc' else decode(x)
            else:
                r = c.encode(x) if o == 'enc' else c.decode(x)
        except UnicodeError as e:
            if o == 'enc':
                return ['UnicodeError', self.all()]
            return [type(e).__name__, self.all()]
        finally:
            if before != self.identity(x):
                self.v[op['s']] = [u'other objects inside of the argument']
        self.v[op['t']] = [r]
        return ['ok', self.all()]

    def identity(self, x):
        """Which objects a value consists of"""
        if INode.providedBy(x) or isinstance(x, dict):
            return (id(x), [(self.identity(k), self.identity(x[k])) for k in list(x.keys())])
        if isinstance(x, (list, tuple)):
            return (id(x), [self.identity(y) for y in x])
        return id(x)


WORDS = [u'', u'a', u'abc', u'\xfc', u'\u2603', u'\U0001f600', u'\ud800', u'\x7f', u'\x80', u'\xff',
         u'\u07ff', u'\u0800', u'\uffff', u'\U0010ffff', u'\ufeff', u'\x00', u'a/\n\u0301', u'\xc3\xbc',
         u'\udc80', u'True']
OCTS = [b'', b'a', b'\xfc', b'\xc3\xbc', b'\xe2\x98\x83', b'\xe2\x98', b'\xc0\xaf', b'\xed\xa0\x80',
        b'\xf0\x9f\x98\x80', b'\xf4\x90\x80\x80', b'\x80', b'\xe0\x82\x83', b'\xf5\x80\x80\x80',
        b'\xef\xbb\xbfx', b'\x7f\x80', b'\xc1\xbf', b'\xf0\x8f\xbf\xbf', b'\x00\xff', b'abc\xe9']


def random_conf(rnd):
    return dict(slots=['s', 't', 'r'], pick=rnd.randint(0, 1000))


def stretch(rnd, w):
    """A long text; the end differs from the rest"""
    n = rnd.choice([8, 16, 32, 64, 128, 256]) + rnd.randint(-2, 2)
    pad = type(w)(w[:0]).join([w] * (n // len(w)))
    fill = u'x' if isinstance(w, str) else b'x'
    k = rnd.random()
    if k < .3:
        return fill * n + w
    if k < .6:
        return w + fill * n
    return fill * rnd.randint(0, 3) + pad + w


def leaf(rnd, clean):
    k = rnd.random()
    if k < .4:
        w = u''.join(rnd.choice(WORDS) for _ in range(rnd.choice([1, 1, 2, 3])))
        if clean:
            w = u''.join(c for c in w if not 0xd800 <= ord(c) < 0xe000)
        if len(w) and rnd.random() < .08:
            w = stretch(rnd, w)
        return ['u', list(map(ord, w))]
    if k < .75:
        w = b''.join(rnd.choice(OCTS) for _ in range(rnd.choice([1, 1, 2])))
        if rnd.random() < .2:
            w = bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 4)))
        if w and rnd.random() < .08:
            w = stretch(rnd, w)
        return ['b', list(w)]
    return ['o', rnd.choice(sorted(OTHER))]


def term(rnd, depth, clean):
    if depth == 0 or rnd.random() < .2:
        return leaf(rnd, clean)
    t = rnd.choice('LTDDN')
    n = rnd.choice([0, 1, 1, 2, 3] if rnd.random() < .95 else [6, 12, 20])
    if t in 'LT':
        return [t, [term(rnd, depth - 1, clean) for _ in range(n)]]
    items, seen = [], set()
    for _ in range(n):
        if t == 'N' and rnd.random() < .5:
            key = ['u', list(map(ord, rnd.choice([u'a', u'b', u'\xfc', u'x y', u'\u2603'])))]
        else:
            key = rnd.choice([leaf(rnd, clean), leaf(rnd, clean),
                              ['T', [leaf(rnd, clean), ['T', [leaf(rnd, clean)]]]]])
        while True:
            bad = [x for x in flat(key) if x[0] == 'o' and x[1] in 'satzUFv']
            if not bad:
                break
            key = leaf(rnd, clean)
        if t == 'N' and key[0] == 'u' and key[1][:2] == [95, 95]:
            continue
        # keys which are equal in some encoding are avoided
        sig = signature(key)
        if sig & seen:
            continue
        seen |= sig
        items.append([key, term(rnd, depth - 1, clean)])
    return [t, items]


def flat(t):
    if t[0] == 'T':
        return [y for x in t[1] for y in flat(x)]
    return [t]


def signature(key):
    if key[0] == 'u':
        s = u''.join(map(chr, key[1]))
        res = {s}
        for e in ('utf-8', 'latin-1', 'ascii'):
            try:
                res.add(s.encode(e))
            except UnicodeError:
                pass
        for b in list(res):
            if isinstance(b, bytes):
                res.add(b.decode('latin-1'))
        return res
    if key[0] == 'b':
        b = bytes(key[1])
        res = {b, b.decode('latin-1'), b.decode('latin-1').encode('utf-8')}
        try:
            res |= signature(['u', list(map(ord, b.decode('utf-8')))])
        except UnicodeError:
            pass
        return res
    return {repr(key)}


def choose(rnd, w):
    slots = w.c['slots']
    full = [s for s in slots if w.v[s] is not None]
    k = rnd.random()
    if not full or k < .35:
        return dict(o='put', s=rnd.choice(slots), v=term(rnd, rnd.choice([0, 1, 2, 3, 4]),
                                                         rnd.random() < .7))
    s = rnd.choice(full)
    if k < .45:
        paths = [p for p in places(w.v[s][0]) if can_grow(w, s, p)]
        if paths:
            return dict(o='grow', s=s, p=rnd.choice(paths))
    t = rnd.choice(slots)
    o, e = rnd.choice(['enc', 'dec']), rnd.choice(['utf-8', 'utf-8', 'latin-1', 'ascii'])
    if clash(w.v[s][0], o, e):
        return dict(o='put', s=s, v=leaf(rnd, True))
    return dict(o=o, s=s, t=t, e=e, f=rnd.choice('TTF'))


def places(x):
    res = [[]]
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x, 1):
            res += [[i] + p for p in places(y)]
    elif isinstance(x, dict) or INode.providedBy(x):
        for i, k in enumerate(list(x.keys()), 1):
            res += [[i] + p for p in places(x[k])]
    return res


def can_grow(w, s, p):
    x = w.v[s][0]
    for i in p:
        x = x[i - 1] if isinstance(x, (list, tuple)) else x[list(x.keys())[i - 1]]
    if isinstance(x, (dict,)) or INode.providedBy(x):
        return u'new' not in x.keys() and b'new' not in x.keys()
    return isinstance(x, list)


def clash(x, o, e):
    """Do keys become equal?  An upper bound."""
    if isinstance(x, (list, tuple)):
        return any(clash(y, o, e) for y in x)
    if isinstance(x, dict) or INode.providedBy(x):
        keys = []
        for k in x.keys():
            try:
                keys.append(key_as(k, o, e))
            except UnicodeError:
                keys.append(k)
        return len(set(keys)) < len(keys) or any(clash(x[k], o, e) for k in x.keys())
    return False


def key_as(k, o, e):
    if isinstance(k, tuple):
        return tuple(key_as(x, o, e) for x in k)
    if o == 'enc' and isinstance(k, str):
        return k.encode(e)
    if o == 'dec' and isinstance(k, bytes):
        try:
            return k.decode(e)
        except UnicodeError:
            return k
    return k


def vary(conf, rnd):
    return dict(conf, pick=rnd.randint(0, 1000))
