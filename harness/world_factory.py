"""Real nodes with child factories and fixed children for spec/Factory.tla."""
import functools

from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FixedChildren
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import VolatileStorageInvalidate
from node.interfaces import INode
from odict import odict
from plumber import plumbing

KEYSETS = {
    'words': ['foo', 'bar', 'baz', 'bam'],
    'odd': ['', 'a/b', '__x', 'None'],
    'types': [0, '', (), -1],
    'blank': ['a ', 'e\u0301', '\xe9', ' a'],
}
for s in KEYSETS:
    KEYSETS[s] += [7 + i if s == 'types' and i % 2 else '%s%d' % (s, i) for i in range(8)]


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Child(object):
    val = None


class FalseChild(Child):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return isinstance(other, FalseChild)

    __hash__ = None


class Calls(object):
    """What the factories of one world do."""

    def __init__(self):
        self.calls, self.fail, self.falsy = [], False, False
        self.made = []


CALLS = Calls()


def make(fid):
    CALLS.calls.append(fid)
    if CALLS.fail:
        raise OSError('factory')
    if fid == 'fN':
        return None
    o = FalseChild() if CALLS.falsy else Child()
    o.val = fid
    CALLS.made.append(o)
    return o


class Falsy(object):
    """A factory with false truth value."""

    def __init__(self, fid):
        self.fid = fid

    def __call__(self):
        return make(self.fid)

    def __bool__(self):
        return False


def factory(fid, style):
    if style == 'partial':
        return functools.partial(make, fid)
    if style == 'class' and fid != 'fN':
        class Made(Child):
            def __init__(self, name=None, parent=None):
                CALLS.calls.append(fid)
                if CALLS.fail:
                    raise OSError('factory')
                self.__name__ = name
                self.__parent__ = parent
                self.val = fid
                CALLS.made.append(self)
        return Made
    return Falsy(fid) if fid.endswith('1') else (lambda: make(fid))


def build(kind, decl, inv, mix, how, base, keys, shared):
    style = {'dict': 'class', 'sub': 'partial'}.get(how, 'lambda')
    # one factory may create several children
    facs = {}
    items = []
    for k, f in decl:
        if f not in facs or not shared:
            facs[f] = factory(f, style)
        items.append((keys[k], facs[f]))
    if kind == 'fac':
        facs = dict(items) if how == 'dict' else odict(items)
        if how == 'inst':
            attrs = {}
        elif not items:
            attrs = {}
        else:
            attrs = dict(factories=facs)
        if base is not None:
            return type('Sub', (base,), dict(attrs, factories=facs)), facs
        b = [VolatileStorageInvalidate] if inv else []
        pre = {'plain': [Adopt], 'valid': [NodeChildValidate, Adopt], 'life': [Lifecycle, Adopt],
               'spaces': [Nodespaces, Adopt, Attributes]}[mix]
        b = pre + b + [DefaultInit, Nodify, ChildFactory,
                       DictStorage if how == 'dict' else OdictStorage]
        return plumbing(*b)(type('Fac', (object,), attrs)), facs
    attrs = dict(fixed_children_factories=tuple(items))
    if base is not None:
        return type('SubFixed', (base,), attrs), None
    b = [DefaultInit, Nodify, FixedChildren] if mix != 'spaces' else \
        [Nodify, FixedChildren]
    return plumbing(*b)(type('Fixed', (object,), attrs)), None


CLASSES = {}


class World(object):
    def __init__(self, conf):
        self.c = conf
        ks = KEYSETS[conf.get('skin', 'words')]
        self.keys = {k: ks[i] for i, k in enumerate(sorted(conf['keys']))}
        self.back = {v: k for k, v in self.keys.items()}
        CALLS.calls, CALLS.fail = [], False
        CALLS.falsy = conf.get('falsy', False)
        mix = conf.get('mix', 'plain')
        self.node = {}
        self.root = Child()
        built, base = {}, None
        for c in sorted(conf['cls']):
            d = conf['cls'][c]
            built[c] = build(d['kind'], d['decl'], conf['inv'] == 'T', mix, conf['how'],
                             base if conf['how'] in ('sub', 'inst') else None, self.keys,
                             conf.get('shared', True))
            if conf['how'] == 'sub':
                base = built[c][0]
        for i in sorted(conf['insts']):
            cls, facs = built[conf['insts'][i]]
            d = conf['cls'][conf['insts'][i]]
            # fixed nodes are created within a tree as well
            n = cls(i, self.root) if d['kind'] == 'fixed' and conf['how'] == 'tree' else \
                cls(name=i, parent=self.root) if d['kind'] == 'fixed' and \
                conf['how'] == 'sub' and mix != 'spaces' else cls()
            if d['kind'] == 'fixed':
                # exactly one call for each child at construction
                if mix != 'spaces' and [n.name, n.parent] != (
                        [i, self.root] if conf['how'] in ('tree', 'sub') else [None, None]):
                    self.bad = ['constructor arguments are lost']
                self.made = CALLS.calls[:]
                if sorted(self.made) != sorted(f for _, f in d['decl']):
                    self.bad = self.made
                CALLS.calls = []
            elif conf['how'] == 'inst':
                n.factories = facs
            self.node[i] = n
        self.ret = {}         # id -> (object, instance, key)

    bad = None

    def tok(self, i, k, o, gone=False):
        if o is None:
            return ['fN', '-']
        v = getattr(o, 'val', repr(o))
        n = self.node[i]
        if not gone and INode.providedBy(o) and not (o.name == self.keys[k] and type(o.name) is
                                        type(self.keys[k]) and o.parent is n):
            v += ' not located'
        ident = id(o)
        if ident in self.ret:
            st = 'same' if self.ret[ident][1:] == (i, k) else 'shared'
        else:
            st = 'new'
        self.ret[ident] = (o, i, k)
        return [v, st]

    def calls(self):
        c, CALLS.calls = CALLS.calls, []
        return c

    def run(self, op):
        fixed = self.c['cls'][self.c['insts'][op['i']]]['kind'] == 'fixed'
        CALLS.calls, CALLS.made = [], []
        if self.bad is not None:
            return ['constructed', self.bad]
        try:
            return self._run(op, fixed)
        except KeyError:
            return ['err', 'KeyError']
        except OSError:
            return ['err', 'OSError']
        except NotImplementedError:
            return ['err', 'rejected']
        finally:
            CALLS.fail = False

    def _run(self, op, fixed):
        o, i, via = op['o'], op['i'], op.get('via', '')
        n = self.node[i]
        k = op['k']
        key = self.keys[k] if k else None
        if o == 'readfail':
            CALLS.fail = True
        if o in ('read', 'readfail'):
            v = n[key]
            return ['ok'] + self.tok(i, k, v) + [self.calls()]
        if o == 'get':
            mark = object()
            v = n.get(key, mark)
            if v is mark:
                return ['default']
            return ['ok'] + self.tok(i, k, v) + [self.calls()]
        if o == 'setdefault':
            new = self.value(op['v'])
            v = n.setdefault(key, new)
            if v is new:
                return ['ok', op['v']]
            return ['ok'] + self.tok(i, k, v) + [self.calls()]
        if o == 'contains':
            r = n.has_key(key) if via == 'b' else key in n
            return ['ok', 'T' if r is True else 'F' if r is False else repr(r), self.calls()]
        if o == 'keys':
            ks = list(n.iterkeys()) if via == 'b' else list(n) if via == 'c' else n.keys()
            if len(n) != len(ks):
                return ['ok', 'len differs']
            return ['ok', [self.back.get(x, repr(x)) for x in ks], self.calls()]
        if o == 'values':
            had = set(getattr(n, 'storage', ()))
            if via == 'b':
                it = n.iteritems()
            elif via == 'c':
                it = zip(n.iterkeys(), n.itervalues())
            elif via == 'd':
                ks = n.keys()
                vals = n.values()
                it = None
            else:
                ks = n.keys()
                vals = [v for _, v in n.items()]
                it = None
            res = []
            if it is None:
                calls = self.calls()
                for x, v in zip(ks, vals):
                    k = self.back.get(x, repr(x))
                    t = self.tok(i, k, v)
                    # attribute the calls to the children they made
                    c = []
                    f = t[0]
                    if f in calls and (
                            x not in had if v is None else any(m is v for m in CALLS.made)):
                        calls.remove(f)
                        c = [f]
                    res.append([k] + t + [c])
                if calls:
                    res.append(['calls', calls])
                if len(vals) != len(ks):
                    res.append(['len'])
            else:
                for x, v in it:
                    k = self.back.get(x, repr(x))
                    res.append([k] + self.tok(i, k, v) + [self.calls()])
            return ['ok', res]
        if o == 'first':
            it = {'b': n.iteritems, 'c': n.itervalues}.get(via, n.itervalues)()
            for v in it:
                k = self.back[n.keys()[0]]
                if via == 'b':
                    v = v[1]
                return ['ok', [[k] + self.tok(i, k, v) + [self.calls()]]]
            return ['ok', []]
        if o == 'set':
            v = self.value(op['v'])
            try:
                if via == 'b':
                    n.update([(key, v)])
                elif via == 'c':
                    n.update({key: v})
                else:
                    n[key] = v
            except NotImplementedError:
                if v.name is not None or v.parent is not None:
                    return ['err', 'offered value changed']
                raise
            return ['ok']
        if o == 'del':
            del n[key]
            return ['ok']
        if o == 'pop':
            v = n.pop(key)
            return ['ok'] + self.tok(i, k, v, True) + [self.calls()]
        if o == 'detach':
            v = n.detach(key)
            return ['ok'] + self.tok(i, k, v, True) + [self.calls()]
        if o == 'popitem':
            x, v = n.popitem()
            k = self.back.get(x, repr(x))
            return ['ok', k] + self.tok(i, k, v, True) + [self.calls()]
        if o == 'clear':
            n.clear()
            return ['ok']
        if o == 'inv':
            n.invalidate(key) if via == 'b' else n.invalidate(key=key)
            return ['ok']
        if o == 'invall':
            n.invalidate()
            return ['ok']
        raise AssertionError(o)

    def value(self, v):
        o = FalseChild() if CALLS.falsy else Child()
        o.val = v
        return o


def random_conf(rnd):
    kind = rnd.choice(['fac', 'fac', 'fixed'])
    keys = ['k%d' % i for i in range(rnd.randint(1, 4) if rnd.random() < .8 else 12)]
    how = rnd.choice(['plain', 'sub', 'dict', 'inst'] if kind == 'fac' else
                     ['plain', 'sub', 'tree'])
    cls = {}
    for c in ['A', 'B', 'C'][:rnd.randint(1, 3)]:
        ks = rnd.sample(keys, rnd.randint(0, len(keys)))
        cls[c] = dict(kind=kind, decl=[[k, 'f%d' % rnd.randint(0, 3)] for k in ks])
    mix = rnd.choice(['plain', 'valid', 'life'])
    if kind == 'fac' and mix == 'plain' and rnd.random() < .3:
        for d in cls.values():
            for x in d['decl']:
                x[1] = 'fN' if x[1] == 'f0' else x[1]
    if how == 'inst' and rnd.random() < .5:
        cls = dict(list(cls.items())[:1])
    insts = {i: rnd.choice(sorted(cls)) for i in ['a', 'b', 'c', 'd'][:rnd.randint(1, 4)]}
    return dict(cls=cls, insts=insts, keys=keys, vals=['v', 'w'],
                inv=rnd.choice('TF') if kind == 'fac' else 'F', how=how,
                skin=rnd.choice(sorted(KEYSETS)), falsy=rnd.random() < .3 and how != 'dict',
                mix=mix, shared=rnd.random() < .7)


def choose(rnd, w):
    c = w.c
    while True:
        i = rnd.choice(sorted(w.node))
        d = c['cls'][c['insts'][i]]
        decl = [k for k, _ in d['decl']]
        k = rnd.choice(c['keys'])
        o = rnd.choice(['read'] * 6 + ['get', 'contains', 'contains', 'keys', 'values', 'first', 'set', 'del',
                        'setdefault', 'pop', 'detach', 'popitem', 'clear', 'inv', 'inv',
                        'invall', 'readfail'])
        n = w.node[i]
        if d['kind'] == 'fac':
            have = list(n.storage)
            if o in ('inv', 'invall') and c['inv'] == 'F':
                continue
            if o == 'inv' and k not in decl and w.keys[k] in have:
                continue
            if o == 'clear' and not all(w.keys[x] in have for x in decl):
                continue
            if o == 'del' and c.get('mix') == 'life' and w.keys[k] not in have:
                continue
        elif o in ('inv', 'invall', 'readfail'):
            continue
        op = dict(o=o, i=i, k=k, via=rnd.choice('abcd'))
        if o in ('keys', 'values', 'first', 'popitem', 'clear', 'invall'):
            op['k'] = ''
        if o in ('set', 'setdefault'):
            op['v'] = rnd.choice(c['vals'])
        return op


def vary(conf, rnd):
    return dict(conf, skin=conf.get('skin') or rnd.choice(sorted(KEYSETS)))
