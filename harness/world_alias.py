"""Real aliasers and nodes with aliaser for spec/Alias.tla."""
import json

from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from node.utils import ReverseMapping
from odict import odict
from plumber import plumbing

CHARS = {
    'plain': dict(x='x', y='y', z='z'),
    'odd': dict(x='-', y='/', z='{}'),
    'uni': dict(x='\xe4', y='\U0001f600', z='\x00'),
}


DEFAULT = object()
ERRORS = dict(KeyError=KeyError, ValueError=ValueError, RuntimeError=RuntimeError,
              AttributeError=AttributeError)


def failing(cls):
    class Failing(cls):
        fail = None

        def _check(self, key):
            if FAIL:
                raise ERRORS[FAIL[0]](key)

        def __getitem__(self, key):
            self._check(key)
            return cls.__getitem__(self, key)

        def __setitem__(self, key, value):
            self._check(key)
            cls.__setitem__(self, key, value)

        def __delitem__(self, key):
            self._check(key)
            cls.__delitem__(self, key)
    return Failing


# name of the error every access of a backend raises
FAIL = []
FailOdict, FailDict = failing(odict), failing(dict)


def make(ordered):
    storage = FailOdict if ordered else FailDict
    backend = OdictStorage if ordered else DictStorage

    class Aliased(object):
        @property
        def storage(self):
            try:
                return self.__dict__['vf_storage']
            except KeyError:
                self.__dict__['vf_storage'] = storage()
                return self.__dict__['vf_storage']
    return plumbing(Alias, Nodify, DefaultInit, backend)(Aliased)


CLS = {'T': make(True), 'F': make(False)}


class Value(object):
    """Values which are equal when their tokens are."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Value) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return self.v != 'w'


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.chars = CHARS[conf.get('chars', 'plain')]
        self.rev = {v: k for k, v in self.chars.items()}
        self.node = CLS[conf['ord']]()
        self.al = self.aliaser(conf['al'])
        self.a = json.loads(json.dumps(conf['al']))
        if conf['al']['t'] != 'none':
            self.node.aliaser = self.al
        self.rm = ReverseMapping(self.node.storage)

    def text(self, k):
        return ''.join(self.chars[c] for c in k)

    def unt(self, t):
        if not isinstance(t, str):
            return ['?', repr(t)]
        res = []
        while t:
            for real, c in self.rev.items():
                if t.startswith(real):
                    res.append(c)
                    t = t[len(real):]
                    break
            else:
                return ['?', t]
        return res

    def aliaser(self, a):
        none = self.c.get('none')
        opt = lambda x: None if none and not x else self.text(x)
        if a['t'] == 'none':
            return None
        if a['t'] == 'dict':
            data = [(self.text(x), self.text(r)) for x, r in a['pairs']]
            if a['strict'] == 'T':
                return DictAliaser(data) if not none else DictAliaser(data=data, strict=True)
            return DictAliaser(data, strict=False)
        if a['t'] == 'prefix':
            return PrefixAliaser(opt(a['x'])) if a['x'] or not none else PrefixAliaser()
        if a['t'] == 'suffix':
            return SuffixAliaser(opt(a['x'])) if a['x'] or not none else SuffixAliaser()
        if a['t'] == 'both':
            return PrefixSuffixAliaser(opt(a['p']), opt(a['s']))
        parts = [self.aliaser(p) for p in a['parts']]
        return AliaserChain(parts if none else tuple(parts))

    def run(self, op):
        key = self.text(op['k'])
        if op['o'] in ('rget',):
            key = Value(op['v'])
        try:
            return self._run(op, key)
        except KeyError as e:
            if op['o'] == 'popitem':
                return ['err', 'KeyError', 'empty']
            if op['o'] == 'update':
                items = [self.text(k) for k, _ in op['items']]
            else:
                items = [key]
            if len(e.args) == 1 and e.args[0] in items:
                how = 'given'
            elif e.args and any(str(x) in str(e.args[0]) for x in items):
                how = 'mentioned'
            else:
                how = 'other'
            return ['err', 'KeyError', how]

    def val(self, v):
        return v.v if isinstance(v, Value) else v if v == 'default' else repr(v)

    def _run(self, op, key):
        o, via, n = op['o'], op.get('via', ''), self.node
        if o == 'alias':
            return ['ok', self.unt(self.al.alias(key))]
        if o == 'unalias':
            return ['ok', self.unt(self.al.unalias(key))]
        if o == 'rawset':
            n.storage[key] = Value(op['v'])
            return ['ok']
        if o == 'rawdel':
            if key in n.storage:
                del n.storage[key]
            return ['ok']
        if o == 'raw':
            return ['ok', [[self.unt(k), self.val(v)] for k, v in n.storage.items()]]
        if o == 'get':
            return ['ok', self.val(n[key])]
        if o == 'getdef':
            return ['ok', self.val(n.get(key, 'default'))]
        if o == 'in':
            r = n.has_key(key) if via == 'b' else key in n
            return ['ok', 'T' if r is True else 'F' if r is False else repr(r)]
        if o == 'set':
            n[key] = Value(op['v'])
            return ['ok']
        if o in ('setfail', 'getfail', 'delfail'):
            FAIL.append(op['e'])
            try:
                if o == 'setfail':
                    n[key] = Value('v')
                elif o == 'getfail':
                    return ['ok', self.val(n[key])]
                else:
                    del n[key]
            except KeyError:
                if op['e'] == 'KeyError' or un(self.a, op['k']) is None:
                    raise
                return ['err', 'KeyError']
            except ERRORS[op['e']]:
                return ['err', op['e']]
            finally:
                del FAIL[:]
            return ['ok']
        if o == 'map':
            self.al[key] = self.text(op['r'])
            self.a['pairs'] = put(self.a['pairs'], op['k'], op['r'])
            return ['ok']
        if o == 'unmap':
            if via == 'b':
                self.al.pop(key)
            else:
                del self.al[key]
            self.a['pairs'] = [p for p in self.a['pairs'] if p[0] != op['k']]
            return ['ok']
        if o == 'setal':
            self.a = json.loads(json.dumps(op['al']))
            self.al = n.aliaser = self.aliaser(op['al'])
            return ['ok']
        if o == 'setdefault':
            return ['ok', self.val(n.setdefault(key, Value(op['v'])))]
        if o == 'update':
            items = [(self.text(k), Value(v)) for k, v in op['items']]
            n.update(odict(items) if via == 'b' and len(set(dict(items))) == len(items) else items)
            return ['ok']
        if o == 'del':
            del n[key]
            return ['ok']
        if o == 'pop':
            if via == 'b':
                return ['ok', self.val(n.detach(key))]
            return ['ok', self.val(n.pop(key))]
        if o == 'popdef':
            return ['ok', self.val(n.pop(key, 'default'))]
        if o == 'popitem':
            k, v = n.popitem()
            return ['ok', self.unt(k), self.val(v)]
        if o == 'clear':
            n.clear()
            return ['ok']
        if o == 'keys':
            ks = list(n) if via == 'b' else list(n.iterkeys()) if via == 'c' else n.keys()
            return ['ok', [self.unt(k) for k in ks]]
        if o == 'values':
            return ['ok', [self.val(v) for v in (n.itervalues() if via == 'b' else n.values())]]
        if o == 'items':
            return ['ok', [[self.unt(k), self.val(v)] for k, v in
                           (n.iteritems() if via == 'b' else n.items())]]
        if o == 'len':
            return ['ok', len(n)]
        rm = self.rm
        if o == 'rget':
            return ['ok', self.unt(rm[key])]
        if o == 'rgetdef':
            r = rm.get(Value(op['v']), DEFAULT)
            return ['ok', ['default'] if r is DEFAULT else self.unt(r)]
        if o == 'rin':
            r = Value(op['v']) in rm
            return ['ok', 'T' if r is True else 'F' if r is False else repr(r)]
        if o == 'rkeys':
            return ['ok', [self.val(v) for v in (list(rm) if via == 'b' else rm.keys())]]
        if o == 'rvalues':
            return ['ok', [self.unt(v) for v in rm.values()]]
        if o == 'ritems':
            return ['ok', [[self.val(k), self.unt(v)] for k, v in rm.items()]]
        if o == 'rlen':
            return ['ok', len(rm)]
        raise AssertionError(o)


# -- random histories ------------------------------------------------------

def text(rnd, m):
    if rnd.random() < .04:
        m *= rnd.choice([3, 10])
    return [rnd.choice('xxyz') for _ in range(rnd.randint(0, m))]


def aliaser(rnd, depth=0):
    t = rnd.choice(['dict', 'prefix', 'suffix', 'both'] + ['chain'] * (2 if depth < 2 else 0))
    if t == 'dict':
        ks, vs = [], []
        for _ in range(rnd.randint(0, 5) if rnd.random() < .85 else 15):
            a, r = text(rnd, 2), text(rnd, 2)
            if a not in ks and r not in vs:
                ks.append(a)
                vs.append(r)
        return dict(t=t, strict=rnd.choice('TTF'), pairs=[list(p) for p in zip(ks, vs)])
    if t in ('prefix', 'suffix'):
        return dict(t=t, x=text(rnd, 3))
    if t == 'both':
        return dict(t=t, p=text(rnd, 2), s=text(rnd, 2))
    return dict(t=t, parts=[aliaser(rnd, depth + 1) for _ in range(rnd.randint(0, 3) if rnd.random() < .9 else 7)])


def random_conf(rnd):
    al = dict(t='none') if rnd.random() < .06 else aliaser(rnd)
    return dict(al=al, ord=rnd.choice('TF'), chars=rnd.choice(sorted(CHARS)),
                none=rnd.random() < .5)


def put(s, k, v):
    if any(p[0] == k for p in s):
        return [[p[0], v if p[0] == k else p[1]] for p in s]
    return s + [[k, v]]


# the translation, to stay where every stored key has an alias of its own
def al(a, k):
    t = a['t']
    if t == 'dict':
        for x, r in a['pairs']:
            if r == k:
                return x
        return None if a['strict'] == 'T' else k
    if t == 'chain':
        for p in a['parts']:
            k = al(p, k)
            if k is None:
                return None
        return k
    return {'none': lambda: k, 'prefix': lambda: a['x'] + k, 'suffix': lambda: k + a['x'],
            'both': lambda: a['p'] + k + a['s']}[t]()


def un(a, k):
    t = a['t']
    if t == 'dict':
        for x, r in a['pairs']:
            if x == k:
                return r
        return None if a['strict'] == 'T' else k
    if t == 'chain':
        for p in reversed(a['parts']):
            k = un(p, k)
            if k is None:
                return None
        return k
    p = a.get('p', a['x'] if t == 'prefix' else [])
    s = a.get('s', a['x'] if t == 'suffix' else [])
    if len(k) < len(p) + len(s) or k[:len(p)] != p or k[len(k) - len(s):] != s:
        return None
    return k[len(p):len(k) - len(s)]


def coherent(a, k):
    r = al(a, k)
    if r is None:
        return a['t'] == 'dict'
    return un(a, r) == k


ENUM = ('keys', 'values', 'items', 'len', 'popitem', 'clear')


def choose(rnd, w):
    a = w.a
    stored = [w.unt(k) for k in w.node.storage]
    while True:
        o = rnd.choice(['alias', 'unalias', 'rawset', 'rawset', 'rawdel', 'raw', 'get', 'get', 'get', 'getdef',
                        'in', 'set', 'set', 'set', 'setfail', 'setdefault', 'update', 'del', 'pop',
                        'popdef', 'popitem', 'clear', 'keys', 'values', 'items', 'len', 'rget',
                        'rgetdef', 'rin', 'rkeys', 'rvalues', 'ritems', 'rlen',
                        'getfail', 'delfail', 'map', 'map', 'unmap', 'setal'])
        if o in ('map', 'unmap') and a['t'] != 'dict' or o == 'setal' and rnd.random() < .8:
            continue
        if o in ('alias', 'unalias') and a['t'] == 'none':
            continue
        if o == 'clear' and rnd.random() < .7:
            continue
        if o in ENUM and not all(coherent(a, k) for k in stored):
            continue

        def real():
            if stored and rnd.random() < .5:
                return rnd.choice(stored)
            if a['t'] == 'dict' and a['pairs'] and rnd.random() < .7:
                return rnd.choice(a['pairs'])[1]
            return text(rnd, 3)

        def alias():
            r = al(a, real())
            if r is None or rnd.random() < .25:
                r = text(rnd, 4)
            return r
        op = dict(o=o, via=rnd.choice('abc'), k=[])
        if o == 'map':
            op['k'], op['r'] = text(rnd, 2), real()
            if any(p[1] == op['r'] and p[0] != op['k'] for p in a['pairs']):
                continue
        if o == 'unmap':
            op['k'] = rnd.choice(a['pairs'])[0] if a['pairs'] and rnd.random() < .8 else text(rnd, 2)
        if o == 'setal':
            op['al'] = dict(t='none') if rnd.random() < .3 else aliaser(rnd)
        if o in ('rawset', 'rawdel', 'alias'):
            op['k'] = real()
            if o == 'rawset' and not coherent(a, op['k']) and rnd.random() < .9:
                continue
        elif o in ('unalias', 'get', 'getdef', 'in', 'set', 'setfail', 'setdefault', 'del', 'pop',
                   'popdef', 'getfail', 'delfail'):
            op['k'] = alias()
            if o in ('set', 'setdefault'):
                r = un(a, op['k'])
                if r is not None and not coherent(a, r) and rnd.random() < .9:
                    continue
        if o in ('rawset', 'set', 'setdefault', 'rget', 'rgetdef', 'rin'):
            op['v'] = rnd.choice(['u', 'v', 'w', 'z'])
        if o in ('setfail', 'getfail', 'delfail'):
            op['e'] = rnd.choice(sorted(ERRORS))
        if o == 'update':
            op['items'] = [[alias(), rnd.choice('uvw')] for _ in range(rnd.randint(0, 3))]
            if op['via'] == 'b' and len(set(map(str, [k for k, _ in op['items']]))) < len(op['items']):
                op['via'] = 'a'
        return op


def vary(conf, rnd):
    conf = dict(conf)
    conf.setdefault('chars', rnd.choice(sorted(CHARS)))
    conf.setdefault('none', rnd.random() < .5)
    return conf
