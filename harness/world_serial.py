"""Real trees and JSON documents for spec/Serial.tla."""
import json
import os
import subprocess
import sys
import uuid

from harness import serialclasses as sc
from node.interfaces import IAttributes
from node.serializer import deserialize
from node.serializer import serialize
from node.utils import UNSET

UUIDS = [uuid.UUID(int=5), uuid.UUID('fcb30f5a-20c7-43aa-9537-2a25fef0248d')]
ATOMS = {
    'n': None, 't': True, 'f': False, 'i0': 0, 'i1': -7, 'i2': 2 ** 70, 'f1': 1.5, 'f0': 0.0,
    's0': '', 's1': 'text', 's2': u'\xfc\u2603 "\\\n', 's3': 'UNSET', 's4': 'node.base.Node',
    's5': '<uuid>:x', 's6': u'long \u2603 ' * 60, 's7': '<UUID>', 's8': ' <UNSET>', 's9': 'null',
    'sa': '<unset>', 'sb': 'UUID:5',
    'f2': 3.0, 'f3': -1e300, 'f4': float('inf'), 'i3': 10 ** 18,
    'u': UNSET, 'g0': UUIDS[0], 'g1': UUIDS[1],
    'c1': sc.Outer, 'c2': sc.Outer.Plain, 'c3': sc.AttributedNode, 'c4': uuid.UUID, 'c5': dict,
    'd1': sc.function, 'd2': sc.Outer.method, 'd3': sc.Outer.static,
}
KIND = {k: {'u': 'mark', 'g': 'mark', 'c': 'ref', 'd': 'ref'}.get(k[0], 'json') for k in ATOMS}
SKINS = {
    'plain': {'NONE': None, 'a': 'a', 'b': 'b', 'c': 'c', 'x': 'x', 'y': 'y', 'z': 'z'},
    'odd': {'NONE': None, 'a': '', 'b': u'\xfc/\u2603', 'c': '<UNSET>', 'x': '', 'y': '__ob__',
            'z': 'name'},
    'blank': {'NONE': None, 'a': 'a ', 'b': 'e\u0301', 'c': '\xe9', 'x': ' x', 'y': '\u212b', 'z': '\xc5'},
    'marks': {'NONE': None, 'a': '<UUID>:1', 'b': 'children', 'c': '__node', 'x': '__node__',
              'y': '<UNSET>', 'z': u'\xfc'},
    'types': {'NONE': None, 'a': 0, 'b': -1, 'c': '0', 'x': 'x', 'y': 'y', 'z': 'z'},
}
for s in SKINS:
    for i, k in enumerate('defghi'):
        SKINS[s][k] = 7 + i if s == 'types' else [k, k * 80, u'\xe9' + k, ' ' + k][(i + len(s)) % 4]
    for k in 'qr':
        SKINS[s][k] = k * 70 if s == 'odd' else k
NOVAL = ['atom', '-']


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.skin = SKINS[conf.get('skin', 'plain')]
        self.tree, self.doc = {}, {}
        sc.Own.key = self.skin['a']
        sc.Defaults.key = self.skin['x']
        self.nodes = {}
        self.pick = conf.get('pick', 0)
        self.fresh = 0

    # -- values
    def val(self, v):
        if v[0] == 'atom':
            return ATOMS[v[1]]
        if v[0] == 'list':
            return [self.val(x) for x in v[1]]
        return dict((k, self.val(x)) for k, x in v[1])

    def unval(self, x, simple=False):
        if isinstance(x, list) and type(x) is list:
            return ['list', [self.unval(y, simple) for y in x]]
        if type(x) is dict:
            return ['dict', sorted([k, self.unval(y, simple)] for k, y in x.items())]
        for k, a in ATOMS.items():
            if KIND[k] == 'json' and type(a) is type(x) and a == x and str(a) == str(x):
                return ['atom', k]
            if KIND[k] != 'json' and (a is x or (isinstance(a, uuid.UUID) and a == x and
                                                 isinstance(x, uuid.UUID))):
                return ['atom', k]
            if simple and isinstance(x, str) and KIND[k] != 'json':
                if isinstance(a, uuid.UUID):
                    ok = x in (str(a), '<UUID>:' + str(a))
                elif a is UNSET:
                    ok = x == '<UNSET>'
                else:
                    ok = x == '.'.join([a.__module__, a.__qualname__])
                if ok:
                    return ['atom', k]
        return ['atom', '?' + repr(x)[:80]]

    def back(self, n):
        for k, v in self.skin.items():
            if type(v) is type(n) and v == n:
                return k
        return '?' + repr(n)

    # -- trees
    def make(self, op):
        cls = sc.CLASSES[op['c']]
        cls = cls[self.pick % len(cls)]
        self.pick += 1
        return cls(self.val(op['v'])) if op['c'] == 'K' else cls()

    def at(self, op):
        n = self.tree[op['s']]
        for k in op['p']:
            n = n[self.skin[k]]
        return n

    def kind(self, n):
        for k, cs in sc.CLASSES.items():
            if type(n) in cs:
                return k
        return '?' + type(n).__name__

    def dump(self, n, parent=None, key=None):
        bad = ''
        if n.__parent__ is not parent:
            bad += ' parent'
        if parent is not None and (n.__name__ != key or type(n.__name__) is not type(key)):
            bad += ' key'
        a = {k: NOVAL for k in self.c['akeys']}
        if IAttributes.providedBy(n):
            at = n.attrs
            if type(at) is not n.attributes_factory or at.__parent__ is not n or \
                    at.__name__ != '__attrs__':
                bad += ' attrs'
            for k in at.keys():
                try:
                    a[next(x for x in self.c['akeys'] if self.skin[x] == k)] = self.unval(at[k])
                except StopIteration:
                    bad += ' attr ' + k
        if self.kind(n) in 'NAJK' and hasattr(n, 'node'):
            if n.node(n.uuid) is not n:
                bad += ' uuid'
        kids = [self.dump(n[k], n, k) for k in n.keys()]
        if [id(x) for x in n.values()] != [id(n[k]) for k in n.keys()]:
            bad += ' values'
        return dict(c=self.kind(n), n=self.back(n.__name__) + bad,
                    a=a or [],
                    p=self.unval(getattr(n, 'prop', None)) if self.kind(n) == 'K' else ['atom', 'n'],
                    w=self.unval(n.arg) if self.kind(n) == 'K' else NOVAL, k=kids)

    def classes(self, n):
        return [type(n)] + [c for x in n.values() for c in self.classes(x)]

    def ids(self, n):
        """Also keeps the nodes, so that no identity is used twice."""
        res = {id(n): n}
        for x in n.values():
            res.update(self.ids(x))
        return res

    def seen(self, s):
        return ['ok', self.dump(self.tree[s])]

    def simple(self, d, n):
        """d: parsed JSON"""
        a = {k: NOVAL for k in self.c['akeys']}
        for k, v in (d.get('attrs') or {}).items():
            x = [x for x in self.c['akeys'] if self.skin[x] == k]
            a[x[0] if x else '?' + k] = self.unval(v, True)
        kids = d.get('children') or []
        c = '-'
        if 'class' in d:
            c = self.kind(n) if d['class'] == '.'.join(
                [type(n).__module__, type(n).__qualname__]) else '?' + d['class']
        if set(d) & {'__node__'}:
            c = '?typed'
        vals = list(n.values())
        return dict(c=c, n=self.back(d['name']), a=a or [],
                    k=[self.simple(x, vals[i] if i < len(vals) else n)
                       for i, x in enumerate(kids)])

    def run(self, op):
        o = op['o']
        if o == 'new':
            n = self.make(op)
            n.__name__ = self.skin[op['n']]
            self.tree[op['s']] = n
            return self.seen(op['s'])
        if o in ('add', 'del', 'attr', 'prop'):
            n = self.at(op)
            if o == 'add':
                n[self.skin[op['n']]] = self.make(op)
            elif o == 'del':
                del n[self.skin[op['n']]]
            elif o == 'prop':
                n.prop = self.val(op['v'])
            elif op['v'] == NOVAL:
                del n.attrs[self.skin[op['k']]]
            else:
                n.attrs[self.skin[op['k']]] = self.val(op['v'])
            return self.seen(op['s'])
        if o == 'ser':
            n = self.at(op)
            self.doc[op['d']] = (serialize(n), [self.classes(n)])
            return self.seen(op['s'])
        if o == 'serlist':
            n = self.at(op)
            self.doc[op['d']] = (serialize(n.values() if len(op['p']) % 2 else list(n.values())),
                                 [self.classes(x) for x in n.values()])
            return self.seen(op['s'])
        if o == 'simple':
            n = self.at(op)
            if op['i'] == 'T':
                d = json.loads(serialize(n, simple_mode=True, include_class=True))
            else:
                d = json.loads(serialize(n, simple_mode=True))
            return ['ok', self.simple(d, n), self.dump(self.tree[op['s']])]
        before = {}
        for t in self.tree.values():
            before.update(self.ids(t))
        doc, cls = self.doc[op['d']]
        if o == 'fresh':
            # somebody else's process
            p = subprocess.run(
                [sys.executable, '-W', 'ignore', '-m', 'harness.freshserial'],
                input=json.dumps(dict(doc=doc, conf=self.c)).encode(),
                stdout=subprocess.PIPE, timeout=60,
                cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            return json.loads(p.stdout.decode())
        if o == 'des':
            new = deserialize(doc)
            news = [new]
        elif o == 'deslist':
            new = news = deserialize(doc)
            if type(new) is not list:
                return ['no list']
        else:
            root = self.at(op)
            kept = {k: id(root[k]) for k in root.keys()}
            new = deserialize(doc, root=root)
            news = new if isinstance(new, list) else [new]
        if [self.classes(x) for x in news] != cls and not any(sc.Own in x for x in cls):
            return ['other classes']
        for x in news:
            if set(self.ids(x)) & set(before):
                return ['shares nodes']
        if o == 'des':
            self.tree[op['s']] = new
            return self.seen(op['s'])
        if o == 'deslist':
            return ['ok', [self.dump(x) for x in new]]
        names = [self.back(x.__name__) for x in news]
        for i, x in enumerate(news):
            if x.__name__ not in [y.__name__ for y in news[i + 1:]] and root[x.__name__] is not x:
                return ['not in root']
        for k, i in kept.items():
            if self.back(k) not in names and id(root[k]) != i:
                return ['another child of root changed']
        return ['ok', self.dump(self.tree[op['s']]), names]


def rvalue(rnd, atoms, depth=3):
    r = rnd.random()
    if depth == 0 or r < .5:
        return ['atom', rnd.choice(atoms)]
    n = rnd.randint(0, 3)
    if r < .75:
        return ['list', [rvalue(rnd, atoms, depth - 1) for _ in range(n)]]
    keys = rnd.sample(['', 'k', 'name', '<UNSET>', 'zz', 'class'], n)
    return ['dict', [[k, rvalue(rnd, atoms, depth - 1)] for k in sorted(keys)]]


def random_conf(rnd):
    skin = rnd.choice(sorted(SKINS))
    use = rnd.choice([['O', 'B'], ['O', 'Z'], ['M', 'O'], ['A', 'B', 'N', 'O', 'K', 'M'], ['K', 'A'], ['N', 'A'], ['M', 'A'],
                      ['J'], ['J', 'A']])
    if skin == 'types':
        use = rnd.choice([['O'], ['B'], ['O', 'B']])
    big = rnd.random() < .25
    return dict(cls={c: dict(attrs='F' if c in 'OBZ' else 'T', cust='T' if c == 'K' else 'F',
                             ref='T' if c in 'ANKJ' else 'F', own=['O', 'a'] if c == 'Z' else [],
                             init=[['x', ['atom', 'i0']]] if c == 'J' else [])
                     for c in 'OBMANKZJ'},
                use=use, names=['NONE'] + list('abcdefghi' if big else 'abc'), size=30 if big else 9,
                depth=rnd.choice([1, 2, 9]) if big else 4,
                akeys=list('xyzqr' if big else 'xyz'), atoms=KIND,
                slots=['s', 't'][:rnd.randint(1, 2)], docs=['d', 'e'][:rnd.randint(1, 2)],
                skin=skin, pick=rnd.randint(0, 5))


def choose(rnd, w):
    c = w.c
    atoms = sorted(KIND)
    for _ in range(100):
        s = rnd.choice(c['slots'])
        o = rnd.choice(['new'] + ['add'] * 6 + ['del'] + ['attr'] * 6 + ['prop', 'prop'] +
                       ['ser'] * 3 + ['serlist', 'simple', 'des', 'des', 'deslist', 'desroot',
                                      'desroot'])
        if rnd.random() < .02 and w.fresh < 2 and not set(c['use']) & set('ZJ') and w.doc:
            w.fresh += 1
            return dict(o='fresh', d=rnd.choice(sorted(w.doc)))
        if o == 'new':
            if s in w.tree and rnd.random() < .7:
                continue
            k = rnd.choice(c['use'])
            return dict(o=o, s=s, c=k, n=rnd.choice(c['names']),
                        v=rvalue(rnd, atoms) if k == 'K' else NOVAL)
        if o in ('des', 'deslist', 'desroot'):
            d = rnd.choice(c['docs'])
            if d not in w.doc:
                continue
            lst = json.loads(w.doc[d][0])
            single = not isinstance(lst, list)
            if (o == 'des' and not single) or (o == 'deslist' and single):
                continue
            if o == 'des':
                return dict(o=o, s=s, d=d)
            if o == 'deslist':
                return dict(o=o, d=d)
            if single and lst['__node__']['name'] is None:
                continue
        if s not in w.tree:
            continue
        n, p, size = w.tree[s], [], len(w.ids(w.tree[s]))
        while len(n) and rnd.random() < .6:
            k = rnd.choice(list(n.keys()))
            p.append(w.back(k))
            n = n[k]
        k = rnd.choice(c['akeys'])
        if o == 'add':
            if size > c['size'] or len(p) > c['depth']:
                continue
            cl = rnd.choice(c['use'])
            if w.kind(n) in 'ANKJ' and cl not in 'ANKJ':
                continue
            return dict(o=o, s=s, p=p, c=cl, n=rnd.choice(c['names'][1:]),
                        v=rvalue(rnd, atoms) if cl == 'K' else NOVAL)
        if o == 'del':
            if not len(n):
                continue
            return dict(o=o, s=s, p=p, n=w.back(rnd.choice(list(n.keys()))))
        if o == 'attr':
            if not IAttributes.providedBy(n):
                continue
            has = w.skin[k] in n.attrs
            v = NOVAL if has and rnd.random() < .3 else rvalue(rnd, atoms)
            if (v == NOVAL and not has) or (has and w.unval(n.attrs[w.skin[k]]) == v):
                continue
            return dict(o=o, s=s, p=p, k=k, v=v)
        if o == 'prop':
            if w.kind(n) != 'K':
                continue
            return dict(o=o, s=s, p=p, v=rvalue(rnd, atoms))
        if o in ('ser', 'serlist'):
            return dict(o=o, s=s, p=p, d=rnd.choice(c['docs']))
        if o == 'simple':
            return dict(o=o, s=s, p=p, i=rnd.choice('TF'))
        if o == 'desroot':
            if size > c['size'] + 3 or len(p) > c['depth']:
                continue
            if w.kind(n) in 'ANKJ' and any(
                    not issubclass(x[0], (sc.AttributedNode, sc.Node)) for x in w.doc[d][1]):
                continue
            return dict(o=o, s=s, p=p, d=d)
    return None


def vary(conf, rnd):
    conf = dict(conf)
    conf.setdefault('skin', rnd.choice(['plain', 'odd', 'blank', 'marks']))
    conf.setdefault('pick', rnd.randint(0, 5))
    return conf
