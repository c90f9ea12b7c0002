"""Real copies and pickles for spec/Copy.tla."""
import copy
import pickle
import uuid

from harness import copyclasses as cc
from node.interfaces import IAttributes
from node.interfaces import INode
from node.locking import TreeLock
from node.utils import UNSET

SKINS = {
    'plain': {'NONE': None, 'a': 'a', 'b': 'b', 'c': 'c', 'x': 'x', 'y': 'y'},
    'odd': {'NONE': None, 'a': '', 'b': u'\xfc/', 'c': 'uuid', 'x': 'name', 'y': ''},
    'blank': {'NONE': None, 'a': 'a ', 'b': 'e\u0301', 'c': '\xe9', 'x': ' x', 'y': '\u212b'},
    'types': {'NONE': None, 'a': 0, 'b': ('k', 1), 'c': '0', 'x': 'x', 'y': 'y'},
}
for s in SKINS:
    for i, k in enumerate('defghi'):
        SKINS[s][k] = [7 + i, (k,), k.encode()][i % 3] if s == 'types' else \
            [k, k * 80, u'\xe9' + k, 'parent' + k][(i + len(s)) % 4]
    for k in 'zqr':
        SKINS[s][k] = k * 70 if s == 'odd' else k
NOVAL = ['-']
# not compared by identity
PLAIN = (type(None), str, bytes, int, float, tuple, frozenset, type, type(len), type(lambda: 0),
         uuid.UUID, type(UNSET))


class World(object):
    def __init__(self, conf):
        self.c = conf
        self.skin = SKINS[conf.get('skin', 'plain')]
        self.t, self.d = {}, {}
        self.pick = conf.get('pick', 0)
        self.uuids = {}
        self.n = 0

    def val(self, v):
        return 'text' if v == ['s'] else UNSET if v == ['u'] else ['x'] * v[1]

    def unval(self, v):
        if v == 'text':
            return ['s']
        if v is UNSET:
            return ['u']
        if type(v) is list and all(x == 'x' for x in v):
            return ['l', len(v)]
        return ['?' + repr(v)[:60]]

    def back(self, n):
        for k, v in self.skin.items():
            if type(v) is type(n) and v == n:
                return k
        return '?' + repr(n)

    def make(self, c):
        cls = cc.CLASSES[c]
        cls = cls[self.pick % len(cls)]
        self.pick += 1
        n = cls()
        if isinstance(n, (cc.Aware, cc.AwareLate)) and c == 'U' and self.pick % 3 == 0:
            n.overwrite_recursiv_on_copy = True
        return n

    def at(self, s, p):
        n = self.t[s]
        for k in p:
            n = n[self.skin[k]]
        return n

    def kind(self, n):
        for k, cs in cc.CLASSES.items():
            if type(n) in cs:
                return k
        return '?' + type(n).__name__

    def uuid(self, u):
        if u not in self.uuids:
            self.uuids[u] = len(self.uuids) + 1
        return self.uuids[u]

    def dump(self, n, parent, key, own, uuids):
        """own: id -> everything that belongs to this tree"""
        bad = ''
        if id(n) in own:
            bad += ' twice'
        own[id(n)] = n
        own[id(n.storage)] = n.storage
        if n.__parent__ is not parent:
            bad += ' parent'
        if parent is not None and not (n.__name__ == key and type(n.__name__) is type(key)):
            bad += ' name'
        a = {k: NOVAL for k in self.c['akeys']}
        kind = self.kind(n)
        if IAttributes.providedBy(n):
            at = n.attrs
            if id(at) in own or at.__parent__ is not n or at.__name__ != '__attrs__' or \
                    type(at) is not n.attributes_factory:
                bad += ' attrs'
            own[id(at)] = at
            own[id(at.storage)] = at.storage
            for k in at.keys():
                a[[x for x in self.c['akeys'] if self.skin[x] == k][0]] = self.unval(at[k])
                if type(at[k]) is list:
                    own[id(at[k])] = at[k]
        for o in vars(n).values():
            if not isinstance(o, PLAIN) and not INode.providedBy(o):
                own[id(o)] = o
        u = 0
        if kind in 'AUVW':
            u = self.uuid(n.uuid)
        if kind == 'A':
            uuids[int(n.uuid)] = n
            if n.node(n.uuid) is not n:
                bad += ' lookup'
        ks = []
        for k in n.keys():
            v = n[k]
            if INode.providedBy(v):
                ks.append(self.dump(v, n, k, own, uuids))
            else:
                if type(v) is list:
                    own[id(v)] = v
                ks.append(dict(c='=', n=self.back(k), u=0, a={x: NOVAL for x in self.c['akeys']}
                               or [], v=self.unval(v), k=[]))
            if n.storage[k] is not v:
                bad += ' storage'
        if len(n.storage) != len(ks):
            bad += ' len'
        return dict(c=kind + bad, n=self.back(n.__name__), u=u, a=a or [], v=NOVAL, k=ks)

    def seen(self):
        res, owns = {}, []
        for s in self.c['slots']:
            if s not in self.t:
                res[s] = dict(c='-', n='-', u=0, a=[], v=NOVAL, k=[])
                continue
            own, uuids = {}, {}
            t = self.t[s]
            res[s] = self.dump(t, None, None, own, uuids)
            if res[s]['c'] == 'A' and any(
                    u in t.index and t.index[u] is not uuids.get(int(u)) for u in self.uuids):
                res[s]['c'] += ' index'
            for o in owns:
                if set(o) & set(own):
                    res[s]['c'] += ' shares ' + type(own[(set(o) & set(own)).pop()]).__name__
            owns.append(own)
        return res

    def assign(self, n):
        """Numbers for the uuids of a new tree, in preorder."""
        if INode.providedBy(n):
            if self.kind(n) in 'AUVW':
                self.uuid(n.uuid)
            for k in n.keys():
                self.assign(n[k])

    def run(self, op):
        o = op['o']
        n = self.at(op['s'], op['p']) if 'p' in op and o != 'graft' else None
        key = self.skin[op['n']] if 'n' in op else None
        self.n += 1
        if o == 'new':
            n = self.make(op['c'])
            n.__name__ = key
            self.t[op['s']] = n
        elif o == 'add':
            n[key] = self.make(op['c'])
        elif o == 'set':
            n[key] = self.val(op['v'])
        elif o == 'del':
            del n[key]
        elif o == 'attr':
            if op['v'] == NOVAL:
                del n.attrs[self.skin[op['k']]]
            else:
                n.attrs[self.skin[op['k']]] = self.val(op['v'])
        elif o == 'mutattr':
            n.attrs[self.skin[op['k']]].append('x')
        elif o == 'mutval':
            n[key].append('x')
        elif o == 'rename':
            self.t[op['s']].__name__ = key
        elif o == 'lock':
            with TreeLock(n):
                pass
        elif o == 'deepcopy':
            t = self.t[op['s']]
            new = t.deepcopy() if self.kind(t) in 'UVW' or self.n % 2 else copy.deepcopy(t)
            self.assign(new)
            self.t[op['to']] = new
        elif o == 'dump':
            self.d[op['d']] = pickle.dumps(self.t[op['s']], self.n % 4 + 2)
        elif o == 'load':
            self.t[op['to']] = pickle.loads(self.d[op['d']])
            self.assign(self.t[op['to']])
        elif o == 'graft':
            t = self.t.pop(op['s'])
            self.at(op['to'], op['p'])[key] = t
        elif o == 'copy':
            return self.shallow(n)
        return ['ok', self.seen()]

    def shallow(self, n):
        kind = self.kind(n)
        try:
            new = n.copy() if kind in 'UVW' or self.n % 2 else copy.copy(n)
        except RuntimeError:
            return ['err', 'RuntimeError', self.seen()]
        bad = ''
        if new is n:
            bad += ' same'
        if type(new) is not type(n):
            bad += ' class'
        if new.parent is not n.parent or new.__parent__ is not n.__parent__:
            bad += ' parent'
        if new.name != n.name or new.__name__ != n.__name__:
            bad += ' name'
        if list(new.keys()) != list(n.keys()) or any(new[k] is not n[k] for k in n.keys()):
            bad += ' items'
        res = self.dump(n, n.__parent__, n.__name__, {}, {})
        res['u'] = 0
        res['c'] += bad
        return ['ok', res, self.seen()]


KIND = {c: dict(attrs='T' if c in 'MAW' else 'F', values='T' if c in 'PMUVW' else 'F',
                ref='T' if c == 'A' else 'F', aware='T' if c in 'UVW' else 'F',
                deep='T' if c in 'UW' else 'F') for c in 'OPMAUVW'}


def random_conf(rnd):
    use = rnd.choice([['P'], ['O', 'P'], ['M', 'P'], ['A'], ['A', 'P'], ['U'], ['U', 'V', 'W', 'P'],
                      ['O', 'A'], ['M', 'U', 'O']])
    skin = rnd.choice(['plain', 'plain', 'odd', 'types', 'blank'])
    if set(use) & set('MAW') and skin == 'types':
        skin = 'odd'
    if 'P' in use and skin == 'types':
        skin = 'plain'
    big = rnd.random() < .25
    return dict(cls=KIND, use=use, names=['NONE'] + list('abcdefghi' if big else 'abc'),
                akeys=list('xyzqr' if big else 'xy'), size=35 if big else 9,
                depth=rnd.choice([1, 2, 12]) if big else 4,
                vals=[['s'], ['u'], ['l', 0], ['l', 2]], slots=['s', 't', 'r'][:rnd.randint(2, 3)],
                docs=['d', 'e'][:rnd.randint(1, 2)], skin=skin, pick=rnd.randint(0, 8))


def choose(rnd, w):
    c = w.c
    for _ in range(200):
        s, to = rnd.choice(c['slots']), rnd.choice(c['slots'])
        o = rnd.choice(['new'] * 2 + ['add'] * 6 + ['set'] * 2 + ['del'] * 2 + ['attr'] * 4 +
                       ['mutattr', 'mutval'] * 2 + ['rename', 'lock'] + ['deepcopy'] * 3 +
                       ['dump', 'load', 'copy', 'graft'])
        if o == 'load':
            d = rnd.choice(c['docs'])
            if d in w.d:
                return dict(o=o, to=to, d=d)
            continue
        if o == 'new':
            if s in w.t:
                continue
            return dict(o=o, s=s, c=rnd.choice(c['use']), n=rnd.choice(c['names']))
        if s not in w.t:
            continue
        if o == 'dump':
            return dict(o=o, s=s, d=rnd.choice(c['docs']))
        if o == 'deepcopy':
            if s == to:
                continue
            return dict(o=o, s=s, to=to)
        if o == 'rename':
            return dict(o=o, s=s, n=rnd.choice(c['names']))
        n, p, size = w.t[to if o == 'graft' and to in w.t else s], [], 0
        while rnd.random() < .6:
            ks = [k for k in n.keys() if INode.providedBy(n[k])]
            if not ks:
                break
            k = rnd.choice(ks)
            p.append(w.back(k))
            n = n[k]
        kind = w.kind(n)
        key = rnd.choice(c['names'][1:])
        if o in ('lock', 'copy'):
            return dict(o=o, s=s, p=p)
        if len(p) > c['depth'] or (o in ('add', 'graft') and sum(
                len(x) for t in {s, to} & set(w.t) for x in count(w.t[t])) > c['size']):
            continue
        if o == 'graft':
            if s == to or to not in w.t:
                continue
            k = w.kind(w.t[s])
            if kind == 'A' and k != 'A':
                continue
            if k == 'A' and set(uuids(w.t[s])) & set(uuids(w.t[to])):
                continue
            return dict(o=o, s=s, to=to, p=p, n=key)
        if o == 'add':
            k = rnd.choice(c['use'])
            if kind == 'A' and k != 'A':
                continue
            return dict(o=o, s=s, p=p, c=k, n=key)
        if o == 'set':
            if KIND[kind]['values'] != 'T':
                continue
            return dict(o=o, s=s, p=p, n=key, v=rnd.choice(c['vals']))
        if o in ('del', 'mutval'):
            ks = [k for k in n.keys() if o == 'del' or type(n[k]) is list]
            if not ks:
                continue
            return dict(o=o, s=s, p=p, n=w.back(rnd.choice(ks)))
        if KIND[kind]['attrs'] != 'T':
            continue
        k = rnd.choice(c['akeys'])
        has = w.skin[k] in n.attrs
        if o == 'mutattr':
            if not has or type(n.attrs[w.skin[k]]) is not list:
                continue
            return dict(o=o, s=s, p=p, k=k)
        v = rnd.choice(c['vals'] + [NOVAL])
        if v == NOVAL and not has:
            continue
        return dict(o=o, s=s, p=p, k=k, v=v)
    return None


def count(n):
    yield list(n.keys())
    for k in n.keys():
        if INode.providedBy(n[k]):
            for x in count(n[k]):
                yield x


def uuids(n):
    if getattr(n, 'uuid', None) is not None:
        yield n.uuid
    for k in n.keys():
        if INode.providedBy(n[k]):
            for x in uuids(n[k]):
                yield x


def vary(conf, rnd):
    conf = dict(conf)
    conf.setdefault('skin', rnd.choice(['plain', 'odd', 'blank']))
    conf.setdefault('pick', rnd.randint(0, 8))
    return conf
