"""The real code behind the tokens of spec/Tree.tla.

A World holds real nodes bound to node tokens, executes operations of the
specification through the public API and projects the observable state.
"""
import contextlib
import io
import uuid as uuidlib

from harness import guard
from node import base
from node import behaviors as b
from node import events
from node.interfaces import INodeAddedEvent
from node.interfaces import INodeCreatedEvent
from node.interfaces import INodeDetachedEvent
from node.interfaces import INodeModifiedEvent
from node.interfaces import INodeRemovedEvent
from node.utils import AttributeAccess
from node.utils import UNSET
from node.utils import node_by_path
from odict import odict
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface.interface import InterfaceClass
import zope.component

NONE = 'NONE'


# ---------------------------------------------------------------------------
# classes under test
# ---------------------------------------------------------------------------

@plumbing(b.AttributesLifecycle)
class LifeAttributes(b.NodeAttributes):
    pass


def compose(name, *behaviors, **members):
    return plumbing(*behaviors)(type(name, (object,), members))


# a node which does not care about its children
Bag = compose('Bag', b.Nodify, b.OdictStorage)


# event classes of a node class
OWN_EVENTS = {k: type('Own' + c.__name__, (c,), {}) for k, c in (
    ('created', events.NodeCreatedEvent), ('added', events.NodeAddedEvent),
    ('modified', events.NodeModifiedEvent), ('removed', events.NodeRemovedEvent),
    ('detached', events.NodeDetachedEvent))}


class FaultPlan(object):
    """One fault at the n-th access of a kind to any backend."""
    kind = None
    left = 0
    exc = None
    fired = False

    def arm(self, kind, left, exc):
        self.kind, self.left, self.exc, self.fired = kind, left, exc, False

    def disarm(self):
        fired, self.kind, self.fired = self.fired, None, False
        return fired

    def hit(self, kind):
        if self.kind == kind:
            self.left -= 1
            if self.left == 0:
                self.fired = True
                self.kind = None
                raise self.exc


PLAN = FaultPlan()


class BackendError(Exception):
    pass


def fault_error(kind, i):
    # a missing key is no fault of reading
    classes = [RuntimeError, ValueError, OSError, BackendError, KeyError, AttributeError]
    return classes[i % (len(classes) - 2 * (kind == 'read'))]('backend')


class _Faulty(object):
    _depth = 0

    def _do(self, kind, fn, *args):
        if self._depth:
            return fn(self, *args)
        PLAN.hit(kind)
        self._depth += 1
        try:
            return fn(self, *args)
        finally:
            self._depth -= 1


class FaultyDict(_Faulty, dict):
    def __setitem__(self, k, v):
        return self._do('write', dict.__setitem__, k, v)

    def __delitem__(self, k):
        return self._do('write', dict.__delitem__, k)

    def __getitem__(self, k):
        return self._do('read', dict.__getitem__, k)


class FaultyOdict(_Faulty, odict):
    # class level dispatch of odict calls dict.__setattr__ for its own state
    def __setitem__(self, k, v):
        return self._do('write', odict.__setitem__, k, v)

    def __delitem__(self, k):
        return self._do('write', odict.__delitem__, k)

    def __getitem__(self, k):
        return self._do('read', odict.__getitem__, k)

    def insertbefore(self, r, k, v):
        return self._do('write', odict.insertbefore, r, k, v)

    def insertafter(self, r, k, v):
        return self._do('write', odict.insertafter, r, k, v)

    def swap(self, a, c):
        return self._do('write', odict.swap, a, c)


def faulty_storage(cls, factory):
    def storage(self):
        try:
            return self.__dict__['fault_storage']
        except KeyError:
            res = self.__dict__['fault_storage'] = factory()
            return res
    cls.storage = property(storage)
    return cls


def F(ord=False, val=True, ref=False, life=False, sp=False, ins=False):
    return dict(ord=ord, val=val, ref=ref, life=life, sp=sp, ins=ins, al=False)


_BUILT = {}


def build(profile):
    if profile not in _BUILT:
        _BUILT[profile] = _build(profile)
    return _BUILT[profile]


def _build(profile):
    """-> (class, features, has attributes)"""
    # suffixes: "*" any values, "!" backend faults, "~" nodes which are false
    P = profile.rstrip('*!~')
    fault, anyv, falsy = ('!' in profile, '*' in profile, '~' in profile)
    D, O = b.DictStorage, b.OdictStorage
    V, A, X, I, N = b.NodeChildValidate, b.Adopt, b.AsAttrAccess, b.DefaultInit, b.Nodify
    S, T, L, R, Or = b.Nodespaces, b.Attributes, b.Lifecycle, b.Reference, b.Order
    att = False
    members = {}
    if P == 'base':
        cls, f = type('TBase', (base.BaseNode,), members), F()
    elif P == 'ordered':
        cls, f = type('TOrdered', (base.OrderedNode,), members), F(ord=True)
    elif P == 'node':
        cls, f, att = type('TNode', (base.Node,), members), \
            F(ord=True, ref=True, sp=True, ins=True), True
    elif P == 'attributed':
        cls, f, att = type('TAttr', (base.AttributedNode,), members), \
            F(ord=True, ref=True, sp=True, ins=True), True
    elif P == 'abstract':        # minimal composition with an own constructor
        def init(self, name=None, parent=None):
            self.__name__, self.__parent__ = name, parent
        cls, f = compose('TAbstract', A, N, D, __init__=init), F(val=False)
    elif P == 'uni':             # keys are decoded
        cls, f = compose('TUni', b.UnicodeAware, V, A, X, I, N, O), F(ord=True)
    elif P == 'order':           # ordering without references
        cls, f = compose('TOrder', V, A, Or, X, I, N, O), F(ord=True, ins=True)
    elif P == 'gattr':           # children as attributes
        cls, f = compose('TGAttr', V, A, Or, b.GetattrChildren, I, N, O), F(ord=True, ins=True)
    elif P == 'order2':
        cls, f = compose('TOrder2', A, Or, I, N, O), F(ord=True, ins=True, val=False)
    elif P == 'ref':             # references, unordered
        cls, f = compose('TRef', V, A, R, I, N, D), F(ref=True)
    elif P == 'ordref':
        cls, f = compose('TOrdRef', V, A, Or, R, I, N, O), F(ord=True, ins=True, ref=True)
    elif P == 'spaces':          # nodespaces and attributes only
        cls, f, att = compose('TSpaces', S, A, T, X, I, N, D), F(val=False, sp=True), True
    elif P == 'aattr':           # attributes container with attribute access
        cls, f, att = compose('TAAttr', S, A, T, I, N, O, attribute_access_for_attrs=True), \
            F(ord=True, val=False, sp=True), True
    elif P == 'life':            # as in the documentation
        cls, f, att = compose('TLife', A, S, T, L, I, N, D,
                              attributes_factory=LifeAttributes), \
            F(val=False, sp=True, life=True), True
    elif P == 'lifeord':
        cls, f = compose('TLifeOrd', V, A, L, Or, I, N, O), \
            F(ord=True, life=True, ins=True)
    elif P == 'lifefull':        # lifecycle outside of references
        cls, f, att = compose('TLifeFull', V, S, A, T, L, R, Or, X, I, N, O,
                              attributes_factory=LifeAttributes), \
            F(ord=True, ref=True, sp=True, ins=True, life=True), True
    elif P == 'lifein':          # lifecycle inside of references
        cls, f, att = compose('TLifeIn', V, S, A, T, R, L, Or, X, I, N, O,
                              attributes_factory=LifeAttributes, events=OWN_EVENTS), \
            F(ord=True, ref=True, sp=True, ins=True, life=True), True
    else:
        raise KeyError(profile)
    if anyv:
        cls = type(cls.__name__ + 'Any', (cls,), {'allow_non_node_childs': True})
        f['val'] = False
    if falsy:
        cls = type(cls.__name__ + 'Falsy', (cls,), {'__bool__': lambda self: False})
    if fault:
        cls = type(cls.__name__ + 'Faulty', (cls,), {})
        faulty_storage(cls, FaultyOdict if f['ord'] else FaultyDict)
    return cls, f, att


ATTF = F(ord=True, val=False)


class Mark0(object):
    pass


class Mark1(Mark0):
    pass


MARKS = {'c0': Mark0, 'c1': Mark1}
_MARKED = {}


def marked(cls, prov):
    """A subclass which is also an instance of the marks in prov"""
    mark = Mark1 if 'c1' in prov else Mark0 if 'c0' in prov else None
    if mark is None:
        return cls
    if (cls, mark) not in _MARKED:
        _MARKED[cls, mark] = type(cls.__name__ + mark.__name__, (cls, mark), {})
    return _MARKED[cls, mark]


# ---------------------------------------------------------------------------
# skins: concrete keys and values for tokens
# ---------------------------------------------------------------------------

class Weird(object):
    """Value with hostile comparison and truth value."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __repr__(self):
        return 'Weird({})'.format(self.n)


class SomeClass(object):
    pass


class Plain(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Plain({})'.format(self.n)


KEYSETS = {
    'simple': ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l'],
    'odd': ['', '_x', '__y', 'z__', 'A', 'a', '\xe4\u20ac', 'a b', '0', '_', 'name', '.'],
    'sort': ['10', '9', '2', '1', 'B', 'a', 'Z', 'b', '-', '\u4e2d', '~', '!'],
    'words': ['child_1', 'child_10', 'child_2', 'parent', 'root', 'items', 'keys',
              'storage', 'attrs', 'children', 'path', 'uuid'],
    'under': ['__y_', '_z__', '__a', 'b__', '_c_', '__d e_', '_', 'attrs', '__attrs_',
              '_attrs__', 'children', '__children_'],
    'path': ['a/b', '/', 'a', 'b', 'a//b', '..', ' a', 'a ', '/a', 'b/', '%2F', '\n'],
    # equal or empty after stripping, normalizing or folding
    'blank': ['a ', 'e\u0301', '\xe9', ' a', ' ', 'A', 'a', '\xa0', '\xdf', 'ss', '\ufb01', '\u200b'],
    'types': [1, 2, 0, (1, 2), (), frozenset([1]), 2.5, b'x', 'True', -1, 'x', 10 ** 12],
}
VALSETS = {
    'plain': lambda: [Plain(i) for i in range(6)],
    'falsy': lambda: [None, 0, '', False, UNSET, []],
    'weird': lambda: [Weird(i) for i in range(6)],
    'mixed': lambda: ['x', {}, 1, None, Weird(1), UNSET],
}
NUUIDS = 48
UUIDSETS = {
    'plain': [uuidlib.UUID(int=1 + i) for i in range(NUUIDS)],
    'nil': [uuidlib.UUID(int=i * (1 << 120)) for i in range(NUUIDS)],
    'big': [uuidlib.UUID(int=(1 << 128) - 1 - i) for i in range(NUUIDS)],
}


class Skin(object):
    def __init__(self, keys='simple', vals='plain', uuids='plain', nkeys=None,
                 spaces=None, perm=None):
        ks = list(KEYSETS[keys])
        if perm:
            ks = [ks[i % len(ks)] for i in perm]
        self.keys = {'k%d' % i: k for i, k in enumerate(ks)}
        self.sort = {'k%d' % i: i for i in range(len(ks))}
        for s in spaces or ():
            self.keys[s] = s
        self.bykey = {(type(c), c): t for t, c in self.keys.items()}
        self.vals = {'p%d' % i: v for i, v in enumerate(VALSETS[vals]())}
        self.vals['CLS'] = SomeClass
        self.vals['DEF'] = Plain('default')
        self.uuids = {'u%d' % i: u for i, u in enumerate(UUIDSETS[uuids])}
        self.frozen = [t for t, v in self.vals.items()
                       if v is None or type(v) in (int, str, bool, list, dict)]
        self.hasnone = None in [v for v in self.vals.values() if not isinstance(v, Weird)]
        self.byuuid = {c: t for t, c in self.uuids.items()}
        # keys which look like names of nodespaces
        self.similar = [t for t, c in self.keys.items() if isinstance(c, str) and
                        (c.startswith('__') != c.endswith('__') or c in ('_', '_c_', 'attrs'))]

    def keytok(self, k):
        if k is None:
            return NONE
        try:
            return self.bykey[type(k), k]
        except (KeyError, TypeError):
            return '?{!r}'.format(k)

    def valtok(self, v):
        for t, c in self.vals.items():
            if c is v:
                return t
        return None

    def rank(self):
        order = sorted(self.keys, key=lambda t: str(self.keys[t]))
        return {t: i for i, t in enumerate(order)}


IFACES = {'i%d' % i: InterfaceClass('I%d' % i, (Interface,), {}) for i in range(3)}


# ---------------------------------------------------------------------------
# notifications
# ---------------------------------------------------------------------------

class Recorder(object):
    world = None

    def handler(self, kind):
        def handle(obj, event):
            w = self.world
            if w is not None:
                w.events.append(w.event(kind, obj, event))
                hook, w.hook = w.hook, None
                if hook is not None:
                    hook(kind)
        return handle

    def install(self):
        for kind, iface in (('created', INodeCreatedEvent), ('added', INodeAddedEvent),
                            ('modified', INodeModifiedEvent), ('removed', INodeRemovedEvent),
                            ('detached', INodeDetachedEvent)):
            zope.component.provideHandler(self.handler(kind), [Interface, iface])


RECORDER = Recorder()
RECORDER.install()


# ---------------------------------------------------------------------------

def container(attrs):
    if isinstance(attrs, AttributeAccess):
        return object.__getattribute__(attrs, 'context')
    return attrs


class World(object):
    def __init__(self, profile, skin, prov=None, mixed=None):
        self.cls, self.f, self.hasatt = build(profile)
        self.classes = {}          # node token -> (class, features)
        for t, p in (mixed or {}).items():
            c, f, _ = build(p)
            self.classes[t] = (c, f)
        self.skin = skin
        self.prov = prov or {}
        self.obj = {}
        self.tok = {}
        self.keep = []
        self.events = []
        self.att = {}              # attributes token -> owner token
        self.hook = None           # to be called once by a subscriber
        RECORDER.world = self

    # -- tokens ----------------------------------------------------------
    def bind(self, t, ob):
        self.obj[t] = ob
        self.tok[id(ob)] = t
        self.keep.append(ob)

    def v(self, t):
        if t in self.obj:
            return self.obj[t]
        if t == NONE:
            return None
        return self.skin.vals[t]

    def k(self, t):
        return None if t == NONE else self.skin.keys[t]

    def t(self, ob):
        if id(ob) in self.tok:
            return self.tok[id(ob)]
        t = self.skin.valtok(ob)
        if t is not None:
            return t
        return NONE if ob is None else '?{}'.format(type(ob).__name__)

    def nn(self, ob):
        return NONE if ob is None else self.t(ob)

    def feat(self, t):
        if t in self.att:
            return dict(ATTF, al=self.feat(self.att[t])['life'])
        if t in self.classes:
            return self.classes[t][1]
        return self.f

    # -- creation --------------------------------------------------------
    def new(self, t, name=NONE, uuid=None, parent=NONE):
        cls = self.classes[t][0] if t in self.classes else self.cls
        cls = marked(cls, self.prov.get(t, ()))
        ob = cls.__new__(cls)
        self.bind(t, ob)
        kw = {}
        if name != NONE:
            kw['name'] = self.k(name)
        if parent != NONE:
            kw['parent'] = self.v(parent)
        ob.__init__(**kw)
        for i in self.prov.get(t, ()):
            if i in IFACES:
                alsoProvides(ob, IFACES[i])
        if uuid is not None and self.feat(t)['ref']:
            ob.uuid = self.skin.uuids[uuid]
        return ob

    def accessible(self, n):
        if n in self.att:
            return getattr(self.obj[self.att[n]], 'attribute_access_for_attrs', False)
        return hasattr(self.classes.get(n, (self.cls,))[0], 'as_attribute_access')

    def readable(self, n):
        return self.accessible(n) or (n not in self.att and hasattr(
            self.classes.get(n, (self.cls,))[0], '__getattr__'))

    def access(self, n):
        """attribute style access"""
        if not self.accessible(n):
            return self.obj[n]
        if n in self.att:
            return self.obj[self.att[n]].attrs
        return self.obj[n].as_attribute_access()

    def attrs(self, t, n):
        """First access of the attributes container of n, bound to t."""
        ob = container(self.obj[n].attrs)
        if id(ob) not in self.tok:
            self.bind(t, ob)
            self.att[t] = n
        return ob

    # -- notifications ---------------------------------------------------
    def event(self, kind, obj, event):
        o = event.object
        res = dict(t=kind, o=self.t(o) if obj is o else '?other', p=NONE, k=NONE, vis=False)
        if kind in ('added', 'removed', 'detached'):
            p, k = (event.newParent, event.newName) if kind == 'added' \
                else (event.oldParent, event.oldName)
            other = (event.oldParent, event.oldName) if kind == 'added' \
                else (event.newParent, event.newName)
            res['p'] = self.t(p)
            res['k'] = self.skin.keytok(k)
            if other != (None, None):
                res['k'] = '?both'
            armed, PLAN.kind = PLAN.kind, None
            try:
                res['vis'] = p[k] is o
            except KeyError:
                pass
            except Exception as e:
                res['k'] = '?' + guard.errname(e)
            finally:
                PLAN.kind = armed
        cls = type(p if kind in ('added', 'removed', 'detached') else o)
        if type(event) is not getattr(cls, 'events', {}).get(kind):
            res['k'] = '?class'
        if kind == 'modified':
            res['vis'] = True
        if kind == 'created':
            # the object is complete when it is announced
            res['p'], res['k'] = self.nn(o.__parent__), self.skin.keytok(o.__name__)
        return res

    # -- operations ------------------------------------------------------
    def run(self, op, via=None):
        """-> (outcome, notifications)"""
        del self.events[:]
        RECORDER.world = self
        kind, res = guard.call(self._run, op, via)
        ev = list(self.events)
        del self.events[:]
        if kind == 'err':
            return ['err', guard.errname(res)], ev
        return ['ok'] + res, ev

    def _run(self, op, via):
        o = op['o']
        n = self.obj.get(op.get('n'))
        g = op.get
        if o == 'set':
            key, val = self.k(g('k')), self.v(g('v'))
            if via == 'attr':
                setattr(self.access(g('n')), key, val)
            elif via == 'attritem':
                self.access(g('n'))[key] = val
            elif via == 'update':
                n.update([(key, val)])
            else:
                n[key] = val
            return []
        if o == 'del':
            key = self.k(g('k'))
            if via == 'attritem':
                del self.access(g('n'))[key]
            else:
                del n[key]
            return []
        if o == 'detach':
            return [self.t(n.detach(self.k(g('k'))))]
        if o == 'pop':
            key = self.k(g('k'))
            if g('d') == NONE:
                return [self.t(n.pop(key))]
            d = self.skin.vals[g('d')]
            if via == 'kw':
                return [self.t(n.pop(key, default=d))]
            return [self.t(n.pop(key, d))]
        if o == 'popitem':
            key, val = n.popitem()
            return [self.skin.keytok(key), self.t(val)]
        if o == 'clear':
            n.clear()
            return []
        if o == 'update':
            items = [(self.k(k), self.v(v)) for k, v in g('items')]
            if via == 'dict':
                n.update(dict(items))
            elif via == 'odict':
                n.update(odict(items))
            elif via == 'kw':
                n.update(**dict(items))
            elif via == 'node':
                bag = Bag()
                for k, v in items:
                    bag[k] = v
                n.update(bag)
            elif via == 'gen':
                n.update(x for x in items)
            elif via == 'argkw':
                h = len(items) // 2
                n.update(items[:h], **dict(items[h:]))
            else:
                n.update(items)
            return []
        if o == 'setdefault':
            key = self.k(g('k'))
            val = self.v(g('v'))
            if via == 'kw':
                return [self.t(n.setdefault(key, default=val))]
            if via == 'nodefault' and val is None:
                return [self.t(n.setdefault(key))]
            return [self.t(n.setdefault(key, val))]
        if o == 'insfirst':
            n.insertfirst(self.v(g('v')))
            return []
        if o == 'inslast':
            n.insertlast(self.v(g('v')))
            return []
        if o == 'insbefore':
            n.insertbefore(self.v(g('v')), self.v(g('r')))
            return []
        if o == 'insafter':
            n.insertafter(self.v(g('v')), self.v(g('r')))
            return []
        if o == 'swap':
            n.swap(self.v(g('v')), self.v(g('r')))
            return []
        if o == 'setuuid':
            n.uuid = self.skin.uuids[g('k')]
            return []
        if o == 'rename':
            n.__name__ = self.k(g('k'))
            return []
        if o == 'new':
            self.new(g('n'), g('k'), g('u'), g('r'))
            return []
        if o == 'newbad':
            cls = self.classes[g('n')][0] if g('n') in self.classes else self.cls
            if via == 'pos':
                cls('x', None, 'too', 'many')
            else:
                cls(name='x', unknown=None)
            return []
        if o == 'attrs':
            self.attrs(g('v'), g('n'))
            return [self.t(container(n.attrs))]
        raise AssertionError(o)

    # -- projection ------------------------------------------------------
    def project(self):
        kind, res = guard.call(self._project)
        if kind == 'err':
            return dict(kids={}, name={}, par={}, uuid={}, spc={},
                        broken=guard.errname(res) + ': ' + str(res)[:100])
        return res

    def _project(self):
        kids, name, par, uu, spc = {}, {}, {}, {}, {}
        kt, tt = self.skin.keytok, self.t
        for t, ob in self.obj.items():
            kids[t] = [[kt(k), tt(v)] for k, v in ob.items()]
            name[t] = kt(ob.name)
            par[t] = NONE if ob.parent is None else tt(ob.parent)
            f = self.feat(t)
            uu[t] = NONE
            if f['ref']:
                uu[t] = self.skin.byuuid.get(ob.uuid, '?')
            spc[t] = []
            if f['sp']:
                spc[t] = [[kt(k), tt(v)] for k, v in ob.nodespaces.items()
                          if k != '__children__']
        return dict(kids=kids, name=name, par=par, uuid=uu, spc=spc)

    # -- queries ---------------------------------------------------------
    def query(self, q):
        kind, res = guard.call(self._query, q)
        if kind == 'err':
            return ['!' + guard.errname(res)]
        return res

    def _query(self, q):
        w, n = q['q'], self.obj[q['n']]
        kt, tt = self.skin.keytok, self.t
        a = q.get('a')

        def flat(items):
            res = []
            for k, v in items:
                res += [kt(k), tt(v)]
            return res
        if w == 'keys':
            r = n.keys()
            return [kt(k) for k in r] if isinstance(r, list) else ['?type']
        if w == 'iter':
            return [kt(k) for k in n]
        if w == 'iterkeys':
            return [kt(k) for k in n.iterkeys()]
        if w == 'rkeys':
            return [kt(k) for k in n.storage.rkeys()]
        if w == 'values':
            r = n.values()
            return [tt(v) for v in r] if isinstance(r, list) else ['?type']
        if w == 'itervalues':
            return [tt(v) for v in n.itervalues()]
        if w == 'items':
            r = n.items()
            return flat(r) if isinstance(r, list) else ['?type']
        if w == 'iteritems':
            return flat(n.iteritems())
        if w == 'len':
            return [str(len(n))]
        if w == 'contains':
            return [{True: 'T', False: 'F'}[self.k(a) in n]]
        if w == 'has_key':
            return [{True: 'T', False: 'F'}[n.has_key(self.k(a))]]
        if w == 'get':
            return [tt(n.get(self.k(a), self.skin.vals['DEF']))]
        if w == 'getn':
            return [self.nn(n.get(self.k(a)))]
        if w == 'getitem':
            try:
                return ['ok', tt(n[self.k(a)])]
            except KeyError:
                return ['KeyError']
        if w == 'getattr':
            try:
                r = self.access(q['n'])[self.k(a)]
            except KeyError:
                r = self
            if not self.accessible(q['n']) and (
                    hasattr(type(n), self.k(a)) or self.k(a) in vars(n)):
                # hidden by an attribute of the node
                return ['AttributeError'] if r is self else ['ok', tt(r)]
            if hasattr(self.access(q['n']), self.k(a)) != (r is not self):
                return ['?hasattr']
            try:
                v = getattr(self.access(q['n']), self.k(a))
            except AttributeError:
                return ['AttributeError' if r is self else '?differs']
            return ['ok', tt(v) if v is r else '?differs']
        if w == 'path':
            return [kt(k) for k in n.path]
        if w == 'root':
            return [tt(n.root)]
        if w == 'home':
            path = n.path[1:]
            res = node_by_path(n.root, path)
            if node_by_path(n.root, tuple(path)) is not res:
                return ['?tuple']
            if path and all(isinstance(p, str) and p and '/' not in p for p in path):
                for form in ('/'.join(path), '/' + '/'.join(path),
                             '/'.join(path) + '/', '/' + '/'.join(path) + '/'):
                    if node_by_path(n.root, form) is not res:
                        return ['?form ' + form]
            if not path and (node_by_path(n.root, '') is not res
                             or node_by_path(n.root, '/') is not res):
                return ['?form']
            return [tt(res)]
        if w == 'walk':
            try:
                return [tt(node_by_path(n, [self.k(p) for p in q['p']]))]
            except Exception:
                return ['ERR']
        if w == 'acquire':
            return [self.nn(n.acquire(MARKS[a] if a in MARKS else IFACES[a]))]
        if w == 'filtered':
            iface = IFACES[a]
            r = [tt(v) for v in n.filteredvalues(iface)]
            if r != [tt(v) for v in n.filtereditervalues(iface)] \
                    or r != [tt(v) for v in n.filtereditems(iface)]:
                return ['?iter differs']
            return r
        if w == 'repr':
            res = []
            text = n.treerepr()
            def shape(text, c):
                return [(len(x) - len(x.lstrip(c)), x.lstrip(c)) for x in text.split('\n')]
            plain = shape(text, ' ')
            if shape(n.treerepr(prefix='\t'), '\t') != plain:
                return ['?prefix']
            if shape(n.treerepr(indent=3), ' ') != [(i + 3 * (x != ''), x) for i, x in plain]:
                return ['?offset']
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                n.printtree()
            if out.getvalue() != text + '\n':
                return ['?printed']
            if not text.endswith('\n'):
                return ['?end']
            for line in text[:-1].split('\n'):
                body = line.lstrip(' ')
                ind = (len(line) - len(body))
                if ind % 2:
                    return ['?indent']
                if body.startswith('<class '):
                    label = body[body.index('>: ') + 3:]
                    kind = 'N'
                else:
                    label = body[:body.index(': ')]
                    kind = 'V'
                tok = NONE if label == 'None' else '?' + label
                for k, c in self.skin.keys.items():
                    if str(c) == label:
                        tok = k
                res += [str(ind // 2), kind, tok]
            return res
        if w == 'look':
            u = self.skin.uuids[a]
            r = n.node(u)
            if (u in n.index) != (r is not None) or n.index.get(int(u)) is not r:
                return ['?differs']
            return [self.nn(r)]
        if w == 'node':
            u = self.skin.uuids[a]
            r = n.node(u)
            if n.node(int(u)) is not r or n.index.get(u) is not r \
                    or n.index.get(int(u)) is not r:
                return ['?differs']
            try:
                if n.index[u] is not r or n.index[int(u)] is not r:
                    return ['?item differs']
            except KeyError:
                if r is not None:
                    return ['?item missing']
            return [self.nn(r)]
        if w == 'table':
            res = []
            for u, c in self.skin.uuids.items():
                r = n.node(c)
                if r is not None:
                    res += [u, tt(r)]
            return res
        if w == 'indexed':
            u = self.skin.uuids[a]
            r = u in n.index
            if (int(u) in n.index) != r:
                return ['?differs']
            return [{True: 'T', False: 'F'}[r]]
        if w == 'space':
            key = self.k(a)
            r = n.nodespaces.get(key)
            try:
                i = n[key]
            except KeyError:
                i = None
            if r is not i:
                return ['?differs']
            return [self.nn(r)]
        if w == 'spaces':
            ks = [k for k in n.nodespaces.keys()]
            if '__children__' in ks and n.nodespaces['__children__'] is not n:
                return ['?children']
            if n['__children__'] is not n:
                return ['?children item']
            return [kt(k) for k in ks if k != '__children__']
        if w == 'attrs':
            r = container(n.attrs)
            if container(n.attributes) is not r or n['__attrs__'] is not r:
                return ['?differs']
            return [self.nn(r)]
        raise AssertionError(w)
