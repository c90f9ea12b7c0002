"""Importable node classes for copies."""
from harness.serialclasses import Minimal
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import EventAttribute
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import UUIDAware
from plumber import plumbing


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Plain(object):
    pass


@plumbing(Adopt, Order, AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class WithOrder(object):
    pass


@plumbing(Adopt, Cache, Invalidate, DefaultInit, Nodify, OdictStorage)
class WithCache(object):
    pass


@plumbing(Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage)
class WithLifecycle(object):
    pass


@plumbing(Nodespaces, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class WithFallback(object):
    fallback_key = 'b'


@plumbing(Events, Adopt, DefaultInit, Nodify, OdictStorage)
class WithEvents(object):
    attr = EventAttribute(0)


@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class WithAlias(object):
    aliaser = None


@plumbing(Nodespaces, Adopt, Order, GetattrChildren, DefaultInit, Nodify, OdictStorage)
class WithGetattr(object):
    pass


@plumbing(Lifecycle, Nodespaces, Cache, Invalidate, Events, Fallback, Adopt, Order, AsAttrAccess,
          DefaultInit, Nodify, OdictStorage)
class WithMany(object):
    fallback_key = 'a'
    attr = EventAttribute([])


class FalsyNode(Plain):
    """False while it is a leaf, equal to all of its kind."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return isinstance(other, FalsyNode)

    def __hash__(self):
        return 7


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Aware(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, UUIDAware, DictStorage)
class AwareLate(object):
    pass


class AwareRoot(Aware):
    overwrite_recursiv_on_copy = False


@plumbing(UUIDAware, Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class AwareAttrs(object):
    pass


CLASSES = {
    'O': [OrderedNode, BaseNode],
    'P': [Plain, WithOrder, WithCache, WithLifecycle, WithFallback, WithEvents, WithAlias,
          FalsyNode, WithGetattr, WithMany],
    'M': [Minimal],
    'A': [AttributedNode, Node],
    'U': [Aware, AwareLate],
    'V': [AwareRoot],
    'W': [AwareAttrs],
}
