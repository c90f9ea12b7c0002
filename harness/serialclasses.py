"""Importable classes and functions for serialized trees."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.serializer import deserializer
from node.serializer import serializer
from plumber import plumbing
from zope.interface import Interface
from zope.interface import implementer


@plumbing(Adopt, Nodify, DefaultInit, OdictStorage)
class OwnAttributes(object):
    pass


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class Minimal(object):
    attributes_factory = OwnAttributes


class Ordered(OrderedNode):
    pass


class False_(BaseNode):
    def __bool__(self):
        return False


class FalseMinimal(Minimal):
    def __bool__(self):
        return False


class Own(OrderedNode):
    """Creates a child on its own."""
    key = 'a'

    def __init__(self, name=None, parent=None):
        super(Own, self).__init__(name=name, parent=parent)
        self[Own.key] = OrderedNode()


class Defaults(AttributedNode):
    """Sets an attribute on its own."""
    key = 'x'

    def __init__(self, name=None, parent=None):
        super(Defaults, self).__init__(name=name, parent=parent)
        self.attrs[Defaults.key] = 0


class Outer(object):
    class Inner(AttributedNode):
        """A nested node class."""

    class Plain(object):
        pass

    def method(self):
        pass

    @staticmethod
    def static():
        pass


class IProp(Interface):
    """Nodes with a property that is serialized."""


@implementer(IProp)
class Custom(AttributedNode):
    def __init__(self, arg, name=None, parent=None):
        super(Custom, self).__init__(name=name, parent=parent)
        self.arg = arg
        self.prop = None


@serializer(IProp)
def ser_prop(encoder, node, data):
    data['prop'] = node.prop


@deserializer(IProp)
def des_prop(decoder, node, data):
    node.prop = decoder.decode(data['prop'])


@serializer(Custom)
def ser_custom(encoder, node, data):
    data['kw'] = {'arg': node.arg}


def function():
    pass


CLASSES = {
    'O': [OrderedNode, Ordered],
    'B': [BaseNode, False_],
    'A': [AttributedNode, Outer.Inner],
    'M': [Minimal, FalseMinimal],
    'N': [Node],
    'K': [Custom],
    'Z': [Own],
    'J': [Defaults],
}
