""" User-level classes driven by the monitors. They only use the public features of dessia_common. """
from typing import Any, Dict, List, Tuple, Optional, Union, Type

from dessia_common.core import DessiaObject, PhysicalObject
from dessia_common.typings import InstanceOf
from dessia_common.files import StringFile, BinaryFile
from dessia_common.measures import Angle, Distance, Force, Mass, Time


class Leaf(DessiaObject):
    """ Scalars only, embedded. """

    def __init__(self, integer: int, real: float = 0.5, text: str = "", flag: bool = False, name: str = ""):
        self.integer = integer
        self.real = real
        self.text = text
        self.flag = flag
        DessiaObject.__init__(self, name=name)


class StandaloneLeaf(Leaf):
    """ Scalars only, standalone. """

    _standalone_in_db = True

    def __init__(self, integer: int, real: float = 0.5, text: str = "", flag: bool = False, name: str = ""):
        Leaf.__init__(self, integer, real, text, flag, name)


class Payload(DessiaObject):
    """ One attribute without annotation. """

    def __init__(self, payload, name: str = ""):
        self.payload = payload
        DessiaObject.__init__(self, name=name)


class StandalonePayload(Payload):
    """ Same, standalone. """

    _standalone_in_db = True

    def __init__(self, payload, name: str = ""):
        Payload.__init__(self, payload, name=name)


class Typed(DessiaObject):
    """ Every supported annotated container. """

    def __init__(self, ints: List[int], pair: Tuple[int, str], triple: Tuple[float, Leaf, str],
                 mapping: Dict[str, float], child: Leaf, children: List[Leaf], leafmap: Dict[str, Leaf],
                 matrix: List[List[float]], pairs: List[Tuple[int, str]], option: Leaf = None, label: str = "x",
                 name: str = ""):
        self.ints = ints
        self.pair = pair
        self.triple = triple
        self.mapping = mapping
        self.child = child
        self.children = children
        self.leafmap = leafmap
        self.matrix = matrix
        self.pairs = pairs
        self.option = option
        self.label = label
        DessiaObject.__init__(self, name=name)


class StandaloneTyped(Typed):
    """ Same, standalone. """

    _standalone_in_db = True

    def __init__(self, ints: List[int], pair: Tuple[int, str], triple: Tuple[float, Leaf, str],
                 mapping: Dict[str, float], child: Leaf, children: List[Leaf], leafmap: Dict[str, Leaf],
                 matrix: List[List[float]], pairs: List[Tuple[int, str]], option: Leaf = None, label: str = "x",
                 name: str = ""):
        Typed.__init__(self, ints, pair, triple, mapping, child, children, leafmap, matrix, pairs, option, label, name)


class Pair(DessiaObject):
    """ Two sub-objects of any class plus an annotation through InstanceOf. """

    def __init__(self, left: InstanceOf[DessiaObject], right: Any = None, tag: int = 0, name: str = ""):
        self.left = left
        self.right = right
        self.tag = tag
        DessiaObject.__init__(self, name=name)


class StandalonePair(Pair):
    """ Same, standalone. """

    _standalone_in_db = True

    def __init__(self, left: InstanceOf[DessiaObject], right: Any = None, tag: int = 0, name: str = ""):
        Pair.__init__(self, left, right, tag, name)


class Derived(DessiaObject):
    """ Attributes that are computed, private or excluded from serialization. """

    _non_serializable_attributes = ["scratch"]

    def __init__(self, values: List[int], name: str = ""):
        self.values = values
        self.total = sum(values)
        self.scratch = object()
        self._cache = object()
        DessiaObject.__init__(self, name=name)


class ClassHolder(DessiaObject):
    """ Holds a class. """

    def __init__(self, class_: Type, amount: int = 0, name: str = ""):
        self.class_ = class_
        self.amount = amount
        DessiaObject.__init__(self, name=name)


class KwOnly(DessiaObject):
    """ Keyword-only arguments. """

    def __init__(self, first: int, *, second: float = 1.5, third: List[str] = None, name: str = ""):
        self.first = first
        self.second = second
        self.third = third
        DessiaObject.__init__(self, name=name)


class CustomEq(DessiaObject):
    """ Excludes an attribute from equality and from hash. """

    _standalone_in_db = True
    _non_data_eq_attributes = ["name", "ignored"]
    _non_data_hash_attributes = ["name", "unhashed"]

    def __init__(self, main: int, ignored: str = "", unhashed: Any = None, name: str = ""):
        self.main = main
        self.ignored = ignored
        self.unhashed = unhashed
        DessiaObject.__init__(self, name=name)


class IdentityEq(DessiaObject):
    """ Equality is identity. """

    _eq_is_data_eq = False

    def __init__(self, value: int, name: str = ""):
        self.value = value
        DessiaObject.__init__(self, name=name)


class MeasureHolder(DessiaObject):
    """ Measures. """

    def __init__(self, length: Distance, masses: List[Mass], duration: Time = 1.0, name: str = ""):
        self.length = length
        self.masses = masses
        self.duration = duration
        DessiaObject.__init__(self, name=name)


class FileHolder(DessiaObject):
    """ Files as attributes. """

    def __init__(self, text: StringFile, binary: BinaryFile = None, name: str = ""):
        self.text = text
        self.binary = binary
        DessiaObject.__init__(self, name=name)


class Physical(PhysicalObject):
    """ A physical object. """

    _standalone_in_db = True

    def __init__(self, size: float, parts: List[Leaf] = None, name: str = ""):
        self.size = size
        self.parts = parts
        PhysicalObject.__init__(self, name=name)


class Measured(DessiaObject):
    """ Physical quantities, alone and in containers. """

    def __init__(self, length: Distance, angle: Angle = None, weights: List[Mass] = None, loads: Dict[str, Force] = None,
                 span: Tuple[Time, Distance] = None, leaf: Leaf = None, name: str = ""):
        self.length, self.angle, self.weights = length, angle, weights
        self.loads, self.span, self.leaf = loads, span, leaf
        DessiaObject.__init__(self, name=name)
