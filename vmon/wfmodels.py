""" User classes used inside generated workflows. Importable by name, so that scripts and dicts can rebuild them. """
import sys
import types
from typing import Dict, List, Tuple

from dessia_common.core import DessiaObject
from dessia_common.decorators import cad_view, markdown_view, plot_data_view
from dessia_common.files import StringFile, BinaryFile

CALLS = []  # what user code was really called with, in order


class Box(DessiaObject):
    """
    A box.

    :param value: Content of the box
    :param tags: Numbers written on it
    """

    _standalone_in_db = True
    _allowed_methods = ["scaled"]

    def __init__(self, value: int, tags: List[int] = None, name: str = ""):
        self.value = value
        self.tags = [] if tags is None else tags
        DessiaObject.__init__(self, name=name)

    def double(self) -> int:
        """ Twice. """
        CALLS.append(("double", self.value))
        return 2 * self.value

    def scaled(self, factor: int, offset: int = 1) -> 'Box':
        """
        New box.

        :param factor: Multiplies
        :param offset: Is added
        """
        CALLS.append(("scaled", self.value, factor, offset))
        return Box(self.value * factor + offset, list(self.tags) + [offset], name=self.name)

    def reported(self, count: int, progress_callback=lambda x: None) -> List[int]:
        """ Uses its progress callback. """
        CALLS.append(("reported", self.value, count))
        progress_callback(0.25)
        progress_callback(0.75)
        return [self.value + i for i in range(count)]

    def spread(self, count: int = 3) -> List[int]:
        """ Consecutive values. """
        CALLS.append(("spread", self.value, count))
        return [self.value + i for i in range(count)]

    def split(self, count: int = 2) -> List['Box']:
        """ Boxes. """
        CALLS.append(("split", self.value, count))
        return [Box(self.value + 10 * i, name=f"{self.name}/{i}") for i in range(count)]

    @classmethod
    def build(cls, base: int, step: int = 2, label: str = "built") -> 'Box':
        """
        Class method.

        :param base: Start
        """
        CALLS.append(("build", base, step, label))
        return cls(base - step, [base, step], name=label)

    @classmethod
    def describe(cls, base: int, prefix: str = "p") -> str:
        """ Class method giving text. """
        CALLS.append(("describe", base, prefix))
        return f"{prefix}{base}"

    @staticmethod
    def pack(first: int, second: int) -> Tuple[int, int]:
        """ Static method. """
        CALLS.append(("pack", first, second))
        return first, second

    def save_note(self, stream: StringFile):
        """ Text export. """
        stream.write(f"note {self.value} {self.tags} {self.name}\nend")

    def save_blob(self, stream: BinaryFile):
        """ Binary export. """
        stream.write(bytes([self.value % 256]) * 3 + b"\x00\xff" + repr(self.tags).encode())

    @markdown_view("Note")
    def note(self, **kwargs) -> str:
        """ Markdown view. """
        return f"# Box {self.value}"

    @plot_data_view("Chart", load_by_default=True)
    def chart(self, reference_path: str = "#", **kwargs):
        """ Plot data view. """
        return [f"chart of {self.value} at {reference_path}"]

    @cad_view("Shape")
    def shape(self, **kwargs):
        """ 3D view. """
        return {"shape": self.value}


class Crate(DessiaObject):
    """ Holds boxes. """

    def __init__(self, boxes: List[Box], lid: Box = None, marks: Dict[str, int] = None, name: str = ""):
        self.boxes = boxes
        self.lid = lid
        self.marks = {} if marks is None else marks
        DessiaObject.__init__(self, name=name)

    def total(self) -> int:
        """ Sum. """
        CALLS.append(("total", tuple(b.value for b in self.boxes)))
        return sum(b.value for b in self.boxes)

    def values(self) -> List[int]:
        """ All values. """
        CALLS.append(("values", tuple(b.value for b in self.boxes)))
        return [b.value for b in self.boxes]


class Recorder(DessiaObject):
    """ Tells what it was given: every value is acceptable. """

    def __init__(self, number: int = 5, text: str = "x", items: List[int] = None, marks: Dict[str, int] = None,
                 flag: bool = True, name: str = ""):
        self.number, self.text, self.items, self.marks, self.flag = number, text, items, marks, flag
        DessiaObject.__init__(self, name=name)

    @classmethod
    def record(cls, number: int = 5, text: str = "x", items: List[int] = None, ratio: float = 1.5,
               flag: bool = True) -> str:
        """ Class method with defaults only. """
        return repr((number, text, items, ratio, flag))

    def told(self, number: int = 7, flag: bool = False) -> str:
        """ Method with defaults. """
        return repr((self.number, self.text, self.items, self.marks, self.flag, self.name, number, flag))


def plain(value):
    """ Independent plain description of a value carried by a workflow. """
    if isinstance(value, Box):
        return ("Box", plain(value.value), plain(value.tags), value.name)
    if isinstance(value, Crate):
        return ("Crate", plain(value.boxes), plain(value.lid), plain(value.marks), value.name)
    if isinstance(value, Recorder):
        return ("Recorder", value.told(), value.name)
    if isinstance(value, StringFile):
        return ("StringFile", value.filename, value.getvalue())
    if isinstance(value, BinaryFile):
        return ("BinaryFile", value.filename, value.getvalue())
    if isinstance(value, tuple):
        return ("tuple", *[plain(v) for v in value])
    if isinstance(value, list):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    return value


def loose(value):
    """ Same, with tuples seen as lists (what untyped serialized values keep). """
    value = plain(value)

    def walk(v):
        if isinstance(v, (tuple, list)):
            v = v[1:] if isinstance(v, tuple) and v and v[0] == "tuple" else v
            return [walk(s) for s in v]
        if isinstance(v, dict):
            return {k: walk(s) for k, s in v.items()}
        return v
    return walk(value)


def packaged():
    """ A class in each of three packages. """
    if "pkga" not in sys.modules:
        for package in ("pkga", "pkgb", "pkgc"):
            module = types.ModuleType(f"{package}.models")
            sys.modules[package] = types.ModuleType(package)
            sys.modules[module.__name__] = sys.modules[package].models = module
            exec("from dessia_common.core import DessiaObject\n"
                 "class Part(DessiaObject):\n"
                 "    def __init__(self, size: int, name: str = ''):\n"
                 "        self.size = size\n"
                 "        super().__init__(name=name)\n"
                 "    def grow(self, by: int) -> int:\n"
                 "        return self.size + by\n"
                 "    @classmethod\n"
                 "    def of(cls, size: int) -> int:\n"
                 "        return size\n", module.__dict__)
    return [sys.modules[f"{p}.models"].Part for p in ("pkga", "pkgb", "pkgc")]
