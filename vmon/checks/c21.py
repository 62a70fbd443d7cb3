""" C21: spreadsheets describe and rebuild objects faithfully. """
import io
import os
import tempfile
import warnings
from typing import Any, Dict, List, Tuple

import openpyxl

from dessia_common.breakdown import attrmethod_getter, breakdown, breakdown_analysis
from dessia_common.core import DessiaObject
from dessia_common.excel_reader import ExcelReader
from dessia_common.exports import XLSXWriter
from dessia_common.files import BinaryFile

from vmon.core import scenario


class Atom(DessiaObject):
    def __init__(self, number: int, real: float = 0.5, text: str = "t", flag: bool = False, name: str = ""):
        self.number, self.real, self.text, self.flag = number, real, text, flag
        super().__init__(name=name)

    def scaled(self, factor=2):
        return self.number * factor


class Grain(DessiaObject):
    def __init__(self, weight: float, series: List[int] = None, name: str = ""):
        self.weight, self.series = weight, series
        super().__init__(name=name)


class Bond(DessiaObject):
    def __init__(self, left: Atom, right: Atom, grain: Grain = None, order: int = 1, name: str = ""):
        self.left, self.right, self.grain, self.order = left, right, grain, order
        super().__init__(name=name)


class Cell(DessiaObject):
    """ May hold anything. """

    def __init__(self, core=None, shell=None, members=None, table=None, extra=None, name: str = ""):
        self.core, self.shell, self.members, self.table, self.extra = core, shell, members, table, extra
        super().__init__(name=name)


class Shelf(DessiaObject):
    """ A collection: one container per class. """

    def __init__(self, bonds: List[Bond] = None, crates: Dict[str, "Crate"] = None, label: str = "s", tags: List[str] = None, name: str = ""):
        self.bonds, self.crates, self.label, self.tags = bonds, crates, label, tags
        super().__init__(name=name)


class Crate(DessiaObject):
    def __init__(self, size: int, seal: "Seal" = None, name: str = ""):
        self.size, self.seal = size, seal
        super().__init__(name=name)


class Seal(DessiaObject):
    def __init__(self, code: str, position: Tuple[int, int] = (0, 0), name: str = ""):
        self.code, self.position = code, position
        super().__init__(name=name)


class Box(DessiaObject):
    def __init__(self, atom: Atom, other: Atom, bond: Bond, shelf: Shelf = None, level: float = 1., name: str = ""):
        self.atom, self.other, self.bond, self.shelf, self.level = atom, other, bond, shelf, level
        super().__init__(name=name)


class Kit(DessiaObject):
    """ Attributes named after containers. """

    def __init__(self, shortList: Atom, Dictation: Atom = None, frontSet: Grain = None, TupleOf: Bond = None, name: str = ""):
        self.shortList, self.Dictation, self.frontSet, self.TupleOf = shortList, Dictation, frontSet, TupleOf
        super().__init__(name=name)


TEXTS = ["t", "some text", "é à", "a-b", "x y z", "v1.2", "path/to", "50 %", "q?", "12", "1.50", "True", "[1]", "'q'", "=1+1", "=a", "#N/A", "1_000"]


class Maker:
    def __init__(self, rng):
        self.rng, self.made = rng, []

    def text(self):
        return self.rng.choice(TEXTS)

    def real(self):
        return self.rng.choice([0.5, 0., -1.25, 1e5, round(self.rng.uniform(-100, 100), 4), 3., 0.000001, 2.5e17, -1e300, 123456789.123456, 1e15])

    def name(self, key=None):
        """ Equal objects have the same name: names do not count in equality, rows are those of distinct objects. """
        if key is None:
            return ""
        return ["", "n1", "a name", "=n2", "3"][key % 5]

    def atom(self):
        number = self.rng.randint(0, 3)
        return Atom(number, self.real(), self.text(), self.rng.random() < .5, name=self.name(number))

    def grain(self):
        series = self.rng.choice([None, [], [1, 2], [3]])
        return Grain(self.real(), series, name=self.name(len(series or [])))

    def bond(self, pool=None):
        atoms = pool or [self.atom() for _ in range(2)]
        return Bond(self.rng.choice(atoms), self.rng.choice(atoms), self.rng.choice([None, self.grain()]), self.rng.randint(1, 3))

    def seal(self):
        return Seal(self.text(), (self.rng.randint(0, 2), 1), name=self.name())

    def anything(self, depth):
        """ A value of any kind, sub-objects shared now and then. """
        rng = self.rng
        if self.made and rng.random() < .2:
            return rng.choice(self.made)
        kind = rng.choice(["number", "real", "text", "none", "atom", "grain", "bond", "cell", "list", "mixed", "builtins", "dict", "tuple",
                           "nested"])
        if depth <= 0 and kind in ("cell", "list", "dict", "bond", "mixed", "tuple", "nested"):
            kind = "atom"
        if kind == "number":
            return rng.choice([0, 3, -2, True, False, 10 ** 12])
        if kind == "real":
            return self.real()
        if kind == "text":
            return self.text()
        if kind == "none":
            return None
        if kind == "list":
            return [self.obj(depth - 1) for _ in range(rng.randint(0, 3))]
        if kind == "mixed":
            return [self.obj(depth - 1), rng.choice([1, "x", None])]
        if kind == "nested":
            return [[self.obj(depth - 1)], [1, 2]]
        if kind == "builtins":
            return rng.choice([[1, 2.5, "x"], [], ["a"], [True]])
        if kind == "dict":
            return {k: self.obj(depth - 1) for k in rng.sample(["k", "key two", "z", "3", "v1.2", "=k"], rng.randint(1, 3))} if rng.random() < .7 else \
                rng.choice([{"a": 1}, {"a": "x", "b": 2.5}, {}])
        if kind == "tuple":
            return (self.obj(depth - 1), 3)
        return self.obj(depth, kind)

    def obj(self, depth, kind=None):
        kind = kind or self.rng.choice(["atom", "grain", "bond", "cell"] if depth > 0 else ["atom", "grain"])
        value = getattr(self, kind)(depth) if kind == "cell" else getattr(self, kind)()
        self.made.append(value)
        return value

    def cell(self, depth):
        return Cell(*[self.anything(depth - 1) for _ in range(5)], name=self.name())


def children(value):
    """ The values directly under a value, with the step that leads to each. """
    if isinstance(value, DessiaObject):
        return [(k, v) for k, v in vars(value).items() if not k.startswith("_")]
    if isinstance(value, dict):
        return [(str(k), v) for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return [(str(i), v) for i, v in enumerate(value)]
    return []


def follow(root, path):
    """ What a path of the spreadsheet leads to. """
    parts = path.split(".")
    under = dict(children(root))
    for i in range(len(parts), 0, -1):
        # keys may hold dots
        key = ".".join(parts[:i])
        if key in under:
            if i == len(parts):
                return under[key]
            try:
                return follow(under[key], ".".join(parts[i:]))
            except KeyError:
                continue
    raise KeyError(path)


def sub_objects(root):
    """ class name -> distinct (unequal) objects under the root. """
    found, seen = {}, set()

    def walk(value):
        for _, child in children(value):
            if isinstance(child, DessiaObject):
                known = found.setdefault(type(child).__name__, [])
                if not any(child == k for k in known):
                    known.append(child)
                if id(child) in seen:
                    continue
                seen.add(id(child))
            walk(child)
    walk(root)
    return found


def location(cell):
    link = cell.hyperlink
    text = (link.location or link.target or "").replace("#", "")
    sheet, _, address = text.partition("!")
    return sheet.strip("'"), address


def check_row(mon, book, root, sheet, row, obj, headers):
    attributes = sorted(k for k in vars(obj) if not k.startswith("_") and k != "name")
    mon.check(headers == ["Path", "name"] + attributes, "columns", f"columns of {sheet.title}", headers, attributes)
    name = sheet.cell(row, 2).value
    mon.check((name or "") == obj.name, "name-cell", "name", name, obj.name)
    for column, attribute in enumerate(attributes, 3):
        cell, value = sheet.cell(row, column), getattr(obj, attribute)
        got, linked = cell.value, cell.hyperlink is not None
        if linked:
            mon.check(location(cell)[0] in book.sheetnames, "link-sheet", f"{attribute} links to no sheet", location(cell))
        if isinstance(value, dict):
            mon.check(got == f"Dict of {len(value)} items", "dict-cell", attribute, got, value)
            if value:
                first = next(iter(value.values()))
                mon.check(linked == isinstance(first, DessiaObject), "container-link", attribute, value)
        elif isinstance(value, list):
            if all(isinstance(v, (int, float, str)) for v in value):
                mon.check(got == str(value) and not linked, "list-cell", attribute, got, value)
            else:
                mon.check(got == f"List of {len(value)} items", "list-cell", attribute, got, value)
                mon.check(linked == isinstance(value[0], DessiaObject), "container-link", attribute, value)
                if linked:
                    mon.check(location(cell)[0] == type(value[0]).__name__, "container-link", attribute, location(cell), value)
        elif isinstance(value, DessiaObject):
            mon.check(linked, "object-link", f"{attribute} has no link", value)
            title, address = location(cell)
            mon.check(title == type(value).__name__ and address[:1] == "A" and address[1:].isdigit(), "object-link", attribute, title, address)
            path = book[title][address].value
            mon.check(path == got and follow(root, path) == value, "object-link", f"{attribute} links to another object", path, got)
            mon.ev("links")
        elif isinstance(value, bool) or value is None:
            mon.check(got == str(value), "plain-cell", attribute, got, value)
        elif isinstance(value, float):
            mon.check(got == round(value, 6), "float-cell", attribute, got, value)
        elif isinstance(value, (int, str)):
            mon.check(str(got) == str(value), "plain-cell", attribute, got, value)
        mon.ev("cells")


def check_book(mon, book, root):
    expected = sub_objects(root)
    main = book.worksheets[0]
    mon.check(sorted(book.sheetnames[1:]) == sorted(expected), "sheets", "sheets", book.sheetnames, sorted(expected))
    mon.check([main["A2"].value, main["B2"].value, main["C2"].value or ""] == [type(root).__module__, type(root).__name__, root.name],
              "main-sheet", "identity of the object", main["A2"].value, main["B2"].value)
    headers = [c.value for c in main[3]]
    check_row(mon, book, root, main, 4, root, headers)
    mon.check(main.max_row == 4, "main-sheet", "rows of the main sheet", main.max_row)
    for title, objects in expected.items():
        sheet = book[title]
        mon.check([sheet["A2"].value, sheet["B2"].value] == [type(objects[0]).__module__, title], "sheet-class", "class of a sheet",
                  sheet["A2"].value, sheet["B2"].value)
        headers = [c.value for c in sheet[3]]
        rows = range(4, sheet.max_row + 1)
        mon.check(len(rows) == len(objects), "row-count", f"rows of {title}", len(rows), len(objects))
        left = list(objects)
        for row in rows:
            path = sheet.cell(row, 1).value
            try:
                obj = follow(root, path)
            except (KeyError, AttributeError, TypeError) as exc:
                mon.fail("row-path", f"path {path!r} of a row leads nowhere: {exc!r}")
            mon.check(type(obj).__name__ == title, "row-path", "path leads to another class", path, obj)
            match = [i for i, o in enumerate(left) if o == obj]
            mon.check(bool(match), "row-distinct", "two rows of the same object", path)
            left.pop(match[0])
            check_row(mon, book, root, sheet, row, obj, headers)
            mon.ev("rows")


def exported(rng, mon, obj):
    """ Export through one of the entry points. """
    stream = io.BytesIO()
    way = rng.choice(["stream", "writer", "file", "binaryfile"])
    mon.ev("export:" + way)
    if way == "writer":
        writer = mon.call("writer", XLSXWriter, obj)
        mon.call("save", writer.save_to_stream, stream)
    elif way == "stream":
        mon.call("to-xlsx-stream", obj.to_xlsx_stream, stream)
    elif way == "binaryfile":
        stream = BinaryFile("x")
        mon.call("to-xlsx-stream", obj.to_xlsx_stream, stream)
    else:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, rng.choice(["out.xlsx", "out"]))
            mon.call("to-xlsx", obj.to_xlsx, path)
            path = path if path.endswith(".xlsx") else path + ".xlsx"
            with open(path, "rb") as file:
                stream = io.BytesIO(file.read())
    stream.seek(0)
    return stream


@scenario("C21", 220, 6000, rule="exported workbooks: one row per distinct sub-object, values, paths and links followed")
def described(rng, mon):
    maker = Maker(rng)
    root = maker.cell(rng.choice([1, 2, 3, 3]))
    before = repr(root.to_dict(use_pointers=False))
    mon.case(before)
    stream = exported(rng, mon, root)
    book = openpyxl.load_workbook(stream)
    check_book(mon, book, root)
    mon.check(repr(root.to_dict(use_pointers=False)) == before, "object-untouched", "object changed by its export")


@scenario("C21", 250, 8000, rule="breakdown of objects: every distinct sub-object with a path that leads to it")
def broken_down(rng, mon):
    maker = Maker(rng)
    root = maker.cell(rng.choice([1, 2, 3]))
    mon.case(repr(root.to_dict(use_pointers=False)))
    got = mon.call("breakdown", breakdown, root)
    expected = sub_objects(root)
    mon.check({k: len(v) for k, v in got.items()} == {k: len(v) for k, v in expected.items()}, "breakdown-classes", "classes",
              {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in expected.items()})
    for title, objects in expected.items():
        for obj in objects:
            paths = [p for o, p in got[title].items() if o == obj]
            mon.check(len(paths) == 1, "breakdown-objects", "object found once", paths)
            mon.check(follow(root, paths[0]) == obj, "breakdown-path", "path leads to another object", paths[0])
            mon.ev("paths")
            plain = paths[0].split(".")
            if all(p.isidentifier() for p in plain):
                try:
                    owner = root
                    for part in plain:
                        owner = vars(owner)[part]
                except (KeyError, TypeError):
                    continue
                mon.check(mon.call("getter", attrmethod_getter, root, paths[0]) is owner, "getter", "attribute getter", paths[0])
                if isinstance(owner, Atom):
                    mon.check(attrmethod_getter(root, paths[0] + ".scaled()") == owner.number * 2, "getter", "method getter")
                    mon.check(attrmethod_getter(root, paths[0] + ".scaled(5)") == owner.number * 5, "getter", "method getter")
    analysis = mon.call("analysis", breakdown_analysis, root)
    mon.check(analysis["subobjects_number_by_class"] == {k: len(v) for k, v in expected.items()}, "analysis", "numbers by class", analysis)


def same(a, b):
    if isinstance(a, DessiaObject) or isinstance(b, DessiaObject):
        return type(a) is type(b) and a.name == b.name and all(same(v, getattr(b, k)) for k, v in vars(a).items() if not k.startswith("_"))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    return a == b


def view(value):
    return value.to_dict(use_pointers=False) if isinstance(value, DessiaObject) else value


@scenario("C21", 260, 8000, rule="export then read: the same object comes back (sub-objects, shared ones, one container per class)")
def rebuilt(rng, mon):
    maker = Maker(rng)
    atoms = [maker.atom() for _ in range(rng.randint(1, 4))]
    shelf = None
    if rng.random() < .6:
        # containers: distinct objects, of classes that are nowhere else
        bonds = []
        for i in range(rng.choice([0, 1, 2, 3, 4, 13])):
            bonds.append(Bond(maker.rng.choice(atoms), rng.choice(atoms), rng.choice([None, maker.grain()]), i, name=maker.name(i)))
        crates = {k: Crate(i, rng.choice([None, maker.seal()]), name=maker.name(i + 1))
                  for i, k in enumerate(rng.sample(["k", "key two", "z", "w", "v1.2", "v2.2", "a.b.c", "k ", " k", "K", "12"] + [f"k{j}" for j in range(12)], rng.choice([1, 2, 3, 12])))} if rng.random() < .6 else None
        shelf = Shelf(bonds if rng.random() < .8 else None, crates, maker.text(), rng.choice([None, [], ["a", "b"]]), name=rng.choice(["", "the shelf"]))
    kind = rng.choice(["box", "bond", "atom", "shelf", "chain", "kit"])
    if kind == "box":
        bond = Bond(rng.choice(atoms), rng.choice(atoms), rng.choice([None, maker.grain()]), 9, name=maker.name())
        if shelf is not None and shelf.bonds:
            bond = None
        root = Box(rng.choice(atoms), rng.choice(atoms), bond, shelf, maker.real(), name=rng.choice(["", "the box"]))
    elif kind == "bond":
        root = maker.bond(atoms)
    elif kind == "atom":
        root = maker.atom()
    elif kind == "kit":
        root = Kit(rng.choice(atoms), rng.choice([None, rng.choice(atoms)]), rng.choice([None, maker.grain()]), rng.choice([None, maker.bond(atoms)]),
                   name=maker.name())
        if rng.random() < .3:
            root = Cell(root, rng.choice(atoms), None, None, 1, name=maker.name())
    elif kind == "shelf" and shelf is not None:
        root = shelf
    else:
        root = Cell(Bond(atoms[0], atoms[-1], None), rng.choice(atoms), None, None, rng.choice([1, None, "x y", [1, 2], (1, 2)]), name=maker.name())
        for _ in range(rng.randint(0, 3)):
            root = Cell(root, rng.choice(atoms), None, None, rng.choice([1, None, "x y"]), name=maker.name())
    mon.case((kind, repr(root.to_dict(use_pointers=False))))
    stream = exported(rng, mon, root)
    way = rng.choice(["class", "reader", "file"])
    if way == "class":
        got = mon.call("from-xlsx-stream", type(root).from_xlsx_stream, stream)
    elif way == "reader":
        reader = mon.call("reader", ExcelReader, stream)
        got = mon.call("read-workbook", reader.read_workbook)
        reader.close()
    else:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "in.xlsx")
            with open(path, "wb") as file:
                file.write(stream.read())
            got = mon.call("from-xlsx", type(root).from_xlsx, path)
    mon.check(same(root, got), "rebuilt", "object read from its spreadsheet", view(root), view(got))
    mon.ev("rebuilt:" + kind)
    mon.ev("rebuilt-objects", sum(map(len, sub_objects(root).values())) + 1)


CATALOG = {
    "Atom": (Atom, {"number": lambda r: r.randint(-5, 5), "real": lambda r: r.choice([.5, 1.25, -3.5, 1e-9]),
                    "text": lambda r: r.choice([x for x in TEXTS if x[0] not in "=#"]), "flag": lambda r: r.choice([True, False]), "name": lambda r: r.choice(["a", "b", "long name", "12"])}),
    "Grain": (Grain, {"weight": lambda r: r.choice([1, 2.5, 0.1]), "series": lambda r: r.choice([None, "[1, 2]", "[]"]),
                      "name": lambda r: r.choice(["g", "h"])}),
    "Seal": (Seal, {"code": lambda r: r.choice([x for x in TEXTS if x[0] not in "=#"]), "position": lambda r: r.choice(["(1, 2)", "(0, 0)"]), "name": lambda r: "s"}),
}
LITERALS = {"[1, 2]": [1, 2], "[]": [], "(1, 2)": (1, 2), "(0, 0)": (0, 0)}
REQUIRED = {"Atom": ["number"], "Grain": ["weight"], "Seal": ["code"]}


@scenario("C21", 220, 8000, rule="catalog sheets: objects of the named class, row by row; missing and duplicated attributes are errors")
def catalog(rng, mon):
    book = openpyxl.Workbook()
    book.remove(book.active)
    expected, fault = {}, rng.choice([None, None, None, "missing", "duplicate", "unknown-class"])
    titles = [f"sheet {i}" for i in range(rng.randint(1, 3))]
    faulty = rng.choice(titles)
    described = []
    for title in titles:
        key = rng.choice(list(CATALOG))
        cls, columns = CATALOG[key]
        names = list(columns)
        optional = [n for n in names if n not in REQUIRED[key]]
        names = REQUIRED[key] + rng.sample(optional, rng.randint(0, len(optional)))
        rng.shuffle(names)
        if rng.random() < .2:
            names.insert(rng.randrange(len(names) + 1), "comment")
        sheet = book.create_sheet(title)
        headers = list(names)
        class_name = key
        if title == faulty and fault == "missing":
            headers = [n for n in names if n not in REQUIRED[key]]
            if not headers:
                headers = [optional[0]]
        if title == faulty and fault == "duplicate":
            headers.insert(rng.randrange(len(headers) + 1), rng.choice(headers))
        if title == faulty and fault == "unknown-class":
            class_name = "Missing"
        sheet.append([cls.__module__, class_name])
        sheet.append(headers)
        rows = []
        for _ in range(rng.randint(1, 6)):
            row = {n: columns[n](rng) if n in columns else rng.choice(["note", 3]) for n in headers}
            rows.append(row)
            sheet.append([row[n] for n in headers])
        expected[title] = (cls, rows)
        described.append((key, headers, rows))
    mon.case((fault, described))
    stream = io.BytesIO()
    book.save(stream)
    stream.seek(0)
    reader = mon.call("reader", ExcelReader, stream)
    mon.ev("catalog:" + str(fault))
    if fault:
        errors = (ValueError,) if fault == "duplicate" else (Exception,)
        mon.refuses("catalog-" + fault, reader.read_catalog, errors=errors)
        return
    got = mon.call("read-catalog", reader.read_catalog)
    mon.check(sorted(got) == sorted(titles), "catalog-sheets", "sheets", sorted(got))
    for title, (cls, rows) in expected.items():
        objects = got[title]
        mon.check(len(objects) == len(rows), "catalog-rows", "number of objects", len(objects), len(rows))
        for obj, row in zip(objects, rows):
            mon.check(type(obj) is cls, "catalog-class", "class", type(obj), cls)
            wanted = cls(**{k: LITERALS.get(v, v) for k, v in row.items() if k != "comment"})
            mon.check(same(obj, wanted), "catalog-values", "object of a row", view(obj), view(wanted))
            mon.ev("catalog-objects")


@scenario("C21", 100, 3000, rule="a workbook without a required attribute is an error")
def incomplete(rng, mon):
    maker = Maker(rng)
    root = Box(maker.atom(), maker.atom(), maker.bond(), None, 1.5, name="b")
    stream = exported(rng, mon, root)
    book = openpyxl.load_workbook(stream)
    title, attribute = rng.choice([("Atom", "number"), (book.sheetnames[0], "atom"), ("Bond", "left")])
    sheet = book[title]
    column = [c.value for c in sheet[3]].index(attribute) + 1
    mon.case((title, attribute, repr(root.to_dict(use_pointers=False))))
    if rng.random() < .5:
        sheet.cell(3, column).value = "renamed"
    else:
        sheet.delete_cols(column)
    out = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        book.save(out)
    out.seek(0)
    mon.refuses("missing-attribute", Box.from_xlsx_stream, out)
