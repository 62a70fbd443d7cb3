""" C22: displays, exports and checks report instead of breaking. """
import importlib.util
import inspect
import itertools
import json
import linecache
import os
import shutil
import sys
import tempfile
import io
import zipfile
from typing import Any, Dict, List

import docx
import networkx as nx
import openpyxl

from dessia_common import checks as dcc
from dessia_common.core import DessiaObject
from dessia_common.decorators import cad_view, markdown_view, plot_data_view
from dessia_common.displays import DisplaySetting, networkx_to_visjs_data
from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import CadViewType, MarkdownType, MethodType, PlotDataType
from dessia_common.utils.types import is_bson_valid, is_jsonable
from dessia_common.workflow import blocks as dwb
from dessia_common.workflow.core import Pipe, Workflow, WorkflowRun

from vmon.core import scenario
from vmon.solids import DRAWN, Solid
from vmon.wfmodels import Box


HEADER = '''import functools
import dessia_common.decorators
import dessia_common.decorators as dcd
from dessia_common.core import DessiaObject
from dessia_common.decorators import (plot_data_view, markdown_view, cad_view, export_decorator, export_step, export_stl,
                                      export_html, export_docx, export_xlsx)

CALLS = []


class Strange:
    """ Something that cannot be serialized. """
    def to_dict(self):
        raise ZeroDivisionError("strange serialization")


class Point(DessiaObject):
    def __init__(self, x: float = 0., name: str = ""):
        self.x = x
        DessiaObject.__init__(self, name=name)

'''
VIEW_TYPES = {"plot_data_view": "plot_data", "markdown_view": "markdown", "cad_view": "babylon_data"}
EXPORTS = {"export_step": ("step", True), "export_stl": ("stl", False), "export_html": ("html", True),
           "export_docx": ("docx", False), "export_xlsx": ("xlsx", False)}
SELECTORS = ["2D View", "View", "3D", "é/à", "a.b", "Long selector name with (parentheses)", "x", "0", "to_markdown"]


def make_views(rng, prefix):
    """ Descriptions of decorated views: distinct selectors, any mix of kinds and behaviours. """
    views = []
    selectors = rng.sample(SELECTORS, len(SELECTORS))
    for index in range(rng.choice([0, 1, 2, 3, 5, 8])):
        kind = rng.choice(list(VIEW_TYPES))
        behaviour = rng.choice(["ok", "ok", "ok", "error", "none", "key-error", "custom-error"])
        if rng.random() < .15:
            behaviour = "no-text" if kind == "markdown_view" else "unserializable"
        selector = selectors[index % len(selectors)] + prefix
        if kind == "plot_data_view" and rng.random() < .3:
            selector = None
        views.append({"method": f"{prefix}{rng.choice('zmab')}view{index}", "kind": kind, "selector": selector,
                      "default": rng.random() < .4, "behaviour": behaviour,
                      "form": rng.choice(["plain", "module", "alias", "keyword"]),
                      "layout": rng.choice(["plain", "plain", "flush-string", "flush-doc", "inner-def", "multi-line"]),
                      "class_method": False, "value": rng.randint(0, 99)})
    return views


def view_data(view):
    """ What the method returns, as Python text, and the data the display has to hold. """
    value = view["value"]
    if view["behaviour"] == "none":
        return "None", None
    if view["kind"] == "markdown_view":
        text = f"# Title {value}\n\n    | a | b |\n    | - | - |\n    | {value} | 2 |"
        return repr(text), inspect.cleandoc(text)
    if view["kind"] == "cad_view":
        data = {"meshes": [{"positions": [0.5, value], "name": "m"}], "max_length": value}
        return repr(data), data
    data = [{"type_": "circle", "r": value}, [1, 2.5, None], "t", True]
    return repr(data), data


def view_source(view):
    arguments = [] if view["selector"] is None and view["form"] != "keyword" else \
        [("selector=" if view["form"] == "keyword" else "") + repr(view["selector"])]
    if view["default"]:
        arguments.append("load_by_default=True")
    name = {"module": "dessia_common.decorators.", "alias": "dcd."}.get(view["form"], "") + view["kind"]
    separator = ",\n" if view["layout"] == "multi-line" else ", "
    lines = [f"    @{name}({separator.join(arguments)})"]
    lines.append(f"    def {view['method']}(self):")
    if view["layout"] == "flush-doc":
        lines.append('        """\nA view\n\n  documented like this\n        """')
    if view["layout"] == "inner-def":
        lines.append("        @functools.lru_cache()\n        def inner(x):\n            return x\n        inner(1)")
    lines.append(f"        CALLS.append({view['method']!r})")
    if view["layout"] == "flush-string":
        lines.append('        text = """\n# A markdown title\ntext\n"""\n        assert text')
    if view["behaviour"] == "error":
        lines.append(f"        raise ValueError('view {view['value']} failed')")
    elif view["behaviour"] == "key-error":
        lines.append(f"        return {{}}['view {view['value']} failed']")
    elif view["behaviour"] == "custom-error":
        lines.append(f"        class Custom(Exception):\n            pass\n        raise Custom('view {view['value']} failed')")
    elif view["behaviour"] == "unserializable":
        lines.append("        return {'a': Strange()}")
    elif view["behaviour"] == "no-text":
        lines.append("        return [1, 2]")
    else:
        lines.append(f"        return {view_data(view)[0]}")
    return "\n".join(lines) + "\n"


def make_exports(rng, prefix):
    exports = []
    for index in range(rng.choice([0, 0, 1, 2, 4])):
        kind = rng.choice(list(EXPORTS) + ["export_decorator"] * 2)
        if kind == "export_decorator":
            extension, text = rng.choice(["txt", "csv", "bin", "xml", "html"]), rng.random() < .5
        else:
            extension, text = EXPORTS[kind]
        exports.append({"method": f"{prefix}{rng.choice('zma')}export{index}", "kind": kind, "selector": f"{prefix}sel {index}",
                        "extension": extension, "text": text, "content": f"é {index} {rng.randint(0, 999)}\n" * rng.choice([0, 1, 3]),
                        "form": rng.choice(["plain", "module", "alias"]), "layout": rng.choice(["plain", "flush"])})
    return exports


def export_source(export):
    name = {"module": "dessia_common.decorators.", "alias": "dcd."}.get(export["form"], "") + export["kind"]
    arguments = repr(export["selector"])
    if export["kind"] == "export_decorator":
        arguments += f", {export['extension']!r}, is_text={export['text']}"
    lines = [f"    @{name}({arguments})", f"    def {export['method']}(self, stream):"]
    if export["layout"] == "flush":
        lines.append('        """\nWrite the file.\n        """')
    lines.append(f"        CALLS.append({export['method']!r})")
    lines.append(f"        stream.write({export['content']!r}{'' if export['text'] else '.encode()'})")
    return "\n".join(lines) + "\n"


PLAIN = ['    def {name}(self, value: float = 1.0) -> float:\n        return value\n',
         '    @property\n    def {name}(self):\n        return 1\n',
         '    @staticmethod\n    def {name}(value: int = 0) -> int:\n        return value\n',
         '    @classmethod\n    def {name}(cls, value: int = 0) -> "DessiaObject":\n        return cls()\n',
         '    def {name}(self):\n        text = """\nflush\n    text"""\n        return text\n',
         '    @functools.lru_cache(maxsize=None)\n    def {name}(self):\n        return 1\n']


def class_source(name, base, views, exports, rng, dropped=()):
    parts = [view_source(v) for v in views] + [export_source(e) for e in exports]
    parts += [rng.choice(PLAIN).format(name=f"plain_{name.lower()}{i}") for i in range(rng.randint(0, 3))]
    parts += [f"    def {method}(self):\n        return 'no more a view'\n" for method in dropped]
    rng.shuffle(parts)
    attribute = ""
    if base == "DessiaObject":
        attribute = ('    def __init__(self, x: float = 1.5, name: str = ""):\n        self.x = x\n'
                     '        DessiaObject.__init__(self, name=name)\n\n')
    return f"class {name}({base}):\n    \"\"\" Generated class {name}. \"\"\"\n{attribute}" + "\n".join(parts) + "\n\n"


COUNTER = itertools.count()


class GeneratedClass:
    """ A class written to a module on disk, the way users write them, and what is known of it. """

    def __init__(self, rng):
        base_views, views = make_views(rng, "b"), make_views(rng, "c")
        base_exports, exports = make_exports(rng, "b"), make_exports(rng, "c")
        self.derived = rng.random() < .6
        source = HEADER + class_source("Base", "DessiaObject", base_views, base_exports, rng)
        self.views, self.exports = base_views, base_exports
        if self.derived:
            dropped, kept = [], []
            for view in base_views:
                draw = rng.random()
                if draw < .15:      # overridden without a decorator: no more a view
                    dropped.append(view["method"])
                elif draw < .3:     # overridden by another view
                    new = dict(rng.choice(make_views(rng, "o") or [view]))
                    new["method"] = view["method"]
                    new["selector"] = "overridden " + view["method"]
                    views.append(new)
                else:
                    kept.append(view)
            source += class_source("Derived", "Base", views, exports, rng, dropped)
            self.views = kept + views
            self.exports = base_exports + exports
        self.source = source
        self.directory = tempfile.mkdtemp(prefix="vmon_c22_")
        self.module_name = f"vmon_c22_{os.getpid()}_{next(COUNTER)}"    # never used twice: classes are cached by name
        self.path = os.path.join(self.directory, self.module_name + ".py")
        with open(self.path, "w", encoding="utf-8") as file:
            file.write(source)

    def __enter__(self):
        spec = importlib.util.spec_from_file_location(self.module_name, self.path)
        self.module = importlib.util.module_from_spec(spec)
        sys.modules[self.module_name] = self.module
        sys.dont_write_bytecode, before = True, sys.dont_write_bytecode
        spec.loader.exec_module(self.module)
        sys.dont_write_bytecode = before
        self.class_ = self.module.Derived if self.derived else self.module.Base
        self.calls = self.module.CALLS
        return self

    def __exit__(self, *_):
        sys.modules.pop(self.module_name, None)
        linecache.cache.pop(self.path, None)
        shutil.rmtree(self.directory, ignore_errors=True)


def selector_of(view):
    return view["method"] if view["selector"] is None else view["selector"]


def expected_settings(views):
    settings = [(selector_of(v), VIEW_TYPES[v["kind"]], v["method"], v["kind"] != "markdown_view", v["default"])
                for v in views]
    if not any(v["kind"] == "markdown_view" for v in views):
        settings.append(("Markdown", "markdown", "to_markdown", False, True))
    return settings


@scenario("C22", 60, 800)
def displays(rng, m):
    """ Generated classes (inheritance, overriding, any decorators): settings, selections and contained errors. """
    with GeneratedClass(rng) as generated:
        m.case(generated.source)
        settings = m.call("display-settings", generated.class_.display_settings)
        got = sorted([s.selector, s.type, s.method, s.serialize_data, s.load_by_default]
                     for s in settings if s.type != "tree")
        m.equal(got, sorted(map(list, expected_settings(generated.views))), "display-settings",
                "each decorated method is described once")
        m.check(sum(s.type == "tree" for s in settings) == 1, "structure-tree", "one structure tree")
        m.ev("settings", len(got))
        obj = generated.class_(2.5, name="obj")
        before = obj.to_dict()
        for view in rng.sample(generated.views, len(generated.views)):
            del generated.calls[:]
            display = m.call("display-from-selector", obj._display_from_selector, selector_of(view))
            m.equal(generated.calls, [view["method"]], "selected-method", "exactly the selected method is called")
            check_display(m, view, display.to_dict())
        if not any(v["kind"] == "markdown_view" for v in generated.views):
            display = m.call("display-from-selector", obj._display_from_selector, "Markdown").to_dict()
            m.check(display["traceback"] == "" and display["type_"] == "markdown", "default-markdown", "", display)
            m.equal(display["data"], inspect.cleandoc(obj.to_markdown()), "default-markdown", "default markdown view")
        m.refuses("unknown-display-selector", obj._display_from_selector, "no such selector", errors=(ValueError,))
        del generated.calls[:]
        every = m.call("displays", obj._displays)
        m.equal(sorted(generated.calls), sorted(v["method"] for v in generated.views), "displays-calls",
                "every view is computed once")
        m.equal(len(every), len(settings), "displays-count", "one display per setting")
        by_selector = dict(zip([s.selector for s in settings], every))
        for view in generated.views:
            check_display(m, view, by_selector[selector_of(view)])
        m.call("displays-json", json.dumps, every)
        m.same(obj.to_dict(), before, "displays-unchanged", "displays leave the object as it was")


def check_display(m, view, display):
    m.equal(display["type_"], VIEW_TYPES[view["kind"]], "display-type", "type of the display")
    if view["behaviour"] in ("error", "key-error", "custom-error"):
        m.check(f"view {view['value']} failed" in display["traceback"] and display["data"] is None, "contained-error",
                "the error is in the display's traceback", view, display)
        m.ev("contained errors")
    elif view["behaviour"] == "no-text":
        m.check(display["traceback"] and display["data"] is None, "contained-error", "not a text", view, display)
    elif view["behaviour"] == "unserializable":
        m.check("strange serialization" in display["traceback"] and display["data"] is None, "contained-error",
                "the serialization error is in the display's traceback", view, display)
        m.ev("contained errors")
    else:
        m.equal(display["traceback"], "", "no-traceback", f"working view {view['method']}")
        m.same(display["data"], view_data(view)[1], "display-data", "data of the display")
        m.ev("correct displays")


@scenario("C22", 40, 500)
def exports(rng, m):
    """ Generated classes: list of export formats, what each writes on disk, what the archive holds. """
    with GeneratedClass(rng) as generated, tempfile.TemporaryDirectory(prefix="vmon_c22_") as scratch:
        m.case(generated.source)
        obj = generated.class_(rng.choice([0.5, 3.]), name="obj")
        formats = m.call("export-formats", obj._export_formats)
        got = sorted([f.selector, f.extension, f.method_name, f.text] for f in formats)
        expected = [["json", "json", "save_to_stream", True], ["xlsx", "xlsx", "to_xlsx_stream", False],
                    ["docx", "docx", "to_docx_stream", False], ["zip", "zip", "to_zip_stream", False]]
        expected += [[e["selector"], e["extension"], e["method"], e["text"]] for e in generated.exports]
        m.equal(got, sorted(expected), "export-formats", "each export method is described once")
        m.ev("formats", len(got))
        for export in generated.exports:
            del generated.calls[:]
            stem = os.path.join(scratch, export["method"])
            given = stem + rng.choice(["", "." + export["extension"]])
            path = m.call("save-export", obj.save_export_to_file, export["selector"], given)
            m.equal(path, stem + "." + export["extension"], "export-path", "location of the file")
            m.equal(generated.calls, [export["method"]], "selected-export", "exactly the selected method is called")
            with open(path, "rb") as file:
                m.equal(file.read(), export["content"].encode(), "export-content", "content of the file")
        if generated.derived or rng.random() < .5:
            del generated.calls[:]
            path = m.call("save-export", obj.save_export_to_file, "zip", os.path.join(scratch, "all"))
            m.equal(sorted(generated.calls), sorted(e["method"] for e in generated.exports), "archive-calls", "")
            with zipfile.ZipFile(path) as archive:
                names = archive.namelist()
                contents = sorted((n.rpartition(".")[2], archive.read(n)) for n in names)
            m.equal(len(set(names)), len(names), "archive-names", "distinct names")
            m.equal(len(names), len(formats) - 1, "archive-size", "one file per export format")
            for export in generated.exports:
                key = (export["extension"], export["content"].encode())
                m.check(key in contents, "archive-content", "each export is in the archive", export, names)
                contents.remove(key)
        m.refuses("unknown-export", obj.save_export_to_file, "no such", os.path.join(scratch, "no"), errors=(ValueError,))
        m.check(not os.path.exists(os.path.join(scratch, "no")), "unknown-export", "nothing is written")


LEVELS = ["debug", "info", "warning", "error"]
CHECKS = [dcc.PassedCheck, dcc.CheckWarning, dcc.FailedCheck, dcc.BadType, dcc.GeometricInconsistance,
          dcc.NonSerializable, dcc.NonCopyable, dcc.NonDisplayable, dcc.BadStructure]


class DebugCheck(dcc.PassedCheck):
    """ A check of a user. """
    level = "debug"


CLASS_LEVEL = {c: "error" for c in CHECKS}
CLASS_LEVEL.update({dcc.PassedCheck: "info", dcc.CheckWarning: "warning", DebugCheck: "debug"})


class Checked(DessiaObject):
    """ Object with checks of its own, that depend on the level asked. """

    def __init__(self, results=None, levels=None, name: str = ""):
        self.results = results
        self.asked = []
        DessiaObject.__init__(self, name=name)

    def check_list(self, level: str = "error", check_platform: bool = False):
        self.asked.append(level)
        checks = [c for c in self.results if LEVELS.index(CLASS_LEVEL[type(c)]) >= LEVELS.index(level)]
        return dcc.CheckList(checks)


def make_checks(rng):
    return [rng.choice(CHECKS + [DebugCheck])(rng.choice(["", "m", "é", "a\nb", "x" * 50]) + str(i))
            for i in range(rng.choice([0, 1, 2, 5, 12]))]


@scenario("C22", 400, 8000)
def check_lists(rng, m):
    """ Lists of checks: order, levels, messages, sums, validity. """
    first, second = make_checks(rng), make_checks(rng)
    m.case([(type(c).__name__, c.message) for c in first + [dcc.PassedCheck("|")] + second])
    lists = [dcc.CheckList(list(first)), dcc.CheckList(list(second))]
    total = m.call("add-checks", lambda: lists[0] + lists[1])
    every = first + second
    for check_list, checks in zip(lists + [total], [first, second, every]):
        m.equal(len(check_list), len(checks), "check-count", "")
        m.check(all(check_list[i] is c for i, c in enumerate(checks)), "check-order", "")
        m.check(list(check_list.checks) == checks, "check-order", "")
        dict_ = m.call("check-dict", check_list.to_dict)
        m.same(dict_, {"checks": [{"level": CLASS_LEVEL[type(c)], "message": c.message, "object_class": type(c).__name__}
                                  for c in checks]}, "check-dict", "")
        text = repr(check_list)
        position = 0
        for check in checks:
            found = text.find(check.message, position)
            m.check(found >= 0, "check-text", "every check is printed, in order", text)
            position = found + len(check.message)
            m.check(CLASS_LEVEL[type(check)].upper() in repr(check) and check.message in repr(check), "check-text", "")
        for level in LEVELS:
            expected = [c for c in checks if LEVELS.index(CLASS_LEVEL[type(c)]) >= LEVELS.index(level)]
            above = m.call("above-level", check_list.checks_above_level, level=level)
            m.check(len(above) == len(expected) and all(a is b for a, b in zip(above, expected)), "above-level",
                    level, above, expected)
            if expected:
                m.refuses("raise-above-level", check_list.raise_if_above_level, level=level, errors=(ValueError,))
            else:
                m.call("raise-above-level", check_list.raise_if_above_level, level=level)
    for check in every:
        m.equal(bool(check), CLASS_LEVEL[type(check)] != "error", "check-truth", "a failed check is false")
    obj = Checked(every)
    for level in LEVELS:
        valid = m.call("is-valid", obj.is_valid, level=level)
        m.equal(valid, not any(LEVELS.index(CLASS_LEVEL[type(c)]) >= LEVELS.index(level) for c in every), "is-valid", level)
    m.equal(obj.is_valid(), not any(CLASS_LEVEL[type(c)] == "error" for c in every), "is-valid", "default level")
    m.check(len(first) + len(second) == len(total), "check-conservation", "")
    m.check(len(lists[0]) == len(first) and len(lists[1]) == len(second), "add-unchanged", "")
    m.ev("checks", len(every))


@scenario("C22", 200, 4000)
def type_checks(rng, m):
    """ Checks of the type of values. """
    value = rng.choice([0, 1, -5, True, 1.5, float("nan"), "", "text", None, [1], {"a": 1}, (1,), 1 + 2j, DessiaObject(name="a")])
    m.case(repr(value))
    for type_, function in ((int, dcc.is_int), (float, dcc.is_float), (str, dcc.is_str)):
        for level in LEVELS:
            for result in (function(value, level=level), dcc.type_check(value, type_, level=level)):
                expected = 1 if not isinstance(value, type_) or level == "info" else 0
                m.equal(len(result), expected, "type-check", f"{value!r} {type_} {level}")
                if expected:
                    m.equal(bool(result[0]), isinstance(value, type_), "type-check", f"{value!r} {type_} {level}")
                    m.check(str(value) in result[0].message, "type-check-message", "")
    for type_ in (list, dict, tuple, DessiaObject, object):
        result = dcc.type_check(value, type_)
        m.equal([bool(c) for c in result.checks], [] if isinstance(value, type_) else [False], "type-check", f"{type_}")


@scenario("C22", 30, 300)
def platform_checks(rng, m):
    """ check_platform reports failing displays instead of breaking, and is valid exactly if everything works. """
    with GeneratedClass(rng) as generated:
        m.case(generated.source)
        obj = generated.class_(1.25, name="n")
        result = m.call("check-platform", obj.check_platform)
        valid = m.call("is-valid", obj.is_valid)
        m.equal([bool(c) for c in result.checks], [True] * 5, "platform-checks", "a well behaved object is valid")
        m.check(valid, "platform-valid", "")


class Suspect(DessiaObject):
    """ Object with any of several faults. """

    _allowed_methods = ["work"]
    broken_displays = False

    def __init__(self, content: Dict[str, Any], faults: List[str], extra: int = 4, name: str = ""):
        self.content, self.faults, self.extra = content, faults, extra
        DessiaObject.__init__(self, name=name)

    def work(self, number: int = 3):
        """ Do something. """
        return number

    @property
    def method_schemas(self):
        if "schema" in self.faults:
            raise ValueError("no schema for you")
        if "schema-json" in self.faults:
            return {"work": {1, 2}}
        return super().method_schemas

    def to_dict(self, use_pointers: bool = True, memo=None, path: str = "#", id_method=True, id_memo=None, **kwargs):
        if "pointers" in self.faults and use_pointers:
            raise TypeError("no pointers for you")
        dict_ = super().to_dict(use_pointers=use_pointers, memo=memo, path=path, id_method=id_method, id_memo=id_memo)
        if "lost" in self.faults:
            dict_.pop("extra")
            dict_["extra"] = 5
        return dict_

    def copy(self, deep=True, memo=None):
        result = super().copy(deep=deep, memo=memo)
        if "copy" in self.faults:
            result.content = {**result.content, "one more": 1}
        return result

    @classmethod
    def display_settings(cls, **kwargs):
        if cls.broken_displays:
            raise ValueError("no display for you")
        return super().display_settings(**kwargs)

    @markdown_view("Raises")
    def raising(self) -> str:
        """ Fails when asked to. """
        if "contained" in self.faults:
            raise ValueError("contained")
        return "fine"

    @markdown_view("Odd")
    def odd(self):
        """ Not JSON when asked to. """
        return set() if "display-json" in self.faults else "fine"


@scenario("C22", 60, 2500, rule="objects with any combination of faults in serialization, copy, keys, displays and schemas: each of the five platform "
                                "checks fails exactly for its own faults, nothing is raised, and what displays contain is not a failure")
def platform_faults(rng, m):
    possible = ["lost", "copy", "display", "display-json", "schema", "schema-json", "contained", "pointers", "dot"]
    faults = [f for f in possible if rng.random() < rng.choice([.1, .4])]
    content = {rng.choice("abc"): rng.choice([1, 2.5, "text", None, [1, 2], {"k": True}]) for _ in range(rng.randint(0, 3))}
    if "dot" in faults:
        where = rng.choice([lambda c: c, lambda c: {"deep": c}, lambda c: {"list": [1, c]}, lambda c: {"list": [{"k": [c]}], "z": 1}])
        content.update(where({rng.choice(["a.b", ".", "end."]): 1}))
    m.case([sorted(faults), repr(content)])
    obj = Suspect(content, faults, name=rng.choice(["", "n"]))
    before = repr(vars(obj))
    Suspect.broken_displays = "display" in faults
    result = m.call("check-platform", obj.check_platform)
    expected = ["lost" not in faults, "copy" not in faults, "dot" not in faults, "display" not in faults and "display-json" not in faults,
                "schema" not in faults and "schema-json" not in faults]
    m.equal([bool(c) for c in result.checks], expected, "platform-faults", f"serialization, copy, BSON, displays, schemas: {faults}")
    m.equal([c.level for c in result.checks], ["info" if e else "error" for e in expected], "platform-levels")
    if "dot" in faults:
        m.check(any(k in result.checks[2].message for k in ("a.b", ".", "end.")), "platform-hint", "", result.checks[2].message)
    if "schema" in faults:
        m.check("no schema for you" in result.checks[4].message, "platform-hint", "", result.checks[4].message)
    if all(expected):
        m.call("raise-if-above", obj._check_platform)
    else:
        m.refuses("raise-if-above", obj._check_platform, errors=(ValueError,))
    m.equal(repr(vars(obj)), before, "platform-check-alters")
    m.ev("faults:" + str(len(faults)))


class Node(DessiaObject):
    """ A node of graphs. """

    def __init__(self, x: int, name: str = ""):
        self.x = x
        DessiaObject.__init__(self, name=name)


def make_graph(rng):
    directed = rng.random() < .6
    graph = nx.DiGraph(name=rng.choice(["", "g"])) if directed else nx.Graph(name=rng.choice(["", "g"]))
    kind = rng.choice(["int", "str", "object"])
    nodes = []
    for index in range(rng.choice([0, 1, 2, 3, 6, 10])):
        node = {"int": index * 3, "str": "n" * (index + 1), "object": Node(index)}[kind]
        attributes = {}
        draw = rng.random()
        if draw < .3:
            attributes["name"] = f"name{index}"
        elif draw < .45:
            attributes.update(name=f"name{index}", label=f"label{index}")
        elif draw < .6:
            attributes["label"] = f"label{index}"
        if rng.random() < .3:
            attributes["shape"] = "box"
        if rng.random() < .3:
            attributes["color"] = f"#00000{index % 10}"
        graph.add_node(node, **attributes)
        nodes.append((node, attributes))
    for _ in range(rng.randint(0, 15)):
        if nodes:
            edge = [rng.choice(nodes)[0], rng.choice(nodes)[0]]
            attributes = {}
            if rng.random() < .3:
                attributes["color"] = rng.choice(["red", "blue"])
            if rng.random() < .3:
                attributes["head_type"] = "circle"
            graph.add_edge(*edge, **attributes)
    return graph, nodes, directed


@scenario("C22", 100, 2000)
def graph_displays(rng, m):
    """ Graphs given to the viewer keep every node and edge. """
    graph, nodes, directed = make_graph(rng)
    m.case([str(type(graph)), len(nodes), [str(n) for n in nodes], [str(e) for e in graph.edges(data=True)]])
    data = m.call("graph-data", networkx_to_visjs_data, graph)
    m.equal([n["id"] for n in data["nodes"]], list(range(len(nodes))), "graph-nodes", "each node once")
    for (node, attributes), shown in zip(nodes, data["nodes"]):
        if "name" in attributes or "label" in attributes:
            m.equal(shown["label"], attributes.get("name", "") + attributes.get("label", ""), "node-label", "")
        elif isinstance(node, (int, str)):
            m.equal(shown["title"], str(node), "node-title", "")
        m.equal(shown.get("color"), attributes.get("color"), "node-color", "")
        m.equal(shown["shape"], attributes.get("shape", "circular"), "node-shape", "")
    order = [n for n, _ in nodes]
    position = {id(n) if kind_object(n) else n: i for i, n in enumerate(order)}
    expected = []
    for start, end, attributes in graph.edges(data=True):
        pair = [position[id(n) if kind_object(n) else n] for n in (start, end)]
        arrows = None
        if directed:
            arrows = {"to": {"enabled": True, "type": attributes["head_type"]}} if "head_type" in attributes else "to"
        expected.append((pair, arrows, {"color": attributes["color"]} if "color" in attributes else None))
    got = [([e["from"], e["to"]], e.get("arrows"), e.get("color")) for e in data["edges"]]
    m.equal(sorted(got, key=repr), sorted(expected, key=repr), "graph-edges", "each edge once")
    m.call("graph-json", json.dumps, data, default=float)
    m.ev("edges", len(got))


def kind_object(node):
    return isinstance(node, DessiaObject)


@scenario("C22", 100, 2000)
def settings_values(rng, m):
    """ Display settings: dict round trip, equality, composition. """
    def draw():
        return {"selector": rng.choice(["a", "b", None]), "type_": rng.choice(["plot_data", "markdown"]),
                "method": rng.choice(["m", "n"]), "arguments": rng.choice([None, {}, {"reference_path": "#/a", "block_index": 2}]),
                "serialize_data": rng.random() < .5, "load_by_default": rng.random() < .5}
    first, second = draw(), draw()
    if rng.random() < .5:
        key = rng.choice(list(first))
        second = {**first, key: second[key]}
    m.case([first, second])
    one, two = DisplaySetting(**first), DisplaySetting(**second)
    same = all(first[k] == second[k] for k in first if k != "arguments")
    m.equal(one == two, same, "setting-equality", f"{first} {second}")
    m.equal(two == one, same, "setting-equality", f"{first} {second}")
    if same:
        m.equal(hash(one), hash(two), "setting-hash", "")
    m.check(one != "a", "setting-equality", "")
    back = m.call("setting-dict", lambda: DisplaySetting.dict_to_object(json.loads(json.dumps(one.to_dict()))))
    m.same(back.to_dict(), one.to_dict(), "setting-dict", "")
    m.equal(back, one, "setting-dict", "")
    m.equal(one.to_dict()["arguments"], first["arguments"] or {}, "setting-dict", "")
    m.equal(back.reference_path, (first["arguments"] or {}).get("reference_path", "#"), "reference-path", "")
    back.compose("part")
    m.equal(back.method, "part." + first["method"], "compose", "")


class Shown(DessiaObject):
    """ Object shown by the display blocks of workflows. """

    def __init__(self, value: int, name: str = ""):
        self.value = value
        DessiaObject.__init__(self, name=name)

    @plot_data_view("2D")
    def draw(self, reference_path: str = "#"):
        SHOWN.append(("2D", self.value))
        return [{"value": self.value, "path": reference_path}]

    @plot_data_view("2D bis", load_by_default=True)
    def draw_twice(self, **kwargs):
        SHOWN.append(("2D bis", self.value))
        return [{"twice": self.value * 2, "path": kwargs["reference_path"]}]

    @markdown_view("MD")
    def text(self):
        SHOWN.append(("MD", self.value))
        return f"""
                # {self.value}
                """

    @cad_view("CAD")
    def mesh(self, reference_path: str = "#"):
        SHOWN.append(("CAD", self.value))
        if self.value < 0:
            raise ValueError(f"negative {self.value}")
        return {"meshes": [self.value]}

    def grown(self, increment: int) -> "Shown":
        return Shown(self.value + increment)


SHOWN = []


def shown_data(view, value, path):
    if view == "2D":
        return [{"value": value, "path": path}]
    if view == "2D bis":
        return [{"twice": value * 2, "path": path}]
    if view == "MD":
        return f"# {value}"
    return {"meshes": [value]}


DISPLAY_TYPES = {"2D": "plot_data", "2D bis": "plot_data", "MD": "markdown", "CAD": "babylon_data"}


@scenario("C22", 60, 1200)
def workflow_displays(rng, m):
    """ Display blocks of workflows: each is described once, shows the value it is linked to, errors are contained. """
    sources = []        # (blocks, output variable or None for a workflow input, value shown)
    blocks, pipes = [], []
    for index in range(rng.randint(1, 3)):
        value = rng.choice([-7, -1, 0, 3, 12]) + 100 * index
        make = dwb.InstantiateModel(Shown, name=f"make{index}")
        blocks.append(make)
        source, given = make, {make: {"value": value, "name": f"s{index}"}}
        if rng.random() < .5:
            increment = rng.randint(1, 9)
            grow = dwb.ModelMethod(MethodType(Shown, "grown"), name=f"grow{index}")
            blocks.append(grow)
            pipes.append(Pipe(make.outputs[0], grow.inputs[0]))
            given[grow] = {"increment": increment}
            source, value = grow, value + increment
        sources.append((source.outputs[0], value, given))
    shown = []
    for index in range(rng.randint(1, 5)):
        view = rng.choice(list(DISPLAY_TYPES))
        class_, selector = {"plot_data": (dwb.PlotData, PlotDataType), "markdown": (dwb.Markdown, MarkdownType),
                            "babylon_data": (dwb.CadView, CadViewType)}[DISPLAY_TYPES[view]]
        default = rng.random() < .4
        block = class_(selector(class_=Shown, name=view), name=rng.choice(["", f"d{index}"]), load_by_default=default)
        blocks.insert(rng.randint(0, len(blocks)), block)
        if rng.random() < .2:
            shown.append((block, view, default, None, rng.choice([-3, 0, 40])))
        else:
            variable, value, _ = rng.choice(sources)
            pipe = Pipe(variable, block.inputs[0])
            pipes.insert(rng.randint(0, len(pipes)), pipe)
            shown.append((block, view, default, pipe, value))
    workflow = m.call("workflow", Workflow, blocks, pipes, output=sources[0][0])
    values = {}
    for index, variable in enumerate(workflow.inputs):
        for _, _, given in sources:
            for block, arguments in given.items():
                for input_ in block.inputs:
                    if input_ is variable:
                        values[index] = arguments[input_.name]
        for block, _, _, pipe, value in shown:
            if pipe is None and block.inputs[0] is variable:
                values[index] = Shown(value)
    m.case([[type(b).__name__ for b in blocks], [(v, d, None if p is None else pipes.index(p), x) for _, v, d, p, x in shown], values])
    run = m.call("run", workflow.run, values)
    state = m.call("start", workflow.start_run, values)
    for case, element in (("run", run), ("unrun state", state), ("state", state)):
        if case == "state":
            m.call("continue", state.continue_run)
        settings = m.call("workflow-settings", element.display_settings)
        m.check(len({s.selector for s in settings}) == len(settings), "workflow-selectors", "selectors are distinct",
                [s.selector for s in settings])
        by_block = {s.arguments["block_index"]: s for s in settings if "block_index" in s.arguments}
        m.equal(len(by_block), len(shown), "workflow-settings", "one setting per display block")
        displays_ = m.call("workflow-displays", element._displays)
        m.equal(len(displays_), len(settings), "workflow-displays", "one display per setting")
        for block, view, default, pipe, value in shown:
            position = [i for i, b in enumerate(workflow.blocks) if b is block][0]
            setting = by_block[position]
            m.equal(setting.type, DISPLAY_TYPES[view], "workflow-display-type", "")
            m.equal(setting.load_by_default, default, "workflow-display-default", "")
            if pipe is None:
                path = f"#/input_values/{[i for i, v in enumerate(workflow.inputs) if v is block.inputs[0]][0]}"
            else:
                path = f"#/values/{[i for i, p in enumerate(workflow.pipes) if p is pipe][0]}"
            del SHOWN[:]
            display = m.call("workflow-display", element._display_from_selector, setting.selector).to_dict()
            again = displays_[settings.index(setting)]
            for one in (display, again):
                if case == "unrun state" and pipe is not None and one["traceback"]:
                    # Blocks the output needs are not evaluated for a display
                    m.check(one["data"] is None, "unreached-display", "", one)
                elif view == "CAD" and value < 0:
                    m.check(f"negative {value}" in one["traceback"] and one["data"] is None, "workflow-contained", "", one)
                    m.ev("contained errors")
                else:
                    m.equal(one["traceback"], "", "workflow-no-traceback", view)
                    m.same(one["data"], shown_data(view, value, path), "workflow-display-data", f"{case} {view} of {value}")
                    m.equal(one["reference_path"], path, "workflow-reference-path", "")
                    m.ev("workflow displays")
            if case == "run":
                m.check(set(SHOWN) == {(view, value)}, "workflow-shown", "only the selected view is computed", SHOWN)
                found = m.call("get-path", run._get_from_path, path)
                m.equal(found.value, value, "reference-path-object", "the reference path leads to the shown object")


class Holder(DessiaObject):
    """ Shown and exported at the end of secondary branches. """

    def __init__(self, first: int, second: int = 0, name: str = ""):
        self.first, self.second = first, second
        DessiaObject.__init__(self, name=name)

    def write(self, stream: StringFile):
        """ Text export. """
        stream.write(f"{self.first} {self.second}")
        return stream

    def write_bytes(self, stream: BinaryFile):
        """ Binary export. """
        stream.write(f"{self.first};{self.second}".encode())
        return stream

    @plot_data_view("P")
    def plot(self, reference_path: str = "#"):
        return [[self.first, self.second]]

    @markdown_view("M")
    def text(self):
        return f"{self.first}, {self.second}"


@scenario("C22", 60, 1200)
def branches(rng, m):
    """ Display and export blocks at the end of branches the output does not need: computed on demand from the run's values. """
    blocks, pipes, values, free = [], [], [], {}      # values: (variable, value, secondary)

    def feed(block, pool, chance):
        taken = []
        for variable in block.inputs:
            if pool and rng.random() < chance:
                source, value, _ = rng.choice(pool)
                pipes.append(Pipe(source, variable))
            else:
                value = free[variable] = rng.choice([0, 1, -2, 30, 400])
            taken.append(value)
        return taken

    for index in range(rng.randint(1, 4)):
        block = dwb.Sum(rng.randint(1, 3), name=f"main {index}")
        total = sum(feed(block, values, .7))
        blocks.append(block)
        values.append((block.outputs[0], total, False))
    last = values[-1][0]
    # what the output needs: the blocks that lead to it
    for index in range(rng.randint(0, 4)):
        block = dwb.Sum(rng.randint(1, 3), name=f"side {index}")
        total = sum(feed(block, values, .8))
        blocks.append(block)
        values.append((block.outputs[0], total, True))
    ends = []
    for index in range(rng.randint(1, 3)):
        holder = dwb.InstantiateModel(Holder, name=f"holder {index}")
        first, second = [], []
        for variable, store in zip(holder.inputs[:2], (first, second)):
            source, value, _ = rng.choice(values)
            if rng.random() < .9:
                pipes.append(Pipe(source, variable))
            else:
                value = free[variable] = 77
            store.append(value)
        free[holder.inputs[2]] = "h"
        blocks.append(holder)
        for position in range(rng.randint(1, 2)):
            kind = rng.choice(["text", "binary", "plot", "markdown"])
            filename = rng.choice([f"file{index}{position}"] * 3 + ["same", "with.dot"])
            if kind in ("text", "binary"):
                block = dwb.Export(MethodType(Holder, "write" if kind == "text" else "write_bytes"), text=kind == "text",
                                   extension="txt" if kind == "text" else "bin", filename=filename,
                                   name=f"export {index} {position}")
                free[block.inputs[1]] = filename
            elif kind == "plot":
                block = dwb.PlotData(PlotDataType(class_=Holder, name="P"), name=f"plot {index} {position}")
            else:
                block = dwb.Markdown(MarkdownType(class_=Holder, name="M"), name=f"markdown {index} {position}")
            pipes.append(Pipe(holder.outputs[0], block.inputs[0]))
            blocks.append(block)
            ends.append((block, kind, first[0], second[0], filename))
    files = [end for end in ends if end[1] in ("text", "binary")]
    packed = rng.sample(files, rng.randint(1, len(files))) if files and rng.random() < .5 else []
    archive = None
    if packed:
        archive = dwb.Archive(len(packed), filename="pack", name="archive end")
        free[archive.inputs[-1]] = "packed"
        for (block, *_), variable in zip(packed, archive.inputs):
            pipes.append(Pipe(block.outputs[0], variable))
        blocks.append(archive)
    expected_output = next(v for variable, v, _ in values if variable is last)
    rng.shuffle(blocks)
    rng.shuffle(pipes)
    workflow = m.call("workflow", Workflow, blocks, pipes, output=last, name="branches")
    given = {}
    for index, variable in enumerate(workflow.inputs):
        for key, value in free.items():
            if key is variable:
                given[index] = value
    m.case([[b.name for b in blocks], [(p.input_variable.name, p.output_variable.name) for p in pipes], given])
    run = m.call("run", workflow.run, dict(given))
    m.equal(run.output_value, expected_output, "branch-output", "")
    state = m.call("start", workflow.start_run, dict(given))
    m.call("continue", state.continue_run)
    restored = m.call("restore", WorkflowRun.dict_to_object, json.loads(json.dumps(run.to_dict())))
    elements = [("run", run), ("state", state), ("restored", restored), ("run again", run)]
    for case, element in elements:
        order = list(ends)
        rng.shuffle(order)
        formats = m.call("formats", element._export_formats)
        settings = m.call("settings", element.display_settings)
        for block, kind, first, second, filename in order:
            position = [i for i, b in enumerate(workflow.blocks) if b is block][0]
            if kind in ("text", "binary"):
                stream = StringFile() if kind == "text" else BinaryFile()
                m.call(f"branch-export-{case}", element.export, stream, position)
                content = stream.getvalue()
                m.equal(content, f"{first} {second}" if kind == "text" else f"{first};{second}".encode(), "branch-export", case)
                m.equal(stream.filename, filename + (".txt" if kind == "text" else ".bin"), "branch-filename", case)
                found = [f for f in formats if (f.args or {}).get("block_index") == position]
                m.equal([(f.text, f.extension) for f in found], [(kind == "text", "txt" if kind == "text" else "bin")],
                        "branch-format", case)
            else:
                setting = [s for s in settings if s.arguments.get("block_index") == position]
                m.equal(len(setting), 1, "branch-setting", case)
                display = m.call("branch-display", element._display_from_selector, setting[0].selector).to_dict()
                m.equal(display["traceback"], "", "branch-traceback", case)
                m.equal(display["data"], [[first, second]] if kind == "plot" else f"{first}, {second}", "branch-display", case)
            m.ev("branch:" + kind)
        if archive is not None:
            position = [i for i, b in enumerate(workflow.blocks) if b is archive][0]
            stream = BinaryFile()
            m.call(f"archive-export-{case}", element.export, stream, position)
            m.equal(stream.filename, "packed.zip", "archive-filename", case)
            compare_archive(m, archived(stream), packed, case)
            m.ev("branch:archive")
        if element is not state and files:
            stream = BinaryFile()
            m.call(f"all-exports-{case}", element.to_zip_stream, stream)
            compare_archive(m, archived(stream), files, case)
            m.ev("branch:all")
        if files:
            with tempfile.TemporaryDirectory() as scratch:
                end = rng.choice(files)
                position = [i for i, b in enumerate(workflow.blocks) if b is end[0]][0]
                found = [f for f in formats if (f.args or {}).get("block_index") == position][0]
                stem = os.path.join(scratch, "out")
                path = m.call(f"save-export-{case}", element.save_export_to_file, found.selector, stem)
                m.equal(path, stem + (".txt" if end[1] == "text" else ".bin"), "save-export-path", case)
                with open(path, "rb") as file:
                    m.equal(file.read(), file_of(end)[1], "save-export-content", case)
    m.equal(run.output_value, expected_output, "branch-output", "")


def archived(stream):
    """ Names and contents of the files of an archive. """
    with zipfile.ZipFile(io.BytesIO(bytes(stream.getbuffer()))) as archive:
        return sorted((info.filename, archive.open(info).read()) for info in archive.infolist())


def compare_archive(m, got, ends, case):
    """ An archive holds each file, under its own name as far as no other one has it. """
    expected = [file_of(end) for end in ends]
    m.equal(sorted(content for _, content in got), sorted(content for _, content in expected), "archive-contents", case)
    names = [name for name, _ in got]
    m.equal(len(set(names)), len(ends), "archive-names", "two files of an archive have different names")
    for name in {name for name, _ in expected}:
        m.check(name in names, "archive-names", "files are named after their export block", name, names)
    for name, content in expected:
        if [n for n, _ in expected].count(name) == 1:
            m.equal(dict(got)[name], content, "archive-files", case)


def file_of(end):
    """ Name and content of what an export block writes. """
    _, kind, first, second, filename = end
    if kind == "text":
        return filename + ".txt", f"{first} {second}".encode()
    return filename + ".bin", f"{first};{second}".encode()


@scenario("C22", 60, 1500, rule="workflows, their states after any number of blocks (possibly a failed one) and their runs, restored or not: the "
                                "documentation names exactly the blocks evaluated so far, every general export works and holds the object")
def workflow_documents(rng, m):
    """ Documentation and general exports of workflows, states and runs. """
    count = rng.randint(1, 5)
    fails = rng.choice([None, None, rng.randrange(count)])
    blocks = [dwb.ModelMethod(MethodType(Box, "scaled"), name=f"block{i}end") for i in range(count)]
    pipes = [Pipe(a.outputs[0], b.inputs[0]) for a, b in zip(blocks, blocks[1:])]
    order = list(blocks)
    rng.shuffle(order)
    workflow = m.call("workflow", Workflow, order, pipes, output=blocks[-1].outputs[0], name=rng.choice(["", "wörk", "work"]),
                      documentation=rng.choice(["", "# Title\n\nText"]), description="d")
    given = {workflow.input_index(blocks[0].inputs[0]): Box(rng.choice([0, 3]), [1], name="first")}
    for index, block in enumerate(blocks):
        given[workflow.input_index(block.inputs[1])] = None if index == fails else rng.choice([1, 2, -1])
    state = m.call("start", workflow.start_run, dict(given), name="state name")
    steps = rng.randint(0, count)
    evaluated = []
    for index in range(steps):
        if index == fails:
            m.refuses("failing-block", state.evaluate_next_block, errors=(Exception,))
            break
        m.call("next", state.evaluate_next_block)
        evaluated.append(index)
    tried = evaluated + ([fails] if fails is not None and steps > fails else [])
    m.case([count, fails, steps, [b.name for b in order]])
    elements = [("state", state)]
    if rng.random() < .6:
        elements.append(("restored state", m.call("restore", type(state).dict_to_object, json.loads(json.dumps(state.to_dict())))))
    elif rng.random() < .5:
        elements.append(("copied state", m.call("copy", state.copy)))
    if len(evaluated) == count:
        run = m.call("to-run", state.to_workflow_run)
        elements.append(("run", run))
        elements.append(("restored run", m.call("restore", WorkflowRun.dict_to_object, json.loads(json.dumps(run.to_dict())))))
    for case, element in elements:
        text = m.call(f"documentation-{case}", element.to_markdown)
        rows = [[cell.strip() for cell in line.strip("| ").split("|")][0] for line in text.split("\n") if "|" in line]
        named = [row for row in rows if row.startswith("block") and row.endswith("end")]
        m.equal(sorted(named), sorted(f"block{i}end" for i in tried), "documented-blocks", case)
        if "state" in case:
            m.check(f"progress {100 * len(evaluated) / count}%" in text or f"progress {100 * (len(evaluated) / count)}%" in text,
                    "documented-progress", case, text[:200])
            if not case.startswith("copied"):
                m.check("state name" in text, "documented-name", case)
        m.check(workflow.name in text, "documented-workflow", case)
        m.ev(f"documented:{case}")
    m.equal(workflow.to_markdown(), workflow.documentation, "documented-workflow", "")
    case, element = rng.choice(elements + [("workflow", workflow)])
    with tempfile.TemporaryDirectory() as scratch:
        formats = m.call("formats", element._export_formats)
        expected = ["docx", "json", "xlsx", "zip"] + (["py"] if "state" not in case else [])
        m.equal(sorted(f.selector for f in formats), sorted(expected), "general-exports", case)
        format_ = rng.choice(formats)
        path = m.call(f"export-{format_.selector}-{case}", element.save_export_to_file, format_.selector, os.path.join(scratch, "out"))
        m.equal(path, os.path.join(scratch, "out." + format_.extension), "general-path", case)
        if format_.selector == "json":
            with open(path, encoding="utf-8") as file:
                m.check(DessiaObject.dict_to_object(json.load(file)) == element, "general-json", case)
        elif format_.selector == "py":
            with open(path, encoding="utf-8") as file:
                compile(file.read(), "script", "exec")
        elif format_.selector == "xlsx":
            m.check(len(openpyxl.load_workbook(path).sheetnames) >= 1, "general-xlsx", case)
        elif format_.selector == "docx":
            document = docx.Document(path)
            m.check(len(document.paragraphs) + len(document.tables) > 0 or not element.to_markdown(), "general-docx", case)
        else:
            with zipfile.ZipFile(path) as archive:
                names = archive.namelist()
                m.check(archive.testzip() is None, "general-zip", case)
                inside = {name.rpartition(".")[2] for name in names}
                kept = {"json", "xlsx", "docx"} if "run" not in case else set()
                m.check(kept <= inside, "general-zip", case, names)
        m.ev(f"exported:{format_.selector}")


def spoiled(rng, value, fault):
    """ The value with the fault somewhere inside. """
    if isinstance(value, dict) and (not value or rng.random() < .5 or fault[0] == "key" and not any(isinstance(v, (dict, list)) for v in value.values())):
        items = list(value.items())
        items.insert(rng.randint(0, len(items)), (fault[1], rng.choice([1, "v", None])) if fault[0] == "key" else ("bad", fault[1]))
        return dict(items)
    if isinstance(value, list) and fault[0] == "value" and (not value or rng.random() < .5):
        return value[:1] + [fault[1]] + value[1:]
    places = [k for k, v in (value.items() if isinstance(value, dict) else enumerate(value)) if isinstance(v, (dict, list))]
    out = dict(value) if isinstance(value, dict) else list(value)
    if places:
        place = rng.choice(places)
        out[place] = spoiled(rng, out[place], fault)
    elif fault[0] == "value":
        if isinstance(out, dict):
            out["bad"] = fault[1]
        else:
            out.append(fault[1])
    else:
        out.append({"k": 0, fault[1]: 1})
    return out


@scenario("C22", 800, 15000, rule="validity of documents for the database: nested plain data is valid, and a key or value of a forbidden kind anywhere "
                                  "inside makes it invalid, with a hint")
def document_validity(rng, m):
    def plain_value(depth):
        if not depth or rng.random() < .2:
            return rng.choice([0, 1.5, "", "a.b", None, True, [], {}, -3])
        if rng.random() < .5:
            return [plain_value(depth - 1) for _ in range(rng.choice([0, 1, 3]))]
        return {rng.choice(["", "a", "b", "1", "a b", "é", "$", "a/b", "_"]): plain_value(depth - 1) for _ in range(rng.choice([0, 1, 3]))}

    value = rng.choice([lambda: [plain_value(2), plain_value(3)], lambda: {"top": plain_value(3), "next": plain_value(2)}])()
    valid, hint = m.call("is_bson_valid", is_bson_valid, value)
    m.check(valid is True and hint == "", "valid-document", hint, value)
    m.check(is_jsonable(value), "jsonable-document", "", value)
    fault = rng.choice([("key", "a.b"), ("key", "."), ("key", "x."), ("key", 2.5), ("key", 3), ("key", (1, 2)), ("key", None), ("value", object()),
                        ("value", {1, 2}), ("value", b"x"), ("value", 1j), ("value", int)])
    bad = spoiled(rng, value, fault)
    m.case((repr(value), repr(fault[1])[:12], repr(bad)[:300]))
    m.ev(f"{fault[0]}:{type(fault[1]).__name__}")
    valid, hint = m.call("is_bson_valid", is_bson_valid, bad)
    m.check(valid is False and bool(hint), "invalid-document", repr(fault[1]), bad)
    valid, hint = m.call("is_bson_valid", is_bson_valid, bad, allow_nonstring_keys=True)
    m.equal(valid, fault == ("key", 3), "invalid-document-with-keys", repr(fault[1]))
    m.check(valid or bool(hint), "invalid-document-hint", repr(fault[1]), bad)


@scenario("C22", 12, 300, rule="3D objects offer the generic exports and the 3D ones, each writes the file of its kind; views that can be drawn give a "
                               "picture, the others and unknown ones are refused")
def solids(rng, m):
    solid = Solid(rng.randint(0, 9), name=rng.choice(["", "s"]))
    m.case((solid.size, solid.name))
    formats = {f.selector: (f.extension, f.text, f.method_name) for f in m.call("formats", solid._export_formats)}
    generic = [f.selector for f in DessiaObject._export_formats(solid)]
    m.equal(sorted(formats), sorted(generic + ["step", "stl", "html"]), "solid-formats")
    m.equal(len(m.call("formats", solid._export_formats)), len(formats), "solid-formats")
    scratch = tempfile.mkdtemp(prefix="vmon_c22_")
    try:
        for selector, content in (("step", f"step {solid.size}"), ("stl", f"stl {solid.size}"), ("html", f"html é {solid.size}")):
            extension, text, _ = formats[selector]
            m.equal((extension, text), (selector, selector != "stl"), "solid-format", selector)
            path = os.path.join(scratch, rng.choice(["a", f"b.{selector}", "c d"]))
            where = m.call("export", solid.save_export_to_file, selector, path)
            m.equal(where, path if path.endswith(f".{selector}") else f"{path}.{selector}", "solid-path")
            with open(where, "rb") as file:
                m.equal(file.read().decode(), content, "solid-content", selector)
        m.equal(sorted(os.listdir(scratch)), sorted(set(os.listdir(scratch))), "solid-files")
        m.refuses("solid-unknown", solid.save_export_to_file, rng.choice(["STEP", "obj", ""]), os.path.join(scratch, "x"), errors=(ValueError,))
    finally:
        shutil.rmtree(scratch)
    stream = io.BytesIO()
    DRAWN.clear()
    m.call("picture", solid.picture, stream, "Curve")
    m.equal(stream.tell(), 0, "picture-rewound")
    m.equal(stream.read().decode(), f"png {[solid.size, 1, 2]} False", "picture-content")
    m.equal(len(DRAWN), 1, "picture-drawn-once")
    m.check(m.call("mpl_plot", solid.mpl_plot, "Curve") is DRAWN[-1], "plot")
    for selector in ("Raw", "Words"):
        m.refuses("picture-refused", rng.choice([solid.mpl_plot, lambda s: solid.picture(io.BytesIO(), s)]), selector, errors=(NotImplementedError,))
    m.refuses("picture-unknown", solid.mpl_plot, rng.choice(["curve", "", "Nope"]))
