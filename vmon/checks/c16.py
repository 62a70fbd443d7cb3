""" C16: schemas describe every typed signature faithfully; annotations survive being written as text. """
import inspect
import json
import typing
from typing import Any, Dict, Iterator, List, Literal, Optional, Tuple, Type, Union, get_args, get_origin

from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance, Mass, Measure, Time
from dessia_common.schemas.core import (ClassSchema, MethodSchema, Schema, SchemaAttribute, deserialize_annotation, extract_args,
                                        get_schema, serialize_annotation)
from dessia_common.typings import (AttributeType, CadViewType, ClassAttributeType, ClassMethodType, InstanceOf, KeyOf, MarkdownType,
                                   MethodType, PlotDataType)

from vmon.core import scenario
from vmon.models import Leaf, StandaloneLeaf, Pair, StandalonePair


class Plain(DessiaObject):
    """ Third embedded class, that refers to itself. """

    def __init__(self, values: List[int] = None, other: 'Plain' = None, name: str = ""):
        self.values = values
        self.other = other
        DessiaObject.__init__(self, name=name)



BUILTINS = [int, float, str, bool]
MEASURES = [Distance, Mass, Time]
EMBEDDED = [Leaf, Pair, Plain]
STANDALONE = [StandaloneLeaf, StandalonePair]
CLASSES = EMBEDDED + STANDALONE
FILES = [StringFile, BinaryFile]
MEMBERS = [MethodType, ClassMethodType, AttributeType, ClassAttributeType]
VIEWS = [CadViewType, PlotDataType, MarkdownType]
NONE = type(None)
NOTHING = object()
WORDS = ["red", "a b", "é", "x, y", "it's", 'say "hi"', "[a]", "", "b]", "\\", "a  b", "1", "None", "..."]
JSON_TYPES = {int: "number", float: "number", str: "string", bool: "boolean"}


def path_of(class_):
    return f"{class_.__module__}.{class_.__name__}"


def parts(annotation):
    """ (annotation, origin, arguments) without the None alternatives that schemas leave out, in the order of the annotation. """
    origin, args = get_origin(annotation), get_args(annotation)
    if origin is Union:
        args = tuple(a for a in args if a is not NONE)
        if len(args) == 1:
            return parts(args[0])
    return annotation, origin, args


def plain(annotation):
    """ The annotation without None alternatives (the order of its unions may change: typing caches them). """
    annotation, origin, args = parts(annotation)
    if origin is Union:
        return Union[tuple(plain(a) for a in args)]
    if origin is list:
        return List[plain(args[0])]
    if origin is tuple:
        return Tuple[tuple(a if a is Ellipsis else plain(a) for a in args)]
    if origin is dict:
        return Dict[tuple(plain(a) for a in args)]
    if inspect.isclass(origin) and origin.__name__ == "Iterator":
        return Iterator[plain(args[0])]
    return annotation


class Annotations:
    """ Random annotations of the supported grammar. `form`: only those that a form can show. """

    def __init__(self, rng, form=True):
        self.rng, self.form = rng, form

    def leaf(self):
        rng = self.rng
        kind = rng.choice(["builtin", "builtin", "measure", "class", "class", "union", "instance", "literal", "any", "class_", "member", "view",
                           "file"])
        if kind == "builtin":
            return rng.choice(BUILTINS)
        if kind == "measure":
            return rng.choice(MEASURES)
        if kind == "class":
            return rng.choice(CLASSES)
        if kind == "union":
            pool = rng.choice([EMBEDDED, STANDALONE, CLASSES] if not self.form else [EMBEDDED, STANDALONE])
            chosen = tuple(rng.sample(pool, rng.randint(2, len(pool))))
            return Union[chosen + (None,)] if rng.random() < .2 else Union[chosen]
        if kind == "instance":
            return InstanceOf[rng.choice(CLASSES + [DessiaObject])]
        if kind == "literal":
            words = tuple(rng.sample(WORDS, rng.randint(1, 4)))
            return KeyOf[dict.fromkeys(words)] if rng.random() < .3 else Literal[words]
        if kind == "any":
            return Any
        if kind == "class_":
            return Type[rng.choice(CLASSES)]
        if kind == "member":
            return rng.choice(MEMBERS)[rng.choice(CLASSES + [Type])]
        if kind == "view":
            return rng.choice(VIEWS)[rng.choice(CLASSES)]
        return rng.choice(FILES)

    def make(self, depth=2):
        rng = self.rng
        kind = rng.choice(["leaf", "leaf", "leaf", "list", "tuple", "many", "dict", "optional"]) if depth else "leaf"
        if kind == "leaf":
            return self.leaf()
        if kind == "list":
            inner = self.make(depth - 1)
            return Iterator[inner] if not self.form and rng.random() < .2 else List[inner]
        if kind == "tuple":
            return Tuple[tuple(self.make(depth - 1) for _ in range(rng.randint(1, 4)))]
        if kind == "many":
            return Tuple[self.make(depth - 1), ...]
        if kind == "dict":
            return Dict[str, rng.choice(BUILTINS)] if self.form or rng.random() < .5 else Dict[rng.choice(BUILTINS), self.make(depth - 1)]
        inner = self.make(depth - 1)
        return Optional[inner] if rng.random() < .7 else Union[None, inner]


def text_of(annotation):
    """ The documented text of an annotation. """
    annotation, origin, args = parts(annotation)
    if annotation in BUILTINS:
        return annotation.__name__
    if annotation is Any:
        return "typing.Any"
    if annotation is Type:
        return "Type"
    if origin is None:
        return path_of(annotation)
    if origin is Literal:
        return "Literal[" + ", ".join(repr(a) for a in args) + "]"
    if origin is Union:
        head = "Union"
    else:
        head = {"list": "List", "tuple": "Tuple", "dict": "Dict", "type": "Type"}.get(origin.__name__, origin.__name__)
    return f"{head}[{', '.join('...' if a is Ellipsis else text_of(a) for a in args)}]"


def has_file(annotation):
    annotation, _, args = parts(annotation)
    return annotation in FILES or any(has_file(a) for a in args if a is not Ellipsis and not isinstance(a, str))


def showable(annotation):
    """ Whether `expected` describes it: iterators have no form. """
    annotation, origin, args = parts(annotation)
    if inspect.isclass(origin) and origin.__name__ == "Iterator":
        return False
    if origin is dict:
        return args[0] is str and args[1] in BUILTINS
    return origin not in (list, tuple) or all(showable(a) for a in args if a is not Ellipsis)


def expected(annotation):
    """ What the schema of an argument has to hold, default aside. """
    annotation, origin, args = parts(annotation)
    result = {"pythonTyping": text_of(annotation)}
    if annotation in BUILTINS:
        result.update(type=JSON_TYPES[annotation], formType=JSON_TYPES[annotation])
    elif annotation is Any:
        result.update(type="object", formType="not_implemented")
    elif inspect.isclass(annotation) and issubclass(annotation, Measure):
        result.update(type="number", formType="measure", siUnit=annotation.si_unit)
    elif annotation in FILES:
        result.update(type="text", formType="file", isFile=True)
    elif inspect.isclass(annotation):
        result.update(type="object", formType="custom_instance", standaloneInDb=annotation in STANDALONE, classes=[path_of(annotation)])
    elif origin is Union:
        alone = [a in STANDALONE for a in args]
        result.update(type="object", formType="custom_instance", classes=[path_of(a) for a in args],
                      standaloneInDb=True if all(alone) else None if any(alone) else False)
    elif origin is InstanceOf:
        result.update(type="object", formType="custom_instance", instanceOf=path_of(args[0]), classes=[path_of(args[0])],
                      standaloneInDb=args[0]._standalone_in_db)
    elif origin is list:
        result.update(type="array", formType="multiple_files" if has_file(args[0]) else "homogeneous_sequence", items=expected(args[0]))
    elif origin is tuple:
        many = Ellipsis in args
        result.update(type="array", formType="heterogeneous_sequence", additionalItems=many,
                      items=[expected(a) for a in args if a is not Ellipsis])
    elif origin is dict:
        result.update(type="object", formType="dynamic_dict", patternProperties={".*": expected(args[1])})
    elif origin is Literal:
        result.update(type="string", formType="string", allowedValues=list(args))
    elif origin is type:
        result.update(type="object", formType="class", isClass=True)
    elif origin in MEMBERS + VIEWS:
        kind = {MethodType: "methods", ClassMethodType: "class_methods", AttributeType: "attributes",
                ClassAttributeType: "class_attributes"}.get(origin, "view_selectors")
        result.update(type="object", formType="attribute", isAttribute=True, attributeType=kind, object_class=path_of(origin))
        if origin in VIEWS:
            result["decorator"] = {CadViewType: "cad_view", MarkdownType: "markdown_view", PlotDataType: "plot_data_view"}[origin]
    else:
        raise AssertionError(annotation)
    return result


def covers(got, wanted, path=""):
    """ First place where a schema does not hold what it has to. """
    if isinstance(wanted, dict):
        if not isinstance(got, dict):
            return f"{path}: {got!r} is not a dict"
        for key, value in wanted.items():
            if key not in got:
                return f"{path}/{key} missing"
            where = covers(got[key], value, f"{path}/{key}")
            if where:
                return where
        return None
    if isinstance(wanted, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(wanted):
            return f"{path}: {got!r} instead of {wanted!r}"
        for i, (one, other) in enumerate(zip(got, wanted)):
            where = covers(one, other, f"{path}/{i}")
            if where:
                return where
        return None
    return None if type(got) is type(wanted) and got == wanted else f"{path}: {got!r} instead of {wanted!r}"


def pick_default(rng, annotation):
    """ (default in code, expected default in the schema) of an argument. Only supported ones. """
    annotation, origin, args = parts(annotation)
    if rng.random() < .2 and annotation not in FILES:
        return None, None
    if annotation in BUILTINS:
        value = rng.choice({int: [0, 3, -1], float: [0.0, 1.5, -2.5e-7], str: ["", "text", "é"], bool: [True, False]}[annotation])
        return value, value
    if inspect.isclass(annotation) and issubclass(annotation, Measure):
        value = rng.choice([0, 3, 0.0, 0.25, 7.5])
        given = annotation(value) if rng.random() < .5 else value
        return given, {"object_class": path_of(annotation), "value": float(value)}
    if annotation in (Leaf, StandaloneLeaf, Pair, StandalonePair) or origin is InstanceOf:
        class_ = annotation if annotation in CLASSES else args[0]
        value = StandaloneLeaf(3, name="default") if class_ in (StandaloneLeaf, DessiaObject) else Leaf(2, text="t") if class_ is Leaf else \
            class_(Leaf(5), name="p") if class_ in (Pair, StandalonePair) else Plain([1, 2])
        return value, json.loads(json.dumps(value.to_dict(use_pointers=False)))
    if annotation is Plain:
        value = Plain([1], Plain())
        return value, json.loads(json.dumps(value.to_dict(use_pointers=False)))
    if origin is Union:
        class_ = rng.choice(args)
        return pick_default(rng, class_)
    if origin is tuple:
        if Ellipsis in args:
            pairs = [pick_default(rng, args[0]) for _ in range(rng.randint(0, 3))]
        else:
            pairs = [pick_default(rng, a) for a in args]
        if any(p is NOTHING for p in pairs) or any(not simple(a) for a in args):
            return NOTHING
        return tuple(p[0] for p in pairs), [p[1] for p in pairs]
    if origin is Literal:
        value = rng.choice(args)
        return value, value
    if annotation is Any:
        value = rng.choice([0, "x", None, 1.5])
        return value, value
    if origin is type:
        return args[0], path_of(args[0])
    if origin in MEMBERS + VIEWS:
        class_ = args[0] if args[0] is not Type else Leaf
        return origin(class_, "name"), {"object_class": path_of(origin), "class_": path_of(class_), "name": "name"}
    return NOTHING


def simple(annotation):
    """ Element types whose values may be written in the default of a tuple. """
    annotation, origin, _ = parts(annotation)
    return annotation is Ellipsis or annotation in BUILTINS or annotation in CLASSES or origin is Union


def undefined_default(annotation):
    """ What a default dict holds for an argument without default. """
    annotation, origin, args = parts(annotation)
    if inspect.isclass(annotation) and issubclass(annotation, Measure):
        return {"object_class": path_of(annotation), "value": None}
    if origin is tuple:
        return [undefined_default(a) for a in args if a is not Ellipsis]
    if origin is type:
        return path_of(args[0])
    if origin in MEMBERS + VIEWS:
        return {"object_class": path_of(origin), "class_": None if args[0] is Type else path_of(args[0]), "name": None}
    return None


ARGUMENT_NAMES = ["value", "first_value", "items", "x", "class_name", "n_2", "value2", "a_b_c", "items_", "selfish", "description", "returned"]
DESCRIPTIONS = ["One thing.", "A value: with colon", "Two lines\n        of text", "é", "about types", "a, b and c",
                "as in module:types of it", "kind:type", "a :typed value", "see :returned"]


def signature(rng, first="self"):
    """ A random signature: list of (name, annotation, default or NOTHING, expected default, description or None). """
    names = rng.sample(ARGUMENT_NAMES, rng.randint(0, 6))
    split = rng.randint(0, len(names))
    maker = Annotations(rng)
    arguments = []
    for i, name in enumerate(names):
        annotation = maker.make()
        default = NOTHING
        if i >= split:
            default = pick_default(rng, annotation)
            while default is NOTHING:
                annotation = maker.make()
                default = pick_default(rng, annotation)
        arguments.append((name, annotation, default, rng.choice([None] + DESCRIPTIONS)))
    return arguments


def shown(default, annotation):
    """ Default that the schema shows: lists and dicts never have one. """
    if parts(annotation)[1] in (list, dict):
        return None
    return default


def build_function(rng, name, arguments, first, callback, returned=None, description="What it does."):
    """ A function with this signature, documented. """
    space = {"typing": typing}
    parts = [first]
    for i, (argument, annotation, default, _) in enumerate(arguments):
        space[f"T{i}"] = annotation
        part = f"{argument}: T{i}"
        if default is not NOTHING:
            space[f"D{i}"] = default[0]
            part += f" = D{i}"
        parts.append(part)
    if callback:
        parts.append("progress_callback=lambda x: None")
    arrow = ""
    if returned is not None:
        space["R"] = returned
        arrow = " -> R"
    body = "; ".join([f"self.{a[0]} = {a[0]}" for a in arguments]) if name == "__init__" else ""
    exec(f"def {name}({', '.join(parts)}){arrow}:\n    {body or 'pass'}", space)
    function = space[name]
    documented = [a for a in arguments if a[3] is not None]
    rng.shuffle(documented)
    doc = f"\n    {description}\n\n" if rng.random() < .5 else description + "\n"
    for argument, _, _, text in documented:
        doc += f"    :param {argument}: {text}\n"
        if rng.random() < .3:
            doc += f"    :type {argument}: something\n"
    if rng.random() < .3:
        doc += "    :return: A result: of any kind\n"
    return function, doc


def editables(chunk):
    """ Whether each part of a schema, at any depth, can be edited. """
    if isinstance(chunk, dict):
        if "editable" in chunk:
            yield chunk["editable"]
        for value in chunk.values():
            yield from editables(value)
    elif isinstance(chunk, list):
        for value in chunk:
            yield from editables(value)


def check_schema(m, schema, dict_, arguments, description):
    text = m.call("json", json.dumps, dict_)
    dict_ = json.loads(text)
    properties = [p for step in dict_["steps"] for p in step["properties"]]
    m.equal([p["key"] for p in properties], [a[0] for a in arguments], "arguments-in-order")
    m.equal(dict_["description"], description, "description")
    m.equal(dict_["type"], "object", "header")
    for chunk, (name, annotation, default, text) in zip(properties, arguments):
        where = covers(chunk, expected(annotation))
        m.check(where is None, "argument-schema", f"{name}: {annotation}: {where}")
        m.equal(chunk["description"], text or "", "argument-documentation", name)
        m.equal(chunk["title"], " ".join(w[0].upper() + w[1:] if len(w) > 1 else w for w in name.split("_")), "argument-title", name)
        m.check(set(editables(chunk)) == {True}, "editable", name)
        if default is NOTHING:
            m.check("defaultValue" not in chunk, "no-default", f"{name}: {annotation}", chunk)
        else:
            m.check("defaultValue" in chunk, "has-default", f"{name}: {annotation}")
            m.same(chunk["defaultValue"], shown(default[1], annotation), "default-value", f"{name}: {annotation}")
    defaults = json.loads(m.call("json-default", json.dumps, m.call("default_dict", schema.default_dict)))
    wanted = {n: undefined_default(a) if d is NOTHING else shown(d[1], a) for n, a, d, _ in arguments}
    m.same({k: v for k, v in defaults.items() if k != "object_class"}, wanted, "default-dict")
    given = json.loads(m.call("json-user-default", json.dumps, m.call("default_value", schema.default_value)))
    m.same(given, {n: shown(d[1], a) for n, a, d, _ in arguments if d is not NOTHING}, "user-defaults")
    alone = [n for n, a, _, _ in arguments if expected(a).get("standaloneInDb")]
    m.equal(schema.standalone_properties, alone, "standalone-properties")
    m.equal(list(schema.property_schemas), [a[0] for a in arguments], "property-schemas")
    for name, *_ in arguments:
        m.check(schema.find_attribute_step(name) is schema.steps[0], "attribute-step")
    m.check(schema.find_attribute_step("unknown") is None, "unknown-attribute")
    issues = m.call("check_list", schema.check_list)
    m.check(m.call("is_valid", lambda: schema.is_valid) is True, "valid-signature-is-valid", "", [c.message for c in issues.checks])


@scenario("C16", 500, 15000, rule="classes with random signatures, defaults and docstrings: schema, default dict, standalone properties and checks")
def classes(rng, m):
    arguments = signature(rng)
    callback = rng.random() < .2
    description = rng.choice(["What it does.", "Two lines\n    of text.", "", "With: colon"])
    function, doc = build_function(rng, "__init__", arguments, "self", callback, description=description)
    alone = rng.random() < .5
    hidden = [a[0] for a in arguments if rng.random() < .2]
    base = type("Base", (DessiaObject,), {"__init__": function, "__doc__": doc, "__module__": "vmon_c16", "_standalone_in_db": alone,
                                          "_non_editable_attributes": hidden})
    class_ = base if rng.random() < .7 else type("Sub", (base,), {"__doc__": doc, "__module__": "vmon_c16"})
    m.case(repr([a[:2] + (a[2] is not NOTHING,) for a in arguments]))
    m.log(*[f"{a[0]}: {a[1]}" for a in arguments])
    schema = m.call("ClassSchema", ClassSchema, class_)
    dict_ = m.call("to_dict", schema.to_dict)
    check_schema(m, schema, dict_, arguments, description.strip())
    m.equal(dict_["classes"], [f"vmon_c16.{class_.__name__}"], "classes")
    m.check(dict_["standaloneInDb"] is alone and schema.standalone_in_db is alone, "standalone")
    m.equal(schema.default_dict()["object_class"], f"vmon_c16.{class_.__name__}", "default-class")
    m.equal(schema.editable_attributes, [a[0] for a in arguments if a[0] not in hidden], "editable-attributes")
    again = m.call("schema", class_.schema)
    for one in (dict_, again):
        for step in one["steps"]:
            step.pop("id"), step.pop("group_id")
    m.equal(again, dict_, "schema-is-stable")
    dict_["definitions"]["poison"] = 1
    dict_["steps"].clear()
    m.equal(json.loads(json.dumps(class_.schema()["definitions"])), {}, "schemas-are-independent")


@scenario("C16", 400, 12000, rule="objects with random allowed methods: method schemas name exactly the allowed methods, method dicts hold the defaults")
def methods(rng, m):
    space = {"__module__": "vmon_c16", "__init__": lambda self: DessiaObject.__init__(self, name="")}
    wanted = {}
    for name in rng.sample(["run", "compute_all", "make", "go", "zed"], rng.randint(1, 3)):
        arguments = signature(rng)
        function, doc = build_function(rng, name, arguments, "self", rng.random() < .3, rng.choice([None, int, Leaf, List[Leaf]]))
        if rng.random() < .15:
            doc = None
            arguments = [a[:3] + (None,) for a in arguments]
        function.__doc__ = doc
        space[name] = classmethod(function) if rng.random() < .2 else function
        wanted[name] = arguments
    allowed = [n for n in wanted if rng.random() < .8]
    rng.shuffle(allowed)
    space["_allowed_methods"] = allowed
    object_ = type("Base", (DessiaObject,), space)()
    m.case(repr({n: [a[:2] for a in args] for n, args in wanted.items()}))
    schemas = m.call("method_schemas", lambda: object_.method_schemas)
    m.equal(set(schemas), set(allowed), "allowed-methods")
    for name in allowed:
        m.log(name, *[f"{a[0]}: {a[1]}" for a in wanted[name]])
        schema = m.call("MethodSchema", MethodSchema, getattr(type(object_), name))
        description = "What it does." if space[name].__doc__ else ""
        check_schema(m, schema, schemas[name], wanted[name], description)
        m.equal(schema.name, name, "method-name")
        dict_ = json.loads(m.call("json-method-dict", json.dumps, m.call("method_dict", object_.method_dict, method_name=name)))
        m.same(dict_, {n: undefined_default(a) if d is NOTHING else shown(d[1], a) for n, a, d, _ in wanted[name]}, "method-dict")


@scenario("C16", 1500, 50000, rule="random annotations (nesting, unions, literals with any text, view and method types) written as text and read back; "
                                   "schema computed from the text")
def texts(rng, m):
    annotation = Annotations(rng, form=False).make(3)
    m.case(repr(annotation))
    text = m.call("serialize", serialize_annotation, annotation)
    m.equal(text, text_of(annotation), "text", repr(annotation))
    back = m.call("deserialize", deserialize_annotation, text)
    m.check(back == plain(annotation), "read-back", f"{text} -> {back} instead of {plain(annotation)}")
    m.equal(m.call("serialize-again", serialize_annotation, back), text_of(back), "stable-text")
    spaced = text.replace(", ", rng.choice([",", ",  "])) if "Literal" not in text else text
    m.check(m.call("deserialize", deserialize_annotation, spaced) == plain(annotation), "spaces-do-not-matter", spaced)
    _, origin, args = parts(annotation)
    if args and origin is not Literal and Ellipsis not in args:
        m.equal([a.replace(" ", "") for a in m.call("extract", extract_args, text[text.index("[") + 1:-1])],
                [text_of(a).replace(" ", "") for a in args], "first-level-arguments")
    editable = rng.random() < .6
    schema = get_schema(annotation, SchemaAttribute("x", editable=editable))
    m.check(schema.is_file_related is has_file(annotation), "file-related", repr(annotation))
    if showable(annotation):
        chunk = json.loads(m.call("json", json.dumps, m.call("to_dict", schema.to_dict)))
        where = covers(chunk, expected(annotation))
        m.check(where is None, "schema-of-annotation", f"{annotation}: {where}")
        m.check(set(editables(chunk)) == {editable}, "editable-throughout", f"{annotation}", chunk)
    form = Annotations(rng).make()
    form_text = serialize_annotation(form)
    schema = m.call("from_serialized_type", Schema.from_serialized_type, form_text, "my_value")
    form = deserialize_annotation(form_text)
    dict_ = json.loads(m.call("json", json.dumps, m.call("to_dict", schema.to_dict)))
    chunk, = dict_["steps"][0]["properties"]
    where = covers(chunk, expected(form))
    m.check(where is None and chunk["key"] == "my_value" and "defaultValue" not in chunk, "schema-of-text", f"{form}: {where}")


FAULTY = [
    (lambda rng: List[rng.choice([int, Leaf])], lambda rng: rng.choice([[], [1]]), "list default"),
    (lambda rng: Dict[str, int], lambda rng: rng.choice([{}, {"a": 1}]), "dict default"),
    (lambda rng: Optional[List[int]], lambda rng: [1], "optional list default"),
    (lambda rng: Dict[rng.choice([int, float, Union[int, str], Tuple[int, int]]), str], lambda rng: NOTHING, "dict keys"),
    (lambda rng: Dict[str, rng.choice([Leaf, List[int], Dict[str, int]])], lambda rng: NOTHING, "dict values"),
    (lambda rng: Optional[Dict[int, str]], lambda rng: None, "optional dict keys"),
    (lambda rng: Union[rng.choice(EMBEDDED), rng.choice(STANDALONE)], lambda rng: rng.choice([None, NOTHING]), "union"),
    (lambda rng: Type, lambda rng: NOTHING, "bare type"),
]


@scenario("C16", 400, 8000, rule="signatures with problematic arguments: reported by the checks under the argument's name, others are not; unsupported "
                                 "and untyped arguments are refused; faulty docstrings do not break")
def problems(rng, m):
    arguments = [a for a in signature(rng) if a[2] is NOTHING]
    good = [a[0] for a in arguments]
    bad = []
    for i in range(rng.randint(1, 3)):
        make, default, what = rng.choice(FAULTY)
        value = default(rng)
        name = f"bad_{i}"
        bad.append(name)
        arguments.append((name, make(rng), NOTHING if value is NOTHING else (value, None), what))
    arguments.sort(key=lambda a: a[2] is not NOTHING)
    function, doc = build_function(rng, "__init__", arguments, "self", False)
    class_ = type("Base", (DessiaObject,), {"__init__": function, "__doc__": doc, "__module__": "vmon_c16"})
    m.case(repr([a[:2] for a in arguments]))
    schema = m.call("ClassSchema", ClassSchema, class_)
    issues = m.call("check_list", schema.check_list)
    failed = [c.message for c in issues.checks if c.level == "error"]
    for name in bad:
        m.check(any(f"'{name}'" in message for message in failed), "reported", f"{name} {[a for a in arguments if a[0] == name]}", failed)
    for name in good:
        m.check(not any(f"Attribute '{name}'" in message for message in failed), "good-not-reported", name, failed)
    m.check(m.call("is_valid", lambda: schema.is_valid) is False, "invalid")
    # refused
    unsupported = rng.choice([set, List, Dict, complex, object, bytes, "untyped"])
    space = {"T": unsupported}
    exec("def __init__(self, good: int, odd): pass" if unsupported == "untyped" else "def __init__(self, good: int, odd: T): pass", space)
    odd = type("Odd", (DessiaObject,), {"__init__": space["__init__"], "__module__": "vmon_c16"})
    m.refuses("unsupported", ClassSchema, odd, errors=(NotImplementedError, ValueError))
    # faulty docstrings
    good_arguments = [a for a in arguments if a[0] in good]
    function, doc = build_function(rng, "__init__", good_arguments, "self", False)
    doc += rng.choice(["\n:param unknown: not an argument", "\n:param nothing", "\n:param : empty"])
    class_ = type("Base", (DessiaObject,), {"__init__": function, "__doc__": doc, "__module__": "vmon_c16"})
    dict_ = m.call("faulty-docstring", lambda: ClassSchema(class_).to_dict())
    m.equal([p["key"] for p in dict_["steps"][0]["properties"]], good, "faulty-docstring-arguments")


@scenario("C16", 300, 6000, rule="references injected by the backend replace the default of standalone arguments only")
def references(rng, m):
    annotation = rng.choice([rng.choice(CLASSES), InstanceOf[rng.choice(CLASSES)], Optional[rng.choice(CLASSES)], int, List[StandaloneLeaf],
                             Union[tuple(STANDALONE)], Union[tuple(EMBEDDED)]])
    default = pick_default(rng, annotation)
    m.case(f"{annotation} {default is NOTHING}")
    if default is NOTHING:
        attribute = SchemaAttribute("value")
    else:
        attribute = SchemaAttribute("value", default_value=default[0])
    schema = m.call("get_schema", get_schema, annotation, attribute)
    before = json.loads(json.dumps(schema.to_dict()))
    alone = expected(annotation).get("standaloneInDb") is True
    m.call("inject", schema.inject_reference, "id7")
    after = json.loads(m.call("json", json.dumps, m.call("to_dict", schema.to_dict)))
    if alone:
        m.equal(after.pop("defaultValue"), {"object_id": "id7"}, "injected")
        before.pop("defaultValue", None)
    m.equal(after, before, "rest-unchanged")
