""" C06: JSON files and streams, text and binary files, archives. """
import copy
import io
import json
import os
import tempfile
import zipfile

from dessia_common import files as F
from dessia_common.core import DessiaObject
from dessia_common.exports import ExportFormat

from vmon import models as M
from vmon.core import scenario
from vmon.gen import Gen, key_orders, view, WORDS

TEXT_CLASSES = [F.StringFile, F.TextFile, F.CSVFile, F.MarkdownFile, F.JsonFile]
BINARY_CLASSES = [F.BinaryFile, F.XLSXFile, F.XLSFile, F.XLSMFile, F.DocFile, F.DocxFile]
CHARS = "abcXYZ 0123.,;:!?éèàüñ日本語☃🎉\t\n\"'\\/{}[]<>&%$#@~\u200b\u00a0\x00\x7f\ufeff\u2028"


def text(rng, size=None):
    size = rng.choice([0, 1, 2, 5, 20, 100, 1000]) if size is None else size
    return "".join(rng.choice(CHARS) for _ in range(size))


def blob(rng, size=None):
    size = rng.choice([0, 1, 2, 5, 64, 1000, 70000]) if size is None else size
    return rng.randbytes(size)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c06_")
        return self

    def __exit__(self, *_):
        for name in os.listdir(self.path):
            os.unlink(os.path.join(self.path, name))
        os.rmdir(self.path)

    def __truediv__(self, name):
        return os.path.join(self.path, name)


def load(rng, cls):
    return rng.choice([cls, DessiaObject])


def root(rng):
    gen = Gen(rng)
    obj = gen.obj(rng.choice([2, 3, 4]))
    if isinstance(obj, M.Leaf) and rng.random() < .7:
        obj = M.Payload([obj, gen.payload(2), text(rng, 30).replace("\x00", "")], name=text(rng, 6))
    return obj


@scenario("C06", quick=1200, thorough=30000)
def json_files(rng, m):
    """ save_to_file / from_json: same class, values, types, names; the object is untouched; an older file of the same
    name is replaced completely. """
    obj = root(rng)
    before = view(obj)
    m.case(before)
    with Scratch() as scratch:
        name = rng.choice(["a", "b.json", "é 日", "x.y", "json", "c.json.json"])
        path = scratch / name
        real = path if path.endswith(".json") else path + ".json"
        if rng.random() < .3:
            with open(real, "w", encoding="utf-8") as file:
                file.write("x" * 100000)
        m.call("save", obj.save_to_file, path, **rng.choice([{}, {"indent": 0}, {"indent": 4}, {"indent": None}]))
        m.check(os.listdir(scratch.path) == [os.path.basename(real)], "one-file-written", "", os.listdir(scratch.path))
        with open(real, encoding="utf-8") as file:
            content = file.read()
        m.call("valid-json", json.loads, content)
        cls = load(rng, type(obj))
        loaded = m.call("load", cls.from_json, real)
        if rng.random() < .2:
            loaded = m.call("load", cls.load_from_file, real)
        m.check(type(loaded) is type(obj), "loaded-class", "", type(loaded))
        m.same(view(loaded), before, "loaded-data")
        m.check(key_orders(loaded) == key_orders(obj), "loaded-key-order")
        m.same(view(obj), before, "saving-changes-nothing")
        m.check(loaded == obj and obj == loaded, "loaded-equal")
        m.call("save", loaded.save_to_file, scratch / "again.json")
        again = m.call("load", cls.from_json, scratch / "again.json")
        m.same(view(again), before, "second-load")


@scenario("C06", quick=1200, thorough=30000)
def json_streams(rng, m):
    """ save_to_stream into a text stream, then read from that stream, as text or encoded bytes. """
    obj = root(rng)
    before = view(obj)
    m.case(before)
    stream = rng.choice([F.JsonFile, F.StringFile, io.StringIO, F.TextFile])()
    m.call("save", obj.save_to_stream, stream)
    content = stream.getvalue()
    kind = rng.choice(["same", "bytesio", "binaryfile", "copy", "from_stream"])
    if kind == "same" or (kind == "copy" and type(stream) is io.StringIO):
        source = stream
        source.seek(0)
    elif kind == "copy":
        source = stream.copy()
    elif kind == "bytesio":
        source = io.BytesIO(content.encode("utf-8"))
    elif kind == "from_stream":
        source = F.JsonFile.from_stream(io.BytesIO(content.encode("utf-8")))
    else:
        source = F.BinaryFile("a.json")
        source.write(content.encode("utf-8"))
        source.seek(0)
    cls = load(rng, type(obj))
    loaded = m.call("load-stream", rng.choice([cls.from_json_stream, cls.from_json_stream, cls.load_from_stream]),
                    source)
    m.same(view(loaded), before, "stream-data")
    m.check(key_orders(loaded) == key_orders(obj), "stream-key-order")
    m.same(view(obj), before, "saving-changes-nothing")
    m.check(stream.getvalue() == content, "stream-content-kept")
    m.ev("source:" + kind)


def write_file(cls, name, content):
    file = cls(name)
    file.write(content)
    file.seek(0)
    return file


@scenario("C06", quick=1500, thorough=40000)
def file_operations(rng, m):
    """ Random histories of write/seek/read/copy/compare/hash on in-memory files against a plain str/bytes model. """
    binary = rng.random() < .5
    cls = rng.choice(BINARY_CLASSES if binary else TEXT_CLASSES)
    name = rng.choice(["", "a.txt", "é/日.bin", text(rng, 8)])
    make = (lambda: blob(rng, rng.choice([0, 1, 3, 50]))) if binary else (lambda: text(rng, rng.choice([0, 1, 3, 50])))
    file = cls(name)
    empty = b"" if binary else ""
    content, position = empty, 0
    others = []   # (file, content, name) frozen copies
    history = [cls.__name__, name]
    for _ in range(rng.randint(3, 15)):
        op = rng.choice(["write", "write", "seek", "read", "copy", "compare", "truncate", "deepcopy", "hash", "other"])
        history.append(op)
        if op == "write":
            data = make()
            file.write(data)
            content = content[:position] + data + content[position + len(data):]
            position += len(data)
        elif op == "seek":
            position = rng.randint(0, len(content))
            file.seek(position)
        elif op == "read":
            size = rng.choice([-1, 0, 1, 10])
            got = file.read(size)
            expected = content[position:] if size < 0 else content[position:position + size]
            m.check(got == expected, "read", "", got, expected)
            position += len(expected)
        elif op in ("copy", "deepcopy"):
            copied = m.call("copy", file.copy)
            m.check(type(copied) is cls, "copy-class", "", type(copied))
            m.check(copied.filename == name, "copy-name", "", copied.filename, name)
            m.check(copied.getvalue() == content, "copy-content", "", copied.getvalue(), content)
            m.check(copied.tell() == 0 and copied.read() == content, "copy-readable-from-start")
            m.check(copied == file and hash(copied) == hash(file), "copy-equal")
            others.append((copied, content))
        elif op == "other" and others:
            index = rng.randrange(len(others))
            target, value = others[index]
            data = make()
            target.seek(0)
            target.write(data)
            others[index] = (target, data + value[len(data):])
        elif op == "compare":
            for other, value in others:
                m.check((other == file) == (value == content), "equality-follows-content", "", value, content)
            m.check(file == file and not file != file, "reflexive")
        elif op == "truncate" and position <= len(content):
            file.truncate(position)
            content = content[:position]
        elif op == "hash":
            hash(file)
        m.check(file.getvalue() == content, "content", op, file.getvalue(), content)
        m.check(file.tell() == position, "position", op, file.tell(), position)
        m.check(file.filename == name, "name", op, file.filename)
        for other, value in others:
            m.check(other.getvalue() == value, "copies-independent", op, other.getvalue(), value)
    m.case(repr(history) + str(len(content)) + repr(content[:20]))


@scenario("C06", quick=1200, thorough=30000)
def file_equality(rng, m):
    """ Equality of two files: same kind (text or binary), name and content; equal files have equal hashes. """
    long = text(rng, rng.choice([10, 300, 5000, 20000])) if rng.random() < .3 else ""
    together = rng.random() < .5

    def build():
        binary = rng.random() < .5 if not long else together
        value = rng.choice(["", "a", "ab", "b", "é"])
        if long:
            value = long + rng.choice(["", "x", "y", "xy"])
            if rng.random() < .4:
                index = rng.choice([0, len(long) // 2, len(long) - 1, rng.randrange(len(long))])
                value = value[:index] + "Z" + value[index + 1:]
        name = rng.choice(["", "f", "g"])
        cls = rng.choice(BINARY_CLASSES if binary else TEXT_CLASSES)
        return write_file(cls, name, value.encode("utf-8") if binary else value), (binary, name, value)
    (one, key_one), (two, key_two) = build(), build()
    if rng.random() < .3:
        one.read()
    if rng.random() < .3:
        two.seek(0, 2)
    m.case(f"{key_one}{key_two}{type(one)}{type(two)}{one.tell()}{two.tell()}")
    expected = key_one == key_two
    m.check((one == two) == expected, "equality", "", key_one, key_two)
    m.check((two == one) == expected, "equality-symmetric", "", key_one, key_two)
    m.check((one != two) == (not expected), "difference", "", key_one, key_two)
    if expected:
        m.check(hash(one) == hash(two), "hash")
    for other in (None, 1, "f", [], key_one):
        m.check(not one == other, "equality-other-type", "", other)


@scenario("C06", quick=1000, thorough=20000)
def files_on_disk(rng, m):
    """ from_file gives exactly the content of the disk file, readable from its start; templates written to disk are
    the class's template; from_stream keeps class and content. """
    with Scratch() as scratch:
        binary = rng.random() < .5
        cls = rng.choice(BINARY_CLASSES if binary else TEXT_CLASSES)
        path = scratch / rng.choice(["x", "x.y", "é ☃.txt"])
        content = blob(rng) if binary else text(rng)
        m.case(f"{cls.__name__}{len(content)}{path[-6:]}{content[:20]!r}")
        with open(path, "wb") as disk:
            disk.write(content if binary else content.encode("utf-8"))
        file = m.call("from-file", cls.from_file, path)
        m.check(type(file) is cls and file.filename == path, "file-identity", "", type(file), file.filename)
        m.check(file.tell() == 0, "file-position")
        m.check(file.read() == content and file.getvalue() == content, "file-content", "", file.getvalue(), content)
        with open(path, "rb") as disk:
            m.check(disk.read() == (content if binary else content.encode("utf-8")), "disk-untouched")
        if not binary:
            read = m.call("from-stream", cls.from_stream, io.BytesIO(content.encode("utf-8")))
            m.check(type(read) is cls, "stream-class", "", type(read))
            m.check(read.tell() == 0 and read.read() == content, "stream-content", "", read.getvalue(), content)
        os.unlink(path)
        target = scratch / rng.choice(["t", "t." + (cls.extension or "bin")])
        real = target if not cls.extension or target.endswith(cls.extension) else f"{target}.{cls.extension}"
        m.call("save-template", cls.save_template_to_file, target)
        m.check(os.listdir(scratch.path) == [os.path.basename(real)], "template-file", "", os.listdir(scratch.path))
        template = cls.stream_template()
        m.check(type(template) is cls, "template-class")
        if not issubclass(cls, F.XLSXFile):   # those embed a date
            with open(real, "rb") as disk:
                value = template.getvalue()
                m.check(disk.read() == (value if binary else value.encode("utf-8")), "template-content")
        else:
            m.check(zipfile.ZipFile(template).testzip() is None and zipfile.ZipFile(real).testzip() is None,
                    "template-content")


class Exporter(DessiaObject):
    """ Object with additional export formats. """

    def __init__(self, contents: list, name: str = ""):
        self.contents = contents
        DessiaObject.__init__(self, name=name)

    def export_text(self, stream, index: int):
        stream.write(self.contents[index])

    def export_binary(self, stream, index: int):
        stream.write(self.contents[index].encode("utf-8"))

    def _export_formats(self):
        formats = DessiaObject._export_formats(self)
        for index, value in enumerate(self.contents):
            is_text = len(value) % 2 == 0
            formats.append(ExportFormat(selector=f"sel{index}", extension=["txt", "json", "md"][index % 3],
                                        method_name="export_text" if is_text else "export_binary", text=is_text,
                                        args={"index": index}))
        return formats


@scenario("C06", quick=60, thorough=1500)
def archives(rng, m):
    """ Zip export holds every export once with its exact content; generate_archive keeps name and content; exporting
    by selector writes that export's content. """
    contents = [text(rng, rng.choice([0, 3, 10, 201])) + rng.choice(["", "", " ", "\n", "\n\n"]) for _ in range(rng.randint(0, 5))]
    obj = Exporter(contents, name="exporter")
    m.case(contents)
    with Scratch() as scratch:
        m.call("to-zip", obj.to_zip, scratch / "z.zip")
        archive = F.BinaryFile()
        returned = m.call("to-zip-stream", obj.to_zip_stream, archive)
        m.check(len(returned) == 1 and returned[0] is archive, "zip-stream-returned", "", returned)
        for source in (scratch / "z.zip", archive):
            with zipfile.ZipFile(source) as zipped:
                names = zipped.namelist()
                m.check(len(names) == len(set(names)) == 3 + len(contents), "zip-entries", "", names)
                entries = {n: zipped.read(n) for n in names}
            # every custom export is found with its content
            found = [v for n, v in sorted(entries.items())]
            for value in contents:
                m.check(value.encode("utf-8") in found, "zip-content", "", value)
                found.remove(value.encode("utf-8"))
            kinds = [n.rsplit(".", 1)[-1] for n in names]
            m.check(kinds.count("xlsx") == 1 and kinds.count("docx") == 1, "zip-kinds", "", kinds)
            loaded = [v for n, v in entries.items() if n.endswith(".json") and v.startswith(b"{\n")
                      and b"object_class" in v]
            m.check(len(loaded) >= 1, "zip-json")
            m.same(view(DessiaObject.dict_to_object(json.loads(loaded[0]))), view(obj), "zip-json-data")
        for index, value in enumerate(contents):
            path = m.call("save-export", obj.save_export_to_file, f"sel{index}", scratch / f"e{index}")
            with open(path, "rb") as disk:
                m.check(disk.read() == value.encode("utf-8"), "export-content", path, value)
        m.refuses("unknown-selector", obj.save_export_to_file, "nope", scratch / "nope", errors=(ValueError,))
        path = m.call("save-export", obj.save_export_to_file, "json", scratch / "o")
        m.same(view(DessiaObject.from_json(path)), view(obj), "export-json")
        # direct archives
        buffer = io.BytesIO()
        members = {}
        with zipfile.ZipFile(buffer, "w") as zipped:
            for index in range(rng.randint(1, 4)):
                value = blob(rng, 50) if rng.random() < .5 else text(rng, 50)
                value += rng.choice(["", "\r\n", "\r", "a\r\nb\n", "\n\n", " ", "\x1a"]) if isinstance(value, str) else \
                    rng.choice([b"", b"\r\n", b"\n", b"\x00", b"\r"])
                name = f"{index}.bin"
                file = write_file(F.BinaryFile if isinstance(value, bytes) else F.StringFile, name, value)
                if rng.random() < .5:
                    file.read()
                m.call("generate-archive", F.generate_archive, zipped, file)
                members[name] = value if isinstance(value, bytes) else value.encode("utf-8")
            m.refuses("archive-non-file", F.generate_archive, zipped, "text", errors=(ValueError,))
        with zipfile.ZipFile(io.BytesIO(buffer.getvalue())) as zipped:
            m.same({n: zipped.read(n) for n in zipped.namelist()}, members, "archive-content")
