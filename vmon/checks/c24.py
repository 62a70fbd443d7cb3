""" C24: text reports show the data they summarize. """
import io
import os
import re
import struct
import tempfile
import warnings
import zlib

import docx
import numpy as np

from dessia_common.core import DessiaObject
from dessia_common.datatools.dataset import Dataset
from dessia_common.document_generator import DocxWriter, Footer, Header, Heading, Paragraph, Section, Table
from dessia_common.exports import MarkdownWriter
from dessia_common.files import BinaryFile
from dessia_common.workflow.blocks import InstantiateModel, ModelAttribute
from dessia_common.workflow.core import Pipe, Workflow

from vmon.core import scenario

warnings.filterwarnings("ignore", category=UserWarning, module="docx")


class Reported(DessiaObject):
    """ Object whose attributes are reported. """

    _vector_features = ["a", "b"]

    def __init__(self, a: float = 0., b: int = 0, c=None, d=None, e=None, name: str = ""):
        self.a, self.b, self.c, self.d, self.e = a, b, c, d, e
        DessiaObject.__init__(self, name=name)


TEXTS = ["", "word", "two words", "é à ü", "a" * 24, "a" * 25, "a" * 26, "x" * 60, "with | pipe", "line\nbreak", "a\n\nb|c\nd",
         "|", "- -", "---", "#tag", "back\\slash", "3", "tab\tbed", "| a | b |", "\\|"]


def make_value(rng, deep=True):
    draw = rng.randrange(13 if deep else 8)
    if draw < 2:
        return rng.choice([0, 1, -5, 10**12, True, False, np.int64(7)])
    if draw < 4:
        return rng.choice([0.5, -1e-9, 1e22, 3.14159265358979, rng.uniform(-1e3, 1e3), float("inf"), float("nan"), np.float64(2.25)])
    if draw < 6:
        return rng.choice(TEXTS)
    if draw == 6:
        return None
    if draw == 7:
        return rng.choice([1 + 2j, 0.1234567891 - 1e-9j])
    if draw == 8:
        if rng.random() < .3:
            # only the last one differs
            return [make_value(rng, False)] * rng.choice([3, 12, 40]) + [make_value(rng, False)]
        return [make_value(rng, False) for _ in range(rng.choice([0, 1, 2, 5]))]
    if draw == 9:
        return tuple(rng.randint(0, 9) for _ in range(rng.choice([0, 1, 3])))
    if draw == 10:
        return {k: make_value(rng, False) for k in "abc"[:rng.randint(0, 3)]}
    return Reported(1., 2, name=rng.choice(["", "named", "a long name for an object of the table"]))


def squeeze(text):
    return " ".join(text.split())


def check_cell(m, cell, value, limit):
    """ A cell shows the value it stands for, shortened only beyond the print limit. """
    cell = squeeze(cell)

    def shows(text):
        expected = text if len(text) <= limit else text[:limit] + "..."
        return cell == squeeze(expected)

    if isinstance(value, str):
        ok = shows(value) or (value == "" and shows("no value"))
    elif value is None:
        ok = shows("-") or shows(" - ")
    elif isinstance(value, (bool, np.bool_)):
        ok = shows(str(value)) or shows(str(int(value)))
    elif isinstance(value, (int, np.integer)):
        ok = shows(str(int(value)))
    elif isinstance(value, float):
        ok = shows(str(round(float(value), 6))) or shows(str(round(value, 6)))
    elif isinstance(value, complex):
        ok = shows(str(complex(round(value.real, 6), round(value.imag, 6))))
    elif isinstance(value, (list, tuple, dict)):
        elements = list(value.values()) if isinstance(value, dict) else list(value)
        if not elements:
            ok = shows(f"empty {type(value).__name__}")
        else:
            names = list(dict.fromkeys(type(e).__name__ for e in elements))
            if len(names) == 1:
                ok = shows(f"{len(elements)} {names[0]}{'s' if len(elements) > 1 else ''}")
            else:
                ok = cell.startswith(f"{len(elements)} "[:limit].strip()) and (
                    len(cell) >= limit or sorted(re.findall(r"[\w.]+", cell)[1:]) == sorted(names))
    else:
        ok = shows(value.name or "unnamed")
    m.check(ok, "cell", "a cell does not show its value", cell, value, limit)
    m.ev("cells")


def cells_of(line):
    return [c.replace("\\|", "|") for c in re.split(r"(?<!\\)\|", line.strip()[1:-1])]


def check_table(m, text, titles, content, print_limit, table_limit):
    lines = text.rstrip("\n").split("\n")
    m.equal([squeeze(c).lower() for c in cells_of(lines[0])], [squeeze(t).lower() for t in titles], "table-titles", "columns in order")
    m.check(len(cells_of(lines[1])) == len(titles) and set(lines[1]) <= set("|-: "), "table-separator", "", lines[1])
    rows = lines[2:]
    if table_limit is None or len(content) <= table_limit:
        m.equal(len(rows), len(content), "table-rows", "every row once")
        shown = content
    else:
        counts = [i for i, r in enumerate(rows) if re.match(r"^\|\s*\+ \d+ unprinted elements", r)]
        m.equal(len(counts), 1, "omitted-count", "one line for the omitted rows")
        before, after = counts[0], len(rows) - counts[0] - 1
        omitted = int(re.search(r"\d+", rows[counts[0]]).group())
        m.equal(before + after + omitted, len(content), "omitted-count", "printed and omitted rows are all the rows")
        m.equal(before + after, table_limit, "table-limit", "as many rows as allowed")
        del rows[counts[0]]
        shown = content[:before] + content[len(content) - after:]
    for row, values in zip(rows, shown):
        cells = cells_of(row)
        m.equal(len(cells), len(values), "table-columns", f"one cell per column {row!r}")
        for cell, value in zip(cells, values):
            check_cell(m, cell, value, print_limit)
    m.ev("rows", len(rows))


@scenario("C24", 400, 8000)
def matrix_tables(rng, m):
    """ Tables of any matrix with any limits. """
    columns = rng.randint(1, 5)
    content = [[make_value(rng) for _ in range(columns)] for _ in range(rng.choice([0, 1, 2, 3, 5, 6, 7, 11, 12, 13, 14, 30]))]
    titles = [rng.choice(["size", "Cost", "long title", "é", "max_length", "X"]) for _ in range(columns)]
    print_limit = rng.choice([1, 5, 25, 25, 100])
    table_limit = rng.choice([None, 1, 2, 3, 5, 12, 12, 13, 40])
    m.case([content, titles, print_limit, table_limit])
    writer = MarkdownWriter(print_limit=print_limit, table_limit=table_limit)
    text = m.call("matrix-table", writer.matrix_table, content, titles)
    check_table(m, text, titles, content, print_limit, table_limit)
    m.equal(m.call("matrix-table", writer.matrix_table, content, titles), text, "table-again", "same text again")


def object_content(obj):
    return [[key, type(value).__name__, value] for key, value in obj.__dict__.items()]


def extract_tables(text):
    tables, current = [], []
    for line in text.split("\n") + [""]:
        if line.strip().startswith("|"):
            current.append(line.strip())
        elif current:
            tables.append("\n".join(current) + "\n")
            current = []
    return tables


def make_object(rng):
    return Reported(rng.choice([0., 1.5, -3.25]), rng.randint(-5, 5), make_value(rng), make_value(rng), make_value(rng),
                    name=rng.choice(["", "n", "a name", "é$name", "${class_}", "x" * 40]))


@scenario("C24", 200, 4000)
def objects(rng, m):
    """ Reports of objects: every attribute, its type and value. """
    obj = make_object(rng)
    m.case(obj.__dict__)
    text = m.call("object-markdown", obj.to_markdown)
    m.check(obj.name in text.split("\n")[0] and "Reported" in text.split("\n")[0], "report-title", "", text[:100])
    tables = extract_tables(text)
    m.equal(len(tables), 1, "report-tables", "one table")
    check_table(m, tables[0], ["attribute", "type", "value"], object_content(obj), 25, None)
    writer = MarkdownWriter(print_limit=rng.choice([8, 25]), table_limit=rng.choice([None, 2, 4, 12]))
    check_table(m, m.call("object-table", writer.object_table, obj), ["attribute", "type", "value"], object_content(obj),
                writer.print_limit, writer.table_limit)
    stream = BinaryFile("report.docx")
    m.call("object-docx", obj.to_docx_stream, stream)
    stream.seek(0)
    document = docx.Document(stream)
    rows = [[squeeze(c.text) for c in row.cells] for table in document.tables for row in table.rows]
    expected = [[squeeze(c) for c in cells_of(line)] for i, line in enumerate(tables[0].rstrip("\n").split("\n")) if i != 1]
    m.equal(rows, expected, "docx-rows", "the document holds every row of the report")
    with tempfile.TemporaryDirectory(prefix="vmon_c24_") as scratch:
        path = os.path.join(scratch, "file.docx")
        m.call("object-docx", obj.to_docx, path[:-5] if rng.random() < .5 else path)
        m.check(os.path.exists(path), "docx-file", "")
        again = [[squeeze(c.text) for c in row.cells] for table in docx.Document(path).tables for row in table.rows]
        m.equal(again, expected, "docx-rows", "the file holds every row of the report")


@scenario("C24", 150, 3000)
def datasets(rng, m):
    """ Reports of datasets. """
    objects_ = [Reported(rng.choice([0.5, 1e6, -2.123456789]), rng.randint(0, 9), name=f"o{i}")
                for i in range(rng.choice([1, 2, 6, 7, 11, 12, 13, 25, 60]))]
    dataset = Dataset(objects_, name=rng.choice(["", "d", "my data"]))
    m.case([(o.a, o.b) for o in objects_])
    text = m.call("dataset-markdown", dataset.to_markdown)
    tables = extract_tables(text)
    m.equal(len(tables), 1, "report-tables", "one table")
    check_table(m, tables[0], dataset.common_attributes, [[o.a, o.b] for o in objects_], 25, 12)
    title = text.split("\n")[0]
    m.check(f" {len(objects_)} Reported" in title and (dataset.name or "no name") in title, "report-title", "", title)


WORDS = ["alpha", "beta #2", "C#", "x --- y", "a|b", "- item", "é", "1. first", "**bold**", "3 - 2 = 1", "------x", "> quote",
         "a_b", "--", "tail #", "end|"]


def make_markdown(rng):
    """ A markdown text and the blocks it is made of. """
    blocks = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        draw = rng.random()
        if draw < .35:
            blocks.append(("heading", rng.randint(1, 9), " ".join(rng.sample(WORDS, rng.randint(1, 3)))))
        elif draw < .75:
            blocks.append(("paragraph", " ".join(rng.sample(WORDS, rng.randint(1, 4)))))
        else:
            columns = rng.randint(1, 4)
            rows = [[rng.choice(["v", "-", "---", "", "two words", "#", "a \\| b", "1.5", ":-:"]) for _ in range(columns)]
                    for _ in range(rng.choice([0, 1, 3]))]
            blocks.append(("table", [["T%d" % i for i in range(columns)]] + rows))
    lines = []
    for block in blocks:
        if block[0] == "heading":
            lines.append("#" * block[1] + " " + block[2])
        elif block[0] == "paragraph":
            lines.append(block[1])
        else:
            indent = rng.choice(["", "", "  "])
            for i, row in enumerate(block[1]):
                lines.append(indent + rng.choice(["| " + " | ".join(row) + " |", "|" + "|".join(row) + "|"]))
                if i == 0:
                    lines.append(indent + "|" + "|".join([rng.choice([" - ", "---", " ------ ", ":---:"])] * len(row)) + "|")
        lines.extend([""] * (1 if block[0] == "table" else rng.choice([0, 1, 2])))
        if rng.random() < .1:
            lines.append("---")
    return "\n".join(lines), blocks


def document_elements(document):
    """ Content of a document, in order. """
    elements = []
    for child in document.element.body.iterchildren():
        if child.tag.endswith("}p"):
            paragraph = docx.text.paragraph.Paragraph(child, document)
            style = paragraph.style.name
            if style.startswith("Heading"):
                elements.append(("heading", int(style.split()[1]), paragraph.text.strip()))
            elif style == "Title":
                elements.append(("heading", 0, paragraph.text.strip()))
            elif paragraph.text.strip():
                elements.append(("paragraph", paragraph.text.strip()))
        elif child.tag.endswith("}tbl"):
            table = docx.table.Table(child, document)
            for row in table.rows:
                elements.append(("row", [squeeze(c.text) for c in row.cells]))
    return elements


@scenario("C24", 150, 3000)
def documents_from_markdown(rng, m):
    """ Documents generated from markdown keep everything in order. """
    text, blocks = make_markdown(rng)
    m.case(text)
    writer = m.call("from-markdown", DocxWriter.from_markdown, text)
    stream = io.BytesIO()
    m.call("save-document", writer.save_to_stream, stream)
    stream.seek(0)
    got = document_elements(docx.Document(stream))
    expected = [b for b in blocks if b[0] == "heading"]     # contents first
    for block in blocks:
        if block[0] == "table":
            expected.extend(("row", [squeeze(c.replace("\\|", "|")) for c in row]) for row in block[1])
        else:
            expected.append(block)
    m.equal(got, expected, "document-content", "headings, paragraphs and cells in order")
    m.ev("document elements", len(got))


def png(path, width, height):
    """ A valid black picture. """
    def chunk(kind, data):
        return struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data))
    data = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", width, height, 8, 2, 0, 0, 0)) \
        + chunk(b"IDAT", zlib.compress((b"\x00" + b"\x00" * 3 * width) * height)) + chunk(b"IEND", b"")
    with open(path, "wb") as file:
        file.write(data)
    return data


@scenario("C24", 100, 2000)
def documents(rng, m):
    """ Documents built piece by piece. """
    headings = [Heading(rng.choice(WORDS) + str(i), rng.randint(1, 9)) for i in range(rng.randint(0, 4))]
    paragraphs = [Paragraph(rng.choice(WORDS) + str(i)) for i in range(rng.randint(0, 5))]
    columns = rng.randint(1, 4)
    tables = [Table([[rng.choice(WORDS) + str(rng.randint(0, 99)) for _ in range(columns)] for _ in range(rng.randint(1, 4))])
              for _ in range(rng.randint(1, 3))]
    items = rng.sample(WORDS, rng.randint(0, 3))
    layout = [rng.choice([Header, Footer])(f"layout {i}", align=rng.choice(["left", "center", "right"])) for i in range(rng.randint(0, 3))]
    together, index, every = rng.random() < .5, rng.randrange(len(tables)), rng.random() < .5
    m.case([[(h.text, h.level) for h in headings], [p.text for p in paragraphs], [t.rows for t in tables], items, together, every])
    section = Section()
    for element in layout:
        section.add_element(element)
    expected = []
    with tempfile.TemporaryDirectory(prefix="vmon_c24_") as scratch:
        path = os.path.join(scratch, "doc.docx")
        writer = DocxWriter(filename=path[:-5] if rng.random() < .5 else path, paragraphs=list(paragraphs), section=section,
                            headings=list(headings), tables=tables)
        if rng.random() < .7:
            m.call("add-headings", writer.add_headings, page_break=rng.random() < .5)
            expected.extend(("heading", h.level, h.text) for h in headings)
        m.call("add-paragraphs", writer.add_paragraphs, add_heading=together)
        for i, paragraph in enumerate(paragraphs):
            if together and i < len(headings):
                expected.append(("heading", headings[i].level, headings[i].text))
            expected.append(("paragraph", paragraph.text))
        m.call("add-table", writer.add_table, add_all_tables=every, table_index=index)
        for table in tables if every else [tables[index]]:
            expected.extend(("row", [squeeze(c) for c in row]) for row in table.rows)
        style = rng.choice(["List Bullet", "List Number"])
        m.call("add-items", writer.add_list_items, items, **({} if style == "List Bullet" and rng.random() < .5 else {"style": style}))
        expected.extend(("paragraph", item) for item in items)
        pictures = []
        for i in range(rng.choice([0, 0, 1, 2])):
            size = rng.choice([None, 1, 2.5]), rng.choice([None, 1.5])
            pictures.append((png(os.path.join(scratch, f"{i}.png"), rng.randint(1, 9), rng.randint(1, 9)), size))
            m.call("add-picture", writer.add_picture, os.path.join(scratch, f"{i}.png"), **{k: v for k, v in zip(("width", "height"), size) if v})
        framed = layout and rng.random() < .4
        if framed:
            corner = png(os.path.join(scratch, "corner.png"), rng.randint(10, 19), 3)
            m.call("layout-picture", writer.add_header_footer_picture, os.path.join(scratch, "corner.png"), width=1.5)
        removed = rng.random() < .15
        if removed:
            m.call("delete-layout", writer.delete_layout_element)
        if rng.random() < .5:
            m.call("save", writer.save_file)
        else:
            stream = BinaryFile("doc.docx")
            m.call("save-stream", writer.save_to_stream, stream)
            with open(path, "wb") as file:
                file.write(stream.getvalue())
        document = docx.Document(path)
    listed = [p for p in document.paragraphs if p.style.name.startswith("List")]
    m.equal([(p.style.name, p.text) for p in listed], [(style, item) for item in items], "list-items")
    shapes = list(document.inline_shapes)
    m.equal(len(shapes), len(pictures), "pictures")
    for shape, (data, (width, height)) in zip(shapes, pictures):
        part = document.part.related_parts[shape._inline.graphic.graphicData.pic.blipFill.blip.embed]
        m.check(part.blob == data, "picture-content")
        m.check(width is None or shape.width == int(width * 914400), "picture-width", f"{width}", shape.width)
        m.check(height is None or shape.height == int(height * 914400), "picture-height", f"{height}", shape.height)
    if removed:
        return m.check(document.sections[0].header.is_linked_to_previous and document.sections[0].footer.is_linked_to_previous, "layout-deleted")
    if framed:
        part = getattr(document.sections[0], "header" if isinstance(layout[0], Header) else "footer").part
        m.check(any(p.blob == corner for p in part.related_parts.values()), "layout-picture")
    m.equal(document_elements(document), expected, "document-built", "every element in order")
    for kind, type_ in (("header", Header), ("footer", Footer)):
        shown = [p for p in getattr(document.sections[0], kind).paragraphs if p.text]
        wanted = [e for e in layout if isinstance(e, type_)]
        m.equal([p.text for p in shown], [e.text for e in wanted], "layout", kind)
        m.equal([p.alignment for p in shown], [getattr(docx.enum.text.WD_PARAGRAPH_ALIGNMENT, e.align.upper()) for e in wanted],
                "layout-alignment", kind)
    return None


@scenario("C24", 100, 2000)
def small_texts(rng, m):
    """ Headers, tables of contents, files. """
    titles = rng.sample(["Intro", "Two words", "É a", "C", "A B C"], rng.randint(0, 4))
    level = rng.randint(1, 6)
    m.case([titles, level])
    text = m.call("contents", MarkdownWriter.table_of_contents, titles)
    found = re.findall(r"^- \[(.*)\]\(#(.*)\)$", text, re.M)
    m.equal(found, [(t, t.lower().replace(" ", "-")) for t in titles], "contents", "every title once, in order")
    for title in titles:
        header = m.call("header", MarkdownWriter.header, title, level)
        m.equal(header.rstrip("\n"), "#" * level + " " + title, "header", "")
        m.check(header.endswith("\n\n"), "header", "")
    with tempfile.TemporaryDirectory(prefix="vmon_c24_") as scratch:
        path = os.path.join(scratch, "f.md")
        m.call("write", MarkdownWriter.write_to_file, path, text)
        with open(path, encoding="utf-8", newline="") as file:
            m.equal(file.read(), text, "written", "")


VALUES = []


class Producer(DessiaObject):
    """ Gives workflows a value of any kind. """

    def __init__(self, index: int, name: str = ""):
        self.index = index
        self.result = VALUES[index]
        DessiaObject.__init__(self, name=name)


@scenario("C24", 40, 600)
def workflow_reports(rng, m):
    """ Reports of workflow runs, whatever the output is. """
    value = make_value(rng)
    VALUES[:] = [value]
    block, reader = InstantiateModel(Producer, name="make"), ModelAttribute("result", name="read")
    m.case([value, type(value).__name__])
    whole = rng.random() < .3
    blocks, pipes = ([block], []) if whole else ([block, reader], [Pipe(block.outputs[0], reader.inputs[0])])
    workflow = Workflow(blocks, pipes, output=(block if whole else reader).outputs[0], name="wf")
    values = {i: {"index": 0, "name": "out"}[v.name] for i, v in enumerate(workflow.inputs)}
    run = m.call("run", workflow.run, values)
    text = m.call("run-markdown", run.to_markdown)
    tables = extract_tables(text)
    if whole:
        check_table(m, tables[0], ["attribute", "type", "value"], object_content(run.output_value), 25, None)
    elif isinstance(value, (list, tuple)):
        m.check(f"sequence of {len(value)} elements" in text, "output-report", "", text)
    elif isinstance(value, (dict, str)) or value is None or isinstance(value, (int, float, complex)):
        check_cell(m, cells_of(tables[0].split("\n")[2])[-1], value, 25)
    elif isinstance(value, DessiaObject):
        check_table(m, tables[0], ["attribute", "type", "value"], object_content(value), 25, None)
    for used in blocks:
        m.check(used.name in tables[-1], "block-report", "every evaluated block", text)
    stream = BinaryFile("a.docx")
    m.call("run-docx", run.to_docx_stream, stream)
