# coding=utf-8
"""
Models of the environment used during symbolic execution (and the matching real I/O of the concrete replay):
XML files, CSV files, uuids, directories.  All of them are assumptions of the encoding and are listed in the evidence.
"""
import builtins
import csv
import io
import os
import pathlib
import re
import tempfile
import uuid
import xml.dom.minidom as minidom
import xml.etree.ElementTree as ET
from xml.parsers import expat
from xml.sax.saxutils import escape

from . import core
from .core import SymStr, deep_pin, mk, parts_of, pin, plain, sym_text
from .instrument import MODELS, METHOD_MODELS, method_model, model


# ---------------------------------------------------------------------------------------------------------
# neutral XML trees

class X(object):
    """XML element; children is a list of X, str (text), Comment"""

    def __init__(self, tag, attrs=None, *children):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.children = list(children)

    def add(self, *c):
        self.children.extend(c)
        return self

    @property
    def local(self):
        return self.tag.split(":")[-1]

    def kids(self, name=None):
        return [c for c in self.children if isinstance(c, X) and (name is None or c.local == name)]

    def iter(self):
        yield self
        for c in self.children:
            if isinstance(c, X):
                for d in c.iter():
                    yield d

    def text(self):
        out = []
        for c in self.children:
            if isinstance(c, str):
                out.extend(parts_of(c))
            elif isinstance(c, CData):
                out.extend(parts_of(c.data))
        return mk(out)


class Comment(object):
    def __init__(self, data, pi=False):
        self.data = data
        self.pi = pi


class CData(object):
    """a text written as a CDATA section"""

    def __init__(self, data):
        self.data = data


def _attr_escape(s):
    s = escape(s, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
    return s


def serialize(x):
    """independent serializer of a neutral tree (plain strings)"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n']

    def w(n):
        out.append("<" + n.tag)
        for k, v in n.attrs.items():
            out.append(' %s="%s"' % (k, _attr_escape(v)))
        if not n.children:
            out.append("/>")
            return
        out.append(">")
        for c in n.children:
            if isinstance(c, X):
                w(c)
            elif isinstance(c, Comment):
                out.append("<?%s?>" % c.data if c.pi else "<!--%s-->" % c.data)
            elif isinstance(c, CData):
                out.append("<![CDATA[%s]]>" % c.data.replace("]]>", "]]]]><![CDATA[>"))
            else:
                out.append(escape(c).replace("\r", "&#13;"))
        out.append("</%s>" % n.tag)
    w(x)
    return "".join(out)


def parse_file(path):
    """independent reader (expat) of an XML file into a neutral tree"""
    p = expat.ParserCreate()
    p.buffer_text = True
    root = []
    stack = []

    def start(tag, attrs):
        n = X(tag, attrs)
        if stack:
            stack[-1].children.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def chars(d):
        if stack:
            stack[-1].children.append(d)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    with builtins.open(path, "rb") as f:
        p.ParseFile(f)
    return root[0]


def to_dom(x):
    doc = minidom.Document()

    def build(n, ns):
        ns = dict(ns)
        for k, v in n.attrs.items():
            if k == "xmlns":
                ns[""] = plain(v)
            elif k.startswith("xmlns:"):
                ns[k[6:]] = plain(v)
        prefix = n.tag.split(":")[0] if ":" in n.tag else ""
        if prefix and prefix not in ns:
            raise expat.ExpatError("unbound prefix")
        e = doc.createElementNS(ns.get(prefix), n.tag)
        for k, v in n.attrs.items():
            p = k.split(":")[0] if ":" in k else ("xmlns" if k == "xmlns" else None)
            uri = "http://www.w3.org/2000/xmlns/" if p == "xmlns" else (ns.get(p) if p else None)
            e.setAttributeNS(uri, k, v)
        for c in n.children:
            if isinstance(c, X):
                e.appendChild(build(c, ns))
            elif isinstance(c, Comment):
                if c.pi:
                    t, _, d = c.data.partition(" ")
                    e.appendChild(doc.createProcessingInstruction(t, d))
                else:
                    e.appendChild(doc.createComment(c.data))
            elif isinstance(c, CData):
                if c.data != "":
                    e.appendChild(doc.createCDATASection(c.data))
            else:
                if c == "":
                    continue
                last = e.lastChild
                if last is not None and last.nodeType == last.TEXT_NODE:
                    last.data = last.data + c
                else:
                    e.appendChild(doc.createTextNode(c))
        return e
    doc.appendChild(build(x, {"xml": "http://www.w3.org/XML/1998/namespace"}))
    return doc


def to_et(x, ns=None):
    """what ElementTree.parse makes of the tree: names qualified, comments dropped"""
    ns = dict(ns or {"xml": "http://www.w3.org/XML/1998/namespace"})
    for k, v in x.attrs.items():
        if k == "xmlns":
            ns[""] = plain(v)
        elif k.startswith("xmlns:"):
            ns[k[6:]] = plain(v)

    def q(name, dflt):
        p, _, l = name.rpartition(":")
        if p and p not in ns:
            raise ET.ParseError("unbound prefix")
        u = ns.get(p) if p or dflt else None
        return "{%s}%s" % (u, l) if u else l
    e = ET.Element(q(x.tag, True), {q(k, False): v for k, v in x.attrs.items()
                                    if k != "xmlns" and not k.startswith("xmlns:")})
    last = None
    for c in x.children:
        if isinstance(c, X):
            last = to_et(c, ns)
            e.append(last)
        elif isinstance(c, (str, CData)):
            t = c.data if isinstance(c, CData) else c
            if t == "":
                continue
            if last is None:
                e.text = (e.text or "") + t
            else:
                last.tail = (last.tail or "") + t
    return e


def from_et(root, default_namespace=None):
    """snapshot of an ElementTree element as ElementTree.write would serialise it"""
    known = {}

    def name(t, attr=False):
        if isinstance(t, ET.QName):
            t = t.text
        if not isinstance(t, str):
            raise TypeError("cannot serialize %r (type %s)" % (t, type(t).__name__))
        t = pin(t) if isinstance(t, SymStr) else plain(t)
        if t[:1] != "{":
            if default_namespace and not attr:
                raise ValueError("cannot use non-qualified names with default_namespace option")
            return t
        uri, _, l = t[1:].rpartition("}")
        if uri == default_namespace and not attr:
            known[uri] = ""
            return l
        if uri not in known:
            known[uri] = ET._namespace_map.get(uri) or "ns%d" % len(known)
        return "%s:%s" % (known[uri], l) if known[uri] else l

    def text(t):
        if t is not None and not isinstance(t, str):
            raise TypeError("cannot serialize %r (type %s)" % (t, type(t).__name__))
        return t

    def conv(e):
        if e.tag is ET.Comment:
            return Comment(pin(text(e.text)) or "")
        if e.tag is ET.ProcessingInstruction:
            return Comment(pin(text(e.text)) or "", pi=True)
        n = X(name(e.tag))
        for k, v in e.items():
            if isinstance(v, ET.QName):
                v = name(v)
            if not isinstance(v, str):
                raise TypeError("cannot serialize %r (type %s)" % (v, type(v).__name__))
            n.attrs[name(k, True)] = v
        if text(e.text):
            n.children.append(e.text)
        for c in e:
            n.children.append(conv(c))
            if text(c.tail):
                n.children.append(c.tail)
        return n
    out = conv(root)
    for uri, p in known.items():
        if p != "xml":
            out.attrs["xmlns:" + p if p else "xmlns"] = uri
    return out


# ---------------------------------------------------------------------------------------------------------
# virtual files

def vpath(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, SymStr):
        p = pin(p)
    return os.path.normpath(p) if isinstance(p, str) and p.startswith("/vfs/") else None


def vdir(p):
    """is there a virtual directory of this name?"""
    return p == "/vfs" or p in core.CUR.vdirs or any(f.startswith(p + "/") for f in core.CUR.vfs)


def parent(p):
    """what is written needs a directory to be in, and must not be one"""
    if not vdir(os.path.dirname(p)):
        raise FileNotFoundError(2, "No such file or directory", p)
    if vdir(p):
        raise IsADirectoryError(21, "Is a directory", p)


def materialise(p):
    """write a virtual file to a real temporary one (pinning its content)"""
    kind, data = core.CUR.vfs[p]
    if core.CUR.tmp is None:
        core.CUR.tmp = tempfile.mkdtemp(prefix="vsymm_")
    real = os.path.join(core.CUR.tmp, p.replace("/", "_"))
    if kind == "xml":
        with builtins.open(real, "w", encoding="utf-8") as f:
            f.write(serialize(pin_tree(data)))
    else:
        with builtins.open(real, "w", encoding="utf-8", newline="") as f:
            f.write(pin(csv_text(data)) if kind == "csv" else pin(data))
    return real


def pin_tree(x):
    def child(c):
        if isinstance(c, CData):
            return CData(pin(c.data))
        return pin_tree(c) if isinstance(c, X) else c if isinstance(c, Comment) else pin(c)
    return X(x.tag, {k: pin(v) for k, v in x.attrs.items()}, *[child(c) for c in x.children])


def missing(p):
    if p not in core.CUR.vfs:
        raise FileNotFoundError(2, "No such file or directory", p)


@method_model(ET.ElementTree.write)
def _et_write(self, file_or_filename, encoding=None, xml_declaration=None, default_namespace=None, method=None, **kw):
    p = vpath(file_or_filename) if not hasattr(file_or_filename, "write") else None
    if method not in (None, "xml"):
        raise NotImplementedError("ElementTree.write options")
    if p is None and isinstance(file_or_filename, VFile):
        tree = from_et(self.getroot(), default_namespace)
        file_or_filename.segments = [("raw", "<two/><documents/>")] if file_or_filename.segments else [("xml", tree)]
        return
    if p is None:
        return ET.ElementTree.write(self, file_or_filename, encoding, xml_declaration, default_namespace, method, **kw)
    parent(p)
    core.CUR.vfs[p] = ("xml", from_et(self.getroot(), default_namespace))


@model(minidom.parse)
def _mini_parse(file, parser=None, bufsize=None):
    if isinstance(file, VFile):
        file = file.path
    p = vpath(file)
    if p is None:
        return minidom.parse(file, parser, bufsize)
    missing(p)
    kind, data = core.CUR.vfs[p]
    if kind == "xml":
        return to_dom(data)
    return minidom.parse(materialise(p))


@model(ET.parse)
def _et_parse(source, parser=None):
    if isinstance(source, VFile):
        source = source.path
    p = vpath(source)
    if p is None:
        return ET.parse(source, parser)
    missing(p)
    return ET.parse(materialise(p), parser)


@model(os.makedirs)
def _makedirs(name, mode=0o777, exist_ok=False):
    p = vpath(name)
    if p is None:
        return os.makedirs(deep_pin(name), mode, exist_ok)
    if p in core.CUR.vfs or vdir(p) and not exist_ok:
        raise FileExistsError(17, "File exists", p)
    while len(p) > len("/vfs"):
        core.CUR.vdirs.add(p)
        p = os.path.dirname(p)


@model(os.mkdir)
def _mkdir(name, *a, **k):
    p = vpath(name)
    if p is None:
        return os.mkdir(deep_pin(name), *a, **k)
    if p in core.CUR.vfs or vdir(p):
        raise FileExistsError(17, "File exists", p)
    if not vdir(os.path.dirname(p)):
        raise FileNotFoundError(2, "No such file or directory", p)
    core.CUR.vdirs.add(p)


@model(os.path.exists)
def _exists(p):
    q = vpath(p)
    if q is None:
        return os.path.exists(deep_pin(p))
    return q in core.CUR.vfs or vdir(q)


@model(os.path.isfile)
def _isfile(p):
    q = vpath(p)
    return os.path.isfile(deep_pin(p)) if q is None else q in core.CUR.vfs


@method_model(pathlib.Path.mkdir)
def _path_mkdir(self, mode=0o777, parents=False, exist_ok=False):
    p = vpath(self)
    if p is None:
        return pathlib.Path.mkdir(self, mode, parents, exist_ok)
    if exist_ok and vdir(p):
        return None
    return _makedirs(p, mode) if parents else _mkdir(p, mode)


@method_model(pathlib.Path.exists)
def _path_exists(self):
    return _exists(self)


@method_model(pathlib.Path.is_file)
def _path_is_file(self):
    return _isfile(self)


@method_model(pathlib.Path.is_dir)
def _path_is_dir(self):
    return _isdir(self)


@method_model(pathlib.Path.open)
def _path_open(self, mode="r", *a, **k):
    return _open(self, mode, *a, **k)


@method_model(pathlib.Path.unlink)
def _path_unlink(self, *a, **k):
    return _remove(self, *a, **k)


def _remove(p, **k):
    q = vpath(p)
    if q is None:
        return os.remove(deep_pin(p), **k)
    missing(q)
    del core.CUR.vfs[q]


model(os.remove)(_remove)
model(os.unlink)(_remove)


def _rename(a, b, **k):
    p, q = vpath(a), vpath(b)
    if p is None or q is None:
        raise NotImplementedError("renaming between virtual and real files")
    missing(p)
    parent(q)
    core.CUR.vfs[q] = core.CUR.vfs.pop(p)


model(os.rename)(_rename)
model(os.replace)(_rename)


@model(os.path.isdir)
def _isdir(p):
    q = vpath(p)
    if q is None:
        return os.path.isdir(deep_pin(p))
    return vdir(q)


class VFile(object):
    """a text file being written"""

    def __init__(self, path, append=False):
        self.path = path
        self.segments = []          # ("raw", str) | ("row", [fields])
        self.closed = False
        kind, data = core.CUR.vfs[path]
        if append and kind == "segs":
            self.segments = list(data)
        elif append and kind in ("text", "csv"):
            self.segments = [("raw", data)] if kind == "text" else [("row", (list(r), "\n")) for r in data]
        elif append:
            self.segments = [("xml", data)]

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.segments.append(("raw", s))
        return str.__len__(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        self._store()

    def _store(self):
        if len(self.segments) == 1 and self.segments[0][0] == "xml":
            core.CUR.vfs[self.path] = ("xml", self.segments[0][1])
        else:
            core.CUR.vfs[self.path] = ("segs", list(self.segments))

    def close(self):
        self.closed = True
        self._store()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


@model(builtins.open)
def _open(file, mode="r", *a, **k):
    p = vpath(file)
    if p is None:
        return builtins.open(deep_pin(file), mode, *a, **k)
    if "x" in mode and p in core.CUR.vfs:
        raise FileExistsError(17, "File exists", p)
    if "w" in mode or "a" in mode or "x" in mode:
        parent(p)
        if "a" not in mode or p not in core.CUR.vfs:
            core.CUR.vfs[p] = ("segs", [])
        return VFile(p, "a" in mode)
    missing(p)
    return builtins.open(materialise_any(p), mode, *a, **k)


model(io.open)(_open)


def materialise_any(p):
    kind, data = core.CUR.vfs[p]
    if kind == "segs":
        data = segs_text(data)
        core.CUR.vfs[p] = ("text", data)
    return materialise(p)


def _quote(field, terminator="\r\n"):
    """csv QUOTE_MINIMAL rendering of a field"""
    field = sym_text(field)
    if isinstance(field, SymStr):
        f = plain(field)
        import z3
        special = any(c in f for c in ',"\r\n')
        if core.CUR.branch(z3.InRe(field.z(), z3.Concat(core._any(), core.char_class(',"\r\n'), core._any())),
                           special, field.vars()):
            field = pin(field)
        else:
            return field
    if any(c in field for c in ',"\r\n'):
        return '"' + field.replace('"', '""') + '"'
    return field


def segs_text(segs):
    out = []
    for kind, d in segs:
        if kind == "raw":
            out.extend(parts_of(d))
        else:
            fields, term = d
            for i, f in enumerate(fields):
                if i:
                    out.append(",")
                out.extend(parts_of(_quote(f)))
            out.append(term)
    return mk(out)


def csv_text(rows):
    return segs_text([("row", (r, "\n")) for r in rows])


class VWriter(object):
    def __init__(self, f, term):
        self.f = f
        self.term = term

    def writerow(self, row):
        self.f.segments.append(("row", (["" if x is None else sym_text(x) for x in row], self.term)))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


@model(csv.writer)
def _csv_writer(f, dialect="excel", **kw):
    simple = dialect in ("excel", csv.excel) and set(kw) <= {"lineterminator", "quoting"} and \
        kw.get("quoting", csv.QUOTE_MINIMAL) in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC)
    if isinstance(f, VFile) and simple:
        return VWriter(f, kw.get("lineterminator", "\r\n"))
    if isinstance(f, VFile):
        class Pinning(object):
            def __init__(self):
                self.w = csv.writer(f, dialect, **kw)

            def writerow(self, row):
                return self.w.writerow(deep_pin(list(row)))

            def writerows(self, rows):
                for r in rows:
                    self.writerow(r)
        return Pinning()
    return csv.writer(f, dialect, **kw)


class VDictWriter(object):
    def __init__(self, f, fieldnames, term, restval="", extrasaction="raise"):
        self.w = VWriter(f, term)
        self.fieldnames = list(fieldnames)
        self.restval = restval
        self.extrasaction = extrasaction

    def writeheader(self):
        self.w.writerow(self.fieldnames)

    def writerow(self, d):
        if self.extrasaction == "raise":
            extra = [k for k in d if k not in self.fieldnames]
            if extra:
                raise ValueError("dict contains fields not in fieldnames: %r" % (extra,))
        self.w.writerow([d.get(k, self.restval) for k in self.fieldnames])

    def writerows(self, ds):
        for d in ds:
            self.writerow(d)


@model(csv.DictWriter)
def _dict_writer(f, fieldnames, restval="", extrasaction="raise", dialect="excel", **kw):
    if isinstance(f, VFile):
        return VDictWriter(f, fieldnames, kw.get("lineterminator", "\r\n"), restval, extrasaction)
    return csv.DictWriter(f, fieldnames, restval, extrasaction, dialect, **kw)


def vfs_rows(p):
    """the records of a virtual CSV file; raw text is cut at its constant commas/newlines when the symbolic pieces
    cannot contain separators, otherwise it is pinned and read with the csv module"""
    kind, data = core.CUR.vfs[p]
    if kind == "csv":
        return [list(r) for r in data]
    if kind == "text":
        data = [("raw", data)]
    rows = []
    raw = []

    def flush():
        if raw:
            rows.extend(text_rows(mk(list(raw))))
            del raw[:]
    for k, d in data:
        if k == "raw":
            raw.extend(parts_of(d))
        else:
            flush()
            rows.append(list(d[0]))
    flush()
    return rows


def text_rows(text):
    import z3
    if not isinstance(text, SymStr):
        return [r for r in csv.reader(io.StringIO(text, newline="")) if r]
    clean = True
    for p in text.parts:
        if isinstance(p, str):
            if '"' in p:
                clean = False
            continue
        if p.kind == "num":
            continue
        special = any(c in p.val for c in ',"\r\n')
        if core.CUR.branch(z3.InRe(p.z(), z3.Concat(core._any(), core.char_class(',"\r\n'), core._any())), special,
                           p.vars):
            clean = False
            break
    if not clean:
        return [r for r in csv.reader(io.StringIO(pin(text), newline="")) if r]
    rows = []
    for line in text.split("\n"):
        if not isinstance(line, SymStr) and line.strip() == "":
            continue
        rows.append(line.split(","))
    return rows


# ---------------------------------------------------------------------------------------------------------
# pandas.read_csv: the real pandas on the concrete text, symbolic cells put back where pandas keeps the text

NA_VALUES = ["", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A",
             "NA", "NULL", "NaN", "None", "n/a", "nan", "null"]


_CSV_KNOWN = ("index_col", "dtype", "keep_default_na", "na_filter", "encoding", "sep", "delimiter", "header", "names", "skiprows",
              "engine", "low_memory", "memory_map")
_CSV_FIXED = {"sep": (",",), "delimiter": (",", None), "engine": ("c", "python", None)}


def install_pandas():
    import pandas as pd
    import z3

    @model(pd.read_csv)
    def _read_csv(path, *a, **kw):
        if isinstance(path, VFile):
            path = path.path
        p = vpath(path)
        if p is None:
            return pd.read_csv(deep_pin(path), *a, **deep_pin(kw))
        missing(p)
        rows = vfs_rows(p)
        text = io.StringIO(newline="")
        w = csv.writer(text, lineterminator="\n")
        for r in rows:
            w.writerow([plain(x) for x in r])
        df = pd.read_csv(io.StringIO(text.getvalue()), *a, **kw)
        sym = any(isinstance(x, SymStr) for r in rows for x in r)
        if not sym:
            return df
        header = [plain(x) for x in rows[0]]
        if kw.get("names") is not None and len(kw["names"]) == len(header) and (kw.get("header") == 0 or kw.get("skiprows") == 1):
            header = list(kw["names"])
        body = rows[1:]
        idx = kw.get("index_col")
        plain_ok = len(df) == len(body) and (idx in (None, 0, False) or idx == header[0])
        if not plain_ok:
            for r in rows:
                deep_pin(r)
            return df
        keep = kw.get("dtype") in (str, object, "str", "object")
        na_off = kw.get("keep_default_na") is False or kw.get("na_filter") is False
        wild = any(k not in _CSV_KNOWN and v is not None or k in _CSV_FIXED and v not in _CSV_FIXED[k] for k, v in kw.items())
        for c, name in enumerate(header):
            cells = [r[c] for r in body if c < len(r)]
            if not any(isinstance(x, SymStr) for x in cells):
                continue
            if c == 0 and idx is not None and idx is not False:
                for x in cells:
                    pin(x)
                continue
            if name not in df.columns:
                for x in cells:
                    pin(x)
                continue
            col = df[name].astype(object)
            for i, x in enumerate(cells):
                if not isinstance(x, SymStr):
                    continue
                got = df[name].iloc[i]
                same = isinstance(got, str) and got == plain(x)
                if not na_off:
                    na = plain(x) in NA_VALUES
                    if core.CUR.branch(z3.Or(*[x.z() == z3.StringVal(v) for v in NA_VALUES]), na, x.vars()):
                        continue
                if not keep:
                    num = bool(re.match(r"^\s*[+-]?(\d|\.\d|inf|Inf|true|false|True|False|TRUE|FALSE)", plain(x)))
                    lead = z3.Concat(z3.Star(core.char_class(" \t")), z3.Option(core.char_class("+-")),
                                     z3.Union(z3.Range("0", "9"), z3.Re("."), z3.Re("inf"), z3.Re("Inf"),
                                              z3.Re("true"), z3.Re("false"), z3.Re("True"), z3.Re("False"),
                                              z3.Re("TRUE"), z3.Re("FALSE")), core._any())
                    num = bool(re.match(r"^[ \t]*[+-]?([0-9]|\.|inf|Inf|true|false|True|False|TRUE|FALSE)", plain(x)))
                    if core.CUR.branch(z3.InRe(x.z(), lead), num, x.vars()):
                        pin(x)
                        continue
                if wild:
                    # options without an encoding: plain words stay as they are, representatives of the rest
                    word = re.compile("[A-Za-z]*\\Z")
                    if core.CUR.branch(z3.Not(z3.InRe(x.z(), z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"))))),
                                       not word.match(plain(x)), x.vars()):
                        pin(x)
                        continue
                if same:
                    col.iloc[i] = x
                else:
                    pin(x)
            df[name] = col
        return df


# ---------------------------------------------------------------------------------------------------------
# uuids: fresh pairwise distinct texts of the uuid shape

class VUuid(core.SymObject):
    def __init__(self, name, text):
        self._name = name
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return repr(self.pinned())

    def __format__(self, spec):
        return format(self.pinned(), spec)

    def __eq__(self, other):
        return isinstance(other, VUuid) and self._name == other._name

    def __hash__(self):
        return hash(self._name)

    def pinned(self):
        return uuid.UUID(pin(self.text))

    @property
    def hex(self):
        c, name = core.CUR, self._name + "h"
        if name not in c.assign:
            c.assign[name] = c.assign[self._name].replace("-", "")
        return c.ident(name, "uuid", "hex")

    @property
    def urn(self):
        return "urn:uuid:" + self.text

    def __getattr__(self, name):
        # other views of the number: of this one value
        return getattr(self.pinned(), name)

    def __int__(self):
        return self.int


def _uuid4():
    c = core.CUR
    n = c.uuid_n = getattr(c, "uuid_n", 0) + 1
    name = "uuid%d" % n
    if name not in c.assign:
        # values with the same beginning, end and last decimal digits: shortened ones are no longer distinct
        c.assign[name] = str(uuid.UUID(int=0x10000000000000008000000000000000 + (n * 10 ** 6 << 64)))
    core.new_fresh(uuid.UUID(c.assign[name]).int)
    return VUuid(name, c.ident(name, "uuid", "uuid"))


model(uuid.uuid4)(_uuid4)
model(uuid.uuid1)(lambda *a, **k: _uuid4())


class Chance(object):
    """
    While a harness runs, small random numbers and the clock repeat: what the code under test draws from less than
    2**48 values may be drawn twice, and two calls may come within one tick.
    """
    SMALL = 2 ** 48

    def __enter__(self):
        import random
        import secrets
        import time
        self.n = 0
        del core.FRESH[:]
        self.saved = []

        def put(mod, name, fn):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)

        def below(k):
            if k < self.SMALL:
                return 0
            self.n += 1
            v = k // 3 + self.n * 10 ** 6
            core.new_fresh(v)
            return v
        put(random, "randint", lambda a, b: a + below(b - a + 1))
        put(random, "randrange", lambda a, b=None, step=1: below(a) if b is None else a + step * below((b - a) // step))
        put(random, "getrandbits", lambda k: below(2 ** k))
        put(secrets, "token_hex", lambda n=32: "%0*x" % (2 * n, below(256 ** n)))
        put(secrets, "randbelow", below)
        put(time, "time", lambda: 1500000000.5)
        put(time, "time_ns", lambda: 1500000000500000000)
        return self

    def __exit__(self, *exc):
        for mod, name, fn in reversed(self.saved):
            setattr(mod, name, fn)
        return False


class ConcUuid(object):
    """replays the uuids of a solver model on the real code"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.real = uuid.uuid4

    def __call__(self):
        self.n += 1
        v = self.ctx.assign.get("uuid%d" % self.n)
        return uuid.UUID(v) if v else self.real()


# ---------------------------------------------------------------------------------------------------------
# harness-side file access, the same calls in both modes

def write_xml(ctx, name, tree):
    path = ctx.outdir() + name
    if ctx.symbolic:
        ctx.vfs[path] = ("xml", tree)
    else:
        with builtins.open(path, "w", encoding="utf-8", newline="") as f:
            f.write(serialize(tree))
    return path


def read_xml(ctx, path):
    if ctx.symbolic:
        missing(path)
        kind, d = ctx.vfs[path]
        if kind != "xml":
            return parse_file(materialise_any(path))
        return d
    return parse_file(path)


def write_csv(ctx, name, rows):
    path = ctx.outdir() + name
    if ctx.symbolic:
        ctx.vfs[path] = ("csv", [list(r) for r in rows])
    else:
        with builtins.open(path, "w", encoding="utf-8", newline="") as f:
            w = csv.writer(f, lineterminator="\n")
            for r in rows:
                w.writerow(r)
    return path


def read_csv(ctx, path):
    if ctx.symbolic:
        missing(path)
        return vfs_rows(path)
    with builtins.open(path, "r", newline="") as f:
        return [r for r in csv.reader(f) if r]


def file_exists(ctx, path):
    if ctx.symbolic:
        return path in ctx.vfs
    return os.path.exists(path)


ASSUMPTIONS = [
    "XML wire fidelity: a document written by xml.etree's serialiser is read back by minidom with the same element "
    "structure, attribute values and text (strings range over XML 1.0 characters without CR); every path is also "
    "replayed with real files",
    "uuid4 returns pairwise distinct texts of the uuid shape which occur in no input text",
    "ids in one document are pairwise distinct NCNames unless the harness says otherwise",
    "directories can be created and files written (I/O errors are outside the claim)",
    "coordinates are real numbers (no floating point rounding) where they are symbolic numbers",
]
