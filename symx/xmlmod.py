"""The XML reader, run on files with symbolic text.

The reader's current source is compiled with every ``a in b`` going through
``contains`` (Python's own str and set membership cannot take symbolic text);
the file is a real file read by the real lxml, symbolic characters standing in
it as private-use characters which turn back into symbolic text on the way out."""
from __future__ import annotations

import ast
import importlib
import os
import pathlib
import re
import types

from . import engine
from .values import SymStr, has_ph, is_ph, symbolic_tables

NAME = "pyudunits2._udunits2_xml_parser"


def contains(a, b):
    if type(a) is SymStr:
        if type(b) is str:
            b = SymStr.of(b)
        if isinstance(b, (set, frozenset, dict)):
            b = list(b)
    elif isinstance(a, str) and isinstance(b, (set, frozenset, dict)):
        if any(type(x) is SymStr for x in b):
            b = list(b)
    return a in b


class _In(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(
                ast.Name("__symx_contains__", ast.Load()), [node.left, node.comparators[0]], []
            )
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node


def _unwrap(x):
    return x._symx_obj if type(x) is Proxy else x


TAG = re.compile("symxtag([a-z]+)")


def tag(ctx, name, text):
    """A tag name to write in the file for a symbolic tag name."""
    if not ctx.symbolic:
        return text
    tags = ctx.__dict__.setdefault("xml_tags", {})
    tags[name] = text
    return "symxtag" + name


def wrap(x):
    if isinstance(x, str):
        ctx = engine.CUR
        m = TAG.search(x)
        if m and ctx is not None:
            return x[: m.start()] + ctx.xml_tags[m.group(1)] + x[m.end() :]
        if has_ph(x) and ctx is not None:
            if all(not is_ph(c) or ctx.ph_entry(c)[0] == "char" for c in x):
                return SymStr.of(x)
        return str(x)
    if x is None or isinstance(x, (bool, int, float, bytes, type)):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(wrap(i) for i in x)
    if isinstance(x, dict):
        return {k: wrap(v) for k, v in x.items()}
    return Proxy(x)


class Proxy:
    """Passes everything on to the lxml object; text comes back symbolic."""

    __slots__ = ("_symx_obj",)

    def __init__(self, obj):
        self._symx_obj = obj

    @property
    def __class__(self):
        return type(self._symx_obj)

    def __getattr__(self, name):
        return wrap(getattr(self._symx_obj, name))

    def __call__(self, *a, **k):
        return wrap(
            self._symx_obj(*[_unwrap(x) for x in a], **{n: _unwrap(x) for n, x in k.items()})
        )

    def __iter__(self):
        return (wrap(x) for x in self._symx_obj)

    def __next__(self):
        return wrap(next(self._symx_obj))

    def __len__(self):
        return len(self._symx_obj)

    def __getitem__(self, k):
        return wrap(self._symx_obj[k])

    def __eq__(self, o):
        return self._symx_obj is _unwrap(o)

    def __hash__(self):
        return id(self._symx_obj)

    def __enter__(self):
        return wrap(self._symx_obj.__enter__())

    def __exit__(self, *a):
        return self._symx_obj.__exit__(*a)


_CODE = {}


def module(ctx):
    """The reader: the real module, or its symbolic twin."""
    real = importlib.import_module(NAME)
    if not ctx.symbolic:
        return real
    path = real.__file__
    if path not in _CODE:
        tree = ast.fix_missing_locations(_In().visit(ast.parse(pathlib.Path(path).read_text())))
        _CODE[path] = compile(tree, path, "exec", dont_inherit=True)
    mod = types.ModuleType(NAME)
    mod.__file__ = path
    mod.__package__ = "pyudunits2"
    mod.__dict__["__symx_contains__"] = contains
    exec(_CODE[path], mod.__dict__)
    for k, v in list(mod.__dict__.items()):
        if isinstance(v, types.ModuleType) and v.__name__.startswith(("lxml", "xml.")):
            setattr(mod, k, Proxy(v))
    base = mod.__dict__.get("UnitSystem")
    if isinstance(base, type):

        class UnitSystem(base):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                symbolic_tables(self)

        mod.UnitSystem = UnitSystem
    return mod


def read(ctx, text, reader="UDUNITS2XMLParser"):
    """Parse the text of a unit database with the real reader."""
    import tempfile

    mod = module(ctx)
    fd, name = tempfile.mkstemp(suffix=".xml", prefix="symx-")
    try:
        with os.fdopen(fd, "w", encoding="utf-8") as fh:
            fh.write(text)
        return getattr(mod, reader).parse_file(pathlib.Path(name))
    finally:
        os.unlink(name)
