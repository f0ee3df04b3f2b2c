"""Imports the repository's v2 modules without pyarrow, dask and tensorflow (not installed here): the first
two are used only to name column types and to annotate; modules are loaded without the package's __init__."""
import importlib
import os
import sys
import types

from . import detlib as D


class PType(str):
    """A column type, known by how it was made."""


class Schema:
    def __init__(self, items):
        items = list(items)
        self.names = [k for k, _ in items]
        self.types = [t for _, t in items]


class _PA(types.ModuleType):
    Schema = Schema
    DataType = PType
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "schema":
            return Schema
        return lambda *a, **k: PType("%s(%s)" % (name, ", ".join(map(str, a))))


class _Any:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __or__(self, o):
        return self

    __ror__ = __or__


class _Anything(types.ModuleType):
    __path__ = []
    __version__ = "0"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name[:1].isupper():          # a class, usable in annotations and isinstance
            v = type(name, (), {})
            setattr(self, name, v)
            return v
        return _Any()


def load(name):
    """A module below waymo_open_dataset.v2, e.g. 'component' or 'perception.box'."""
    D.pb()
    import pandas  # noqa: F401  (before the stand-in for pyarrow)
    import waymo_open_dataset
    if "pyarrow" not in sys.modules:
        sys.modules["pyarrow"] = _PA("pyarrow")
    for m in ("dask", "dask.dataframe", "tensorflow"):
        if m not in sys.modules:
            sys.modules[m] = _Anything(m)
    sys.modules["dask"].dataframe = sys.modules["dask.dataframe"]
    base = os.path.dirname(waymo_open_dataset.label_pb2.__file__) if hasattr(waymo_open_dataset, "label_pb2") else list(waymo_open_dataset.__path__)[0]
    for sub in ("v2", "v2.perception", "v2.perception.utils", "v2.perception.compat_v1"):
        full = "waymo_open_dataset." + sub
        if full not in sys.modules:
            p = types.ModuleType(full)
            p.__path__ = [base + "/" + sub.replace(".", "/")]
            sys.modules[full] = p
            par, _, leaf = full.rpartition(".")
            setattr(sys.modules[par], leaf, p)
    return importlib.import_module("waymo_open_dataset.v2." + name)
