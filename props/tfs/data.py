"""tf.data (record files, batches), tf.train.Example and its parser, tf.random."""
import struct
import sys

import numpy as np


def _example_classes():
    from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
    fd = descriptor_pb2.FileDescriptorProto(name="tfs/example.proto", package="tfs", syntax="proto3")
    F = descriptor_pb2.FieldDescriptorProto

    def msg(name, fields, oneof=None):
        m = fd.message_type.add(name=name)
        if oneof:
            m.oneof_decl.add(name=oneof)
        for i, (n, t, lab, tn) in enumerate(fields):
            f = m.field.add(name=n, number=i + 1, type=t, label=lab)
            if tn:
                f.type_name = ".tfs." + tn
            if oneof:
                f.oneof_index = 0
        return m
    R, O = F.LABEL_REPEATED, F.LABEL_OPTIONAL
    msg("BytesList", [("value", F.TYPE_BYTES, R, None)])
    msg("FloatList", [("value", F.TYPE_FLOAT, R, None)])
    msg("Int64List", [("value", F.TYPE_INT64, R, None)])
    msg("Feature", [("bytes_list", F.TYPE_MESSAGE, O, "BytesList"), ("float_list", F.TYPE_MESSAGE, O, "FloatList"),
                    ("int64_list", F.TYPE_MESSAGE, O, "Int64List")], "kind")
    m = msg("Features", [("feature", F.TYPE_MESSAGE, R, "Features.FeatureEntry")])
    e = m.nested_type.add(name="FeatureEntry")
    e.options.map_entry = True
    e.field.add(name="key", number=1, type=F.TYPE_STRING, label=O)
    e.field.add(name="value", number=2, type=F.TYPE_MESSAGE, label=O, type_name=".tfs.Feature")
    msg("Example", [("features", F.TYPE_MESSAGE, O, "Features")])
    pool = descriptor_pool.DescriptorPool()
    pool.Add(fd)
    fac = message_factory.MessageFactory(pool)
    return {n: fac.GetPrototype(pool.FindMessageTypeByName("tfs." + n)) for n in
            ("BytesList", "FloatList", "Int64List", "Feature", "Features", "Example")}


EX = _example_classes()


class FixedLenFeature:
    def __init__(self, shape, dtype, default_value=None):
        self.shape, self.dtype, self.default_value = list(shape), dtype, default_value


def parse_single_example(serialized, features, example_names=None, name=None):
    t = sys.modules[__package__]
    ex = EX["Example"].FromString(serialized if isinstance(serialized, bytes) else t.N(t.C(serialized))[()])
    out = {}
    for k, d in features.items():
        if k not in ex.features.feature:
            if d.default_value is None:
                raise t.InvalidArgumentError("Feature: %s (data type: %s) is required but could not be found." % (k, d.dtype))
            out[k] = t.C(d.default_value, d.dtype)
            continue
        f = ex.features.feature[k]
        v = getattr(f, f.WhichOneof("kind")).value
        want = {"f": "float_list", "i": "int64_list", "O": "bytes_list"}[t.as_dtype(d.dtype)._np.kind]
        n = int(np.prod(d.shape, dtype=np.int64))
        if f.WhichOneof("kind") != want or len(v) != n:
            raise t.InvalidArgumentError("Key: %s.  Can't parse serialized Example" % k)
        a = np.empty(n, object) if want == "bytes_list" else None
        if a is None:
            a = np.array(list(v), t.as_dtype(d.dtype)._np)
        else:
            a[:] = list(v)
        out[k] = t.T(a.reshape(d.shape))
    return out


class Dataset:
    """a stream of elements"""

    def __init__(self, it):
        self._it = it

    def __iter__(self):
        return iter(self._it())

    def as_numpy_iterator(self):
        t = sys.modules[__package__]
        return (t._map_structure(lambda x: x.numpy(), x) for x in self)

    def get_single_element(self, name=None):
        l = list(self)
        if len(l) != 1:
            raise ValueError("Dataset had %d elements" % len(l))
        return l[0]

    def map(self, fn, *a, **k):
        return Dataset(lambda: (fn(*x) if isinstance(x, tuple) else fn(x) for x in self))

    def take(self, n):
        import itertools
        return Dataset(lambda: itertools.islice(iter(self), n))

    def repeat(self, n=None):
        def g():
            i = 0
            while n is None or i < n:
                yield from self
                i += 1
        return Dataset(g)

    def batch(self, n, drop_remainder=False):
        t = sys.modules[__package__]

        def g():
            buf = []
            for x in self:
                buf.append(x)
                if len(buf) == n:
                    yield t._map_structure(lambda *y: t.F["stack"](list(y)), *buf)
                    buf = []
            if buf and not drop_remainder:
                yield t._map_structure(lambda *y: t.F["stack"](list(y)), *buf)
        return Dataset(g)

    def prefetch(self, *a, **k):
        return self

    @staticmethod
    def from_tensors(x):
        t = sys.modules[__package__]
        return Dataset(lambda: [t._map_structure(t.C, x)])

    @staticmethod
    def from_tensor_slices(x):
        t = sys.modules[__package__]
        return Dataset(lambda: list(t.C(x)))


class TFRecordDataset(Dataset):
    def __init__(self, filenames, compression_type="", **kw):
        t = sys.modules[__package__]
        self.files = [f if isinstance(f, str) else f.decode() for f in ([filenames] if isinstance(filenames, (str, bytes)) else list(filenames))]

        def g():
            for fn in self.files:
                with open(fn, "rb") as h:
                    while True:
                        hd = h.read(12)
                        if len(hd) < 12:
                            break
                        n, = struct.unpack("<Q", hd[:8])
                        d = h.read(n)
                        h.read(4)
                        yield t.C(d)
        super().__init__(g)


_rng = np.random.RandomState(0)


def uniform(shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
    t = sys.modules[__package__]
    d = t.as_dtype(dtype or "float32")._np
    if d.kind == "f":
        return t.T(np.asarray(_rng.uniform(float(minval), 1.0 if maxval is None else float(maxval), t._dims(shape))).astype(d))
    return t.T(np.asarray(_rng.randint(int(minval), int(maxval), t._dims(shape))).astype(d))


def normal(shape, mean=0.0, stddev=1.0, dtype=None, seed=None, name=None):
    t = sys.modules[__package__]
    return t.T(np.asarray(_rng.normal(mean, stddev, t._dims(shape))).astype(t.as_dtype(dtype or "float32")._np))


def set_seed(s):
    _rng.seed(s)


def shuffle(value, seed=None, name=None):
    t = sys.modules[__package__]
    a = t.N(t.C(value))
    return t.T(a[_rng.permutation(len(a))])


def histogram(x, edges, axis=None, weights=None, extend_lower_interval=False, extend_upper_interval=False, dtype=None, name=None):
    """tfp.stats.histogram along one axis: counts of edges[k] <= x < edges[k+1] (the last bin includes its right edge)"""
    t = sys.modules[__package__]
    if weights is not None or extend_lower_interval or extend_upper_interval or dtype is not None or axis is None:
        raise t.NotModelled("histogram options")
    a, e = t.N(t.C(x)), t.N(t.C(edges))
    a = np.moveaxis(a, int(axis), 0)
    k = np.searchsorted(e, a, side="right") - 1
    k = np.where(a == e[-1], len(e) - 2, k)
    return t.T(np.stack([(k == b).sum(0) for b in range(len(e) - 1)]).astype(a.dtype))


def relabel_sequential(label_field, offset=1):
    a = np.asarray(label_field)
    labels = np.unique(a)
    nz = labels[labels != 0]
    inv = np.concatenate([np.zeros(offset, a.dtype), nz])
    fwd = np.zeros(int(labels.max()) + 1 if labels.size else 1, a.dtype)
    fwd[nz] = np.arange(offset, offset + len(nz))
    class Map(np.ndarray):
        pass
    m = inv.view(Map)
    m.in_values, m.out_values = np.concatenate([[0] * (0 in labels), np.arange(offset, offset + len(nz))]).astype(int), np.concatenate([[0] * (0 in labels), nz]).astype(int)
    return fwd[a], fwd, m
