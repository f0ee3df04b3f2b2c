"""A stand-in for TensorFlow (not installed here): eager tensors over numpy, for running the repository's
TensorFlow modules. `install()` puts it in sys.modules. What it lacks raises NotModelled when called (the
checks skip such cases); tfs/selftest.py runs the repository's own tests of those modules on it."""
import contextlib
import importlib.abc
import importlib.machinery
import sys
import types
import zlib as _zlib

import numpy as np


class NotModelled(Exception):
    """A function of TensorFlow that the stand-in does not have."""


class InvalidArgumentError(ValueError):
    pass


# ------------------------------------------------------------------------------------------- types
class DType:
    def __init__(self, name, np_):
        self.name, self.as_numpy_dtype = name, np_
        self._np = np.dtype(np_)

    is_floating = property(lambda s: s._np.kind == "f")
    is_integer = property(lambda s: s._np.kind in "iu")
    is_bool = property(lambda s: s._np.kind == "b")
    base_dtype = property(lambda s: s)
    min = property(lambda s: np.finfo(s._np).min if s.is_floating else np.iinfo(s._np).min)
    max = property(lambda s: np.finfo(s._np).max if s.is_floating else np.iinfo(s._np).max)
    size = property(lambda s: s._np.itemsize)

    def __eq__(self, o):
        try:
            return as_dtype(o)._np == self._np
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._np)

    def __repr__(self):
        return "tf." + self.name


_DT = {}
for _n, _t in [("float16", np.float16), ("float32", np.float32), ("float64", np.float64), ("int8", np.int8), ("int16", np.int16),
               ("int32", np.int32), ("int64", np.int64), ("uint8", np.uint8), ("uint16", np.uint16), ("uint32", np.uint32),
               ("uint64", np.uint64), ("bool", np.bool_), ("string", np.object_), ("complex64", np.complex64), ("complex128", np.complex128)]:
    _DT[_n] = DType(_n, _t)
_BY_NP = {d._np: d for d in _DT.values()}
float32, float64, int32, int64 = (_DT[k] for k in ("float32", "float64", "int32", "int64"))
bool_, string = _DT["bool"], _DT["string"]


def as_dtype(d):
    if isinstance(d, DType):
        return d
    if isinstance(d, str) and d in _DT:
        return _DT[d]
    n = np.dtype(d)
    return string if n.kind in "OSU" else _BY_NP[n]


class TensorShape(tuple):
    def __new__(cls, dims=()):
        if dims is None:
            raise NotModelled("unknown shapes")
        return tuple.__new__(cls, [None if d is None else int(d) for d in ([dims] if isinstance(dims, int) else dims)])

    rank = ndims = property(len)
    dims = property(list)

    def as_list(self):
        return list(self)

    def num_elements(self):
        return int(np.prod(self, dtype=np.int64))

    def is_fully_defined(self):
        return None not in self

    def concatenate(self, o):
        return self + o

    def with_rank(self, r):
        if len(self) != r:
            raise ValueError("rank")
        return self

    def is_compatible_with(self, o):
        return len(self) == len(o) and all(a is None or b is None or a == b for a, b in zip(self, o))

    def assert_is_compatible_with(self, o):
        if not self.is_compatible_with(o):
            raise ValueError("Shapes %s and %s are incompatible" % (self, o))

    assert_has_rank = with_rank

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return TensorShape(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return TensorShape(list(self) + list(o))

    def __radd__(self, o):
        return TensorShape(list(o) + list(self))

    def __eq__(self, o):
        return isinstance(o, (list, tuple)) and list(self) == list(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return tuple.__hash__(self)


def N(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else np.asarray(x)


def T(a):
    a = np.asarray(a)
    return a.view(Tensor) if type(a) is not Tensor else a


def _flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)
    else:
        yield x


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    if isinstance(k, slice):
        f = lambda v: None if v is None else int(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, np.ndarray) and k.ndim == 0 and k.dtype.kind in "iu":
        return int(k)
    return N(k) if isinstance(k, Tensor) else k


def _pair(a, b):
    """operands of an operator one of which at least is a tensor"""
    if isinstance(a, Variable):
        a = a.value()
    if isinstance(b, Variable):
        b = b.value()
    if isinstance(a, Tensor) and not isinstance(b, Tensor):
        return N(a), _like(b, a.ndt)
    if isinstance(b, Tensor) and not isinstance(a, Tensor):
        return _like(a, b.ndt), N(b)
    if not isinstance(a, Tensor):
        a = convert_to_tensor(a)
        return N(a), _like(b, a.ndt)
    return N(a), N(b)


def _like(x, dt):
    y = N(convert_to_tensor(x))
    if y.dtype == dt or y.dtype.kind == "O":
        return y
    if dt.kind == "f" and y.dtype.kind in "fiu":
        return y.astype(dt)
    if dt.kind in "iu" and y.dtype.kind in "iu":
        return y.astype(dt)
    if dt.kind in "iu" and y.dtype.kind == "f":
        if not isinstance(x, np.ndarray):
            raise TypeError("Cannot convert %r to %s" % (x, dt))
    return y


def _op(f):
    return lambda a, b: T(f(*_pair(a, b)))


def _rop(f):
    return lambda a, b: T(f(*_pair(b, a)))


class Tensor(np.ndarray):
    __array_priority__ = 100

    ndt = property(lambda s: np.ndarray.dtype.__get__(s))

    @property
    def dtype(self):
        return as_dtype(np.ndarray.dtype.__get__(self))

    @property
    def shape(self):
        return TensorShape(np.ndarray.shape.__get__(self))

    def numpy(self):
        a = self.view(np.ndarray)
        return a[()] if a.ndim == 0 else np.array(a)

    def get_shape(self):
        return self.shape

    def eval(self, *a, **k):
        return self.numpy()

    def set_shape(self, s):
        assert self.shape.is_compatible_with(TensorShape(s))

    def __getitem__(self, k):
        return T(N(self)[_key(k)])

    def __setitem__(self, k, v):
        raise TypeError("'Tensor' object does not support item assignment")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iterating over a scalar tensor")
        return (self[i] for i in range(len(N(self))))

    __add__, __radd__ = _op(np.add), _rop(np.add)
    __sub__, __rsub__ = _op(np.subtract), _rop(np.subtract)
    __mul__, __rmul__ = _op(np.multiply), _rop(np.multiply)
    __truediv__, __rtruediv__ = _op(lambda a, b: _div(a, b)), _rop(lambda a, b: _div(a, b))
    __floordiv__, __rfloordiv__ = _op(np.floor_divide), _rop(np.floor_divide)
    __mod__, __rmod__ = _op(np.mod), _rop(np.mod)
    __pow__, __rpow__ = _op(np.power), _rop(np.power)
    __matmul__, __rmatmul__ = _op(np.matmul), _rop(np.matmul)
    __lt__, __le__, __gt__, __ge__ = _op(np.less), _op(np.less_equal), _op(np.greater), _op(np.greater_equal)
    __and__, __rand__ = _op(np.logical_and), _rop(np.logical_and)
    __or__, __ror__ = _op(np.logical_or), _rop(np.logical_or)
    __xor__, __rxor__ = _op(np.logical_xor), _rop(np.logical_xor)
    __neg__ = lambda s: T(-N(s))
    __abs__ = lambda s: T(np.abs(N(s)))
    __invert__ = lambda s: T(np.logical_not(N(s)))
    __hash__ = None

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o

    def __ifloordiv__(self, o):
        return self // o

    def __iand__(self, o):
        return self & o

    def __ior__(self, o):
        return self | o

    def __eq__(self, o):
        if o is None:
            return False
        return T(np.equal(*_pair(self, o)))

    def __ne__(self, o):
        if o is None:
            return True
        return T(np.not_equal(*_pair(self, o)))

    def __bool__(self):
        return bool(N(self))

    def __int__(self):
        return int(N(self))

    def __float__(self):
        return float(N(self))

    def __index__(self):
        return int(N(self))

    def __len__(self):
        return len(N(self))

    def __format__(self, spec):
        return format(N(self)[()] if self.ndim == 0 else N(self), spec)

    def __repr__(self):
        return "tf.Tensor(%r)" % N(self)

    __str__ = __repr__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [N(i) if isinstance(i, Tensor) else i for i in inputs]
        if "out" in kw:
            kw["out"] = tuple(N(o) for o in kw["out"])
        return getattr(ufunc, method)(*ins, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        def un(x):
            if isinstance(x, Tensor):
                return N(x)
            if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
                return type(x)(un(y) for y in x)
            return x
        return func(*un(args), **{k: un(v) for k, v in kwargs.items()})

    def __deepcopy__(self, memo):
        return T(np.array(N(self)))

    def __reduce__(self):
        return (T, (np.array(N(self)),))


def _div(a, b):
    with np.errstate(all="ignore"):
        return np.true_divide(a, b)


def convert_to_tensor(value, dtype=None, name=None, dtype_hint=None, preferred_dtype=None):
    if isinstance(value, Variable):
        value = value.value()
    if isinstance(value, Tensor):
        if dtype is not None and as_dtype(dtype) != value.dtype:
            raise ValueError("Tensor conversion requested dtype %s for Tensor with dtype %s" % (dtype, value.dtype))
        return value
    if isinstance(value, RaggedTensor):
        raise NotModelled("ragged tensors here")
    if value is None:
        raise ValueError("None values not supported.")
    leaves = list(_flat(value))
    if isinstance(value, (list, tuple)) and any(isinstance(x, (np.ndarray, Variable)) for x in leaves):
        parts = [convert_to_tensor(v, dtype) for v in value] if dtype is not None else None
        if parts is None:
            dts = [x.dtype._np if isinstance(x, (Tensor, Variable)) else x.dtype for x in leaves if isinstance(x, (np.ndarray, Variable))]
            parts = [_like(v, dts[0]) for v in value]
        a = np.stack([N(p) for p in parts])
    elif any(isinstance(x, (str, bytes)) for x in leaves):
        def b(x):
            return [b(y) for y in x] if isinstance(x, (list, tuple)) else x.encode() if isinstance(x, str) else x
        a = np.empty((), object)
        if isinstance(value, (list, tuple)):
            a = np.array(b(value), dtype=object)
        else:
            a[()] = b(value)
    else:
        a = np.asarray(value)
        if a.dtype.kind == "U":
            a = np.char.encode(a).astype(object)
        elif a.dtype.kind == "S":
            a = a.astype(object)
        elif a.dtype.kind == "O" and not isinstance(value, np.ndarray):
            raise ValueError("Can't convert %s to Tensor" % type(value))
        if not isinstance(value, (np.ndarray, np.generic)) and not any(isinstance(x, np.generic) for x in leaves):
            if a.dtype == np.float64:
                a = a.astype(np.float32)
            elif a.dtype.kind in "iu":
                if a.size and (a.max() >= 2 ** 31 or a.min() < -2 ** 31):
                    if dtype is None:
                        raise ValueError("out of range for int32")
                else:
                    a = a.astype(np.int32)
        if dtype is not None and a.dtype.kind == "f" and as_dtype(dtype)._np == np.float64 and not isinstance(value, np.ndarray):
            a = np.asarray(value, np.float64)
    if dtype is not None:
        d = as_dtype(dtype)._np
        if a.dtype != d:
            if a.dtype.kind == "f" and d.kind in "iu" and a.size and not isinstance(value, np.ndarray):
                raise TypeError("Cannot convert %r to %s" % (value, d))
            a = a.astype(d)
    elif dtype_hint is not None and a.dtype.kind in "fiu":
        a = _like(a, as_dtype(dtype_hint)._np)
    if isinstance(value, np.ndarray):
        a = np.array(a)
    return T(a)


C = convert_to_tensor


class Variable:
    def __init__(self, initial_value=None, trainable=True, dtype=None, name=None, shape=None, **kw):
        v = initial_value() if callable(initial_value) else initial_value
        self._v = convert_to_tensor(v, dtype)
        self.name = name

    def value(self):
        return self._v

    read_value = value
    dtype = property(lambda s: s._v.dtype)
    shape = property(lambda s: s._v.shape)

    def numpy(self):
        return self._v.numpy()

    def assign(self, v, *a, **k):
        self._v = T(np.broadcast_to(_like(v, self._v.ndt), self._v.shape).astype(self._v.ndt))
        return self._v

    def assign_add(self, v, *a, **k):
        return self.assign(self._v + v)

    def assign_sub(self, v, *a, **k):
        return self.assign(self._v - v)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._v, n)

    def __getitem__(self, k):
        return self._v[k]


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow matmul rmatmul lt le gt ge and or neg abs invert "
           "eq ne bool int float index len").split():
    def _mk(n):
        return lambda s, *a: getattr(s._v, n)(*a)
    setattr(Variable, "__%s__" % _n, _mk("__%s__" % _n))
Variable.__hash__ = object.__hash__


class RaggedTensor:
    """rows of different lengths (one ragged dimension)"""

    def __init__(self, rows):
        self.rows = [convert_to_tensor(r) for r in rows]

    def __getitem__(self, k):
        return self.rows[int(k)]

    def __len__(self):
        return len(self.rows)

    def to_list(self):
        return [r.numpy().tolist() for r in self.rows]


# --------------------------------------------------------------------------------------- functions
F = {}


def f(*names):
    def reg(fn):
        for n in names or (fn.__name__.rstrip("_"),):
            F[n] = fn
        return fn
    return reg


def _ax(axis):
    if axis is None:
        return None
    if isinstance(axis, (list, tuple)):
        return tuple(int(a) for a in axis)
    a = np.asarray(axis)
    return tuple(int(x) for x in a) if a.ndim else int(a)


def _un(name, fn, *also):
    def g(x, name=None):
        x = N(convert_to_tensor(x))
        with np.errstate(all="ignore"):
            return T(np.asarray(fn(x)).astype(x.dtype if fn not in _PRED else np.bool_, copy=False))
    for n in (name,) + also:
        F[n] = g


_PRED = {np.isnan, np.isinf, np.isfinite, np.logical_not}
for _n, _f in [("sin", np.sin), ("cos", np.cos), ("tan", np.tan), ("asin", np.arcsin), ("acos", np.arccos), ("atan", np.arctan),
               ("exp", np.exp), ("log", np.log), ("sqrt", np.sqrt), ("abs", np.abs), ("square", np.square), ("floor", np.floor),
               ("ceil", np.ceil), ("sign", np.sign), ("tanh", np.tanh), ("sinh", np.sinh), ("cosh", np.cosh), ("negative", np.negative),
               ("round", np.rint), ("rint", np.rint), ("log1p", np.log1p), ("expm1", np.expm1), ("reciprocal", np.reciprocal)]:
    _un(_n, _f, "math." + _n)
_un("math.rsqrt", lambda x: 1 / np.sqrt(x))
_un("math.sigmoid", lambda x: 1 / (1 + np.exp(-x)), "sigmoid", "nn.sigmoid")
_un("nn.relu", lambda x: np.maximum(x, 0))
F["identity"] = F["stop_gradient"] = lambda x, name=None: convert_to_tensor(x)
for _n, _f in [("is_nan", np.isnan), ("is_inf", np.isinf), ("is_finite", np.isfinite)]:
    _un("math." + _n, _f)
_un("logical_not", np.logical_not, "math.logical_not")


def _bi(fn, *names):
    def g(x, y, name=None):
        with np.errstate(all="ignore"):
            return T(fn(*_pair(x, y)))
    for n in names:
        F[n] = F["math." + n] = g


def _truncmod(a, b):
    return np.fmod(a, b)


def _no_nan(a, b):
    with np.errstate(all="ignore"):
        return np.where(b == 0, np.zeros((), np.result_type(a.dtype, b.dtype)), _div(a, b)).astype(_div(a[..., None][:0], b[..., None][:0]).dtype if a.ndim and b.ndim else np.result_type(a.dtype, b.dtype) if a.dtype.kind == "f" else np.float64)


for _names, _f in [(("add",), np.add), (("subtract",), np.subtract), (("multiply",), np.multiply), (("divide", "truediv"), _div),
                   (("floordiv",), np.floor_divide), (("mod", "floormod"), np.mod), (("pow",), np.power), (("maximum",), np.maximum),
                   (("minimum",), np.minimum), (("atan2",), np.arctan2), (("equal",), np.equal), (("not_equal",), np.not_equal),
                   (("less",), np.less), (("less_equal",), np.less_equal), (("greater",), np.greater),
                   (("greater_equal",), np.greater_equal), (("logical_and",), np.logical_and), (("logical_or",), np.logical_or),
                   (("logical_xor",), np.logical_xor), (("squared_difference",), lambda a, b: (a - b) ** 2)]:
    _bi(_f, *_names)


@f("math.divide_no_nan", "compat.v1.div_no_nan")
def divide_no_nan(x, y, name=None):
    a, b = _pair(x, y)
    dt = np.result_type(a.dtype, b.dtype)
    if dt.kind in "iu":
        dt = np.dtype(np.float64)
    with np.errstate(all="ignore"):
        return T(np.where(b == 0, np.zeros((), dt), np.true_divide(a, b)).astype(dt))


@f("math.multiply_no_nan")
def multiply_no_nan(x, y, name=None):
    a, b = _pair(x, y)
    return T(np.where(b == 0, np.zeros((), a.dtype), a * b))


def _red(fn, keep=True):
    def g(input_tensor, axis=None, keepdims=False, name=None, **kw):
        x = N(convert_to_tensor(input_tensor))
        r = fn(x, axis=_ax(axis), keepdims=bool(keepdims))
        return T(np.asarray(r).astype(x.dtype, copy=False) if keep else r)
    return g


def _mean(x, axis, keepdims):
    with np.errstate(all="ignore"):
        n = x.size if axis is None else int(np.prod([x.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))], dtype=np.int64))
        s = np.sum(x, axis=axis, keepdims=keepdims)
        return np.true_divide(s, x.dtype.type(n) if x.dtype.kind == "f" else n)


def _ext(fn, low):
    def g(x, axis, keepdims):
        e = -np.inf if low else np.inf
        if x.dtype.kind != "f":
            i = np.iinfo(x.dtype)
            e = i.min if low else i.max
        return fn(x, axis=axis, keepdims=keepdims, initial=x.dtype.type(e)) if x.size == 0 else fn(x, axis=axis, keepdims=keepdims)
    return g


def _lse(x, axis, keepdims):
    m = np.max(x, axis=axis, keepdims=True) if x.size else np.zeros(1, x.dtype)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(all="ignore"):
        r = np.log(np.sum(np.exp(x - m), axis=axis, keepdims=True)) + m
    return r if keepdims else np.squeeze(r, axis=axis) if axis is not None else r.reshape(())


for _n, _g in [("sum", _red(lambda x, axis, keepdims: np.sum(x, axis=axis, keepdims=keepdims))), ("mean", _red(_mean)),
               ("prod", _red(lambda x, axis, keepdims: np.prod(x, axis=axis, keepdims=keepdims))),
               ("max", _red(_ext(np.max, True))), ("min", _red(_ext(np.min, False))),
               ("any", _red(lambda x, axis, keepdims: np.any(x, axis=axis, keepdims=keepdims), False)),
               ("all", _red(lambda x, axis, keepdims: np.all(x, axis=axis, keepdims=keepdims), False)),
               ("std", _red(lambda x, axis, keepdims: np.std(x, axis=axis, keepdims=keepdims))),
               ("variance", _red(lambda x, axis, keepdims: np.var(x, axis=axis, keepdims=keepdims))),
               ("logsumexp", _red(_lse)), ("euclidean_norm", _red(lambda x, axis, keepdims: np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))))]:
    F["reduce_" + _n] = F["math.reduce_" + _n] = _g


@f("argmin", "math.argmin")
def argmin(input, axis=None, output_type=int64, name=None):
    return T(np.asarray(np.argmin(N(C(input)), axis=0 if axis is None else _ax(axis))).astype(as_dtype(output_type)._np))


@f("argmax", "math.argmax")
def argmax(input, axis=None, output_type=int64, name=None):
    return T(np.asarray(np.argmax(N(C(input)), axis=0 if axis is None else _ax(axis))).astype(as_dtype(output_type)._np))


@f("argsort")
def argsort(values, axis=-1, direction="ASCENDING", stable=False, name=None):
    v = N(C(values))
    return T(np.argsort(-v if direction == "DESCENDING" else v, axis=_ax(axis), kind="stable").astype(np.int32))


@f("sort")
def sort(values, axis=-1, direction="ASCENDING", name=None):
    v = np.sort(N(C(values)), axis=_ax(axis))
    return T(np.flip(v, _ax(axis)) if direction == "DESCENDING" else v)


@f("math.top_k", "nn.top_k")
def top_k(input, k=1, sorted=True, name=None):
    v = N(C(input))
    i = np.argsort(-v, axis=-1, kind="stable")[..., :int(k)]
    return T(np.take_along_axis(v, i, -1)), T(i.astype(np.int32))


@f("cumsum", "math.cumsum")
def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
    x, axis = N(C(x)), _ax(axis)
    y = np.flip(x, axis) if reverse else x
    s = np.cumsum(y, axis=axis, dtype=x.dtype)
    if exclusive:
        s = (s - y).astype(x.dtype)
    return T(np.flip(s, axis) if reverse else s)


@f("math.cumprod")
def cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
    if exclusive or reverse:
        raise NotModelled("cumprod")
    x = N(C(x))
    return T(np.cumprod(x, axis=_ax(axis), dtype=x.dtype))


@f("cast", "compat.v1.to_int32")
def cast(x, dtype=int32, name=None):
    d = as_dtype(dtype)._np
    x = N(C(x)) if not isinstance(x, (list, tuple, int, float)) else N(C(x))
    if x.dtype.kind == "f" and d.kind in "iu":
        with np.errstate(all="ignore"):
            return T(np.trunc(x).astype(np.int64).astype(d))
    return T(x.astype(d))


@f("saturate_cast")
def saturate_cast(value, dtype, name=None):
    d, x = as_dtype(dtype), N(C(value))
    return T(np.clip(x, d.min, d.max).astype(d._np))


F["constant"] = lambda value, dtype=None, shape=None, name=None: _shaped(convert_to_tensor(value, dtype), shape)


def _shaped(t, shape):
    if shape is None:
        return t
    shape = _dims(shape)
    return T(np.full(shape, N(t))) if t.ndim == 0 or N(t).size == 1 else T(N(t).reshape(shape))


F["convert_to_tensor"] = F["compat.v1.convert_to_tensor"] = convert_to_tensor


def _dims(shape):
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    if isinstance(shape, np.ndarray) and np.ndim(N(shape)) == 0:
        return (int(shape),)
    return tuple(int(s) for s in shape)


@f("zeros")
def zeros(shape, dtype=float32, name=None):
    return T(np.zeros(_dims(shape), as_dtype(dtype)._np))


@f("ones")
def ones(shape, dtype=float32, name=None):
    return T(np.ones(_dims(shape), as_dtype(dtype)._np))


@f("zeros_like", "compat.v1.zeros_like")
def zeros_like(input, dtype=None, name=None, optimize=True):
    x = N(C(input))
    return T(np.zeros(x.shape, as_dtype(dtype)._np if dtype is not None else x.dtype))


@f("ones_like", "compat.v1.ones_like")
def ones_like(input, dtype=None, name=None, optimize=True):
    x = N(C(input))
    return T(np.ones(x.shape, as_dtype(dtype)._np if dtype is not None else x.dtype))


@f("fill")
def fill(dims, value, name=None):
    v = N(C(value))
    return T(np.full(_dims(dims), v, v.dtype))


@f("eye", "linalg.eye")
def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
    e = np.eye(int(num_rows), None if num_columns is None else int(num_columns), dtype=as_dtype(dtype)._np)
    return T(np.array(np.broadcast_to(e, (_dims(batch_shape) if batch_shape is not None else ()) + e.shape)))


@f("range")
def range_(start, limit=None, delta=1, dtype=None, name=None):
    if limit is None:
        start, limit = 0, start
    if dtype is None:
        dts = [C(v).ndt for v in (start, limit, delta)]
        order = [np.int32, np.int64, np.float32, np.float64]
        dt = max(dts, key=lambda d: order.index(d.type) if d.type in order else 0)
    else:
        dt = as_dtype(dtype)._np
    return T(np.arange(N(C(start))[()], N(C(limit))[()], N(C(delta))[()]).astype(dt))


@f("linspace")
def linspace(start, stop, num, name=None, axis=0):
    s, e = _pair(C(start), C(stop))
    dt = s.dtype if s.dtype.kind == "f" else np.dtype(np.float64)
    return T(np.linspace(s, e, int(num), axis=axis).astype(dt))


@f("shape", "compat.v1.shape")
def shape(input, out_type=int32, name=None):
    return T(np.array(N(C(input)).shape, as_dtype(out_type)._np))


@f("rank")
def rank(input, name=None):
    return T(np.array(N(C(input)).ndim, np.int32))


@f("size")
def size(input, out_type=int32, name=None):
    return T(np.array(N(C(input)).size, as_dtype(out_type)._np))


@f("reshape")
def reshape(tensor, shape, name=None):
    return T(N(C(tensor)).reshape(_dims(shape)))


@f("ensure_shape")
def ensure_shape(x, shape, name=None):
    x = C(x)
    if not x.shape.is_compatible_with(TensorShape(shape)):
        raise InvalidArgumentError("Shape of tensor %s is not compatible with expected shape %s" % (x.shape, shape))
    return x


@f("expand_dims")
def expand_dims(input, axis=None, name=None, dim=None):
    return T(np.expand_dims(N(C(input)), _ax(axis if axis is not None else dim)))


@f("squeeze", "compat.v1.squeeze")
def squeeze(input, axis=None, name=None, squeeze_dims=None):
    return T(np.squeeze(N(C(input)), _ax(axis if axis is not None else squeeze_dims)))


@f("transpose")
def transpose(a, perm=None, conjugate=False, name=None):
    return T(np.transpose(N(C(a)), None if perm is None else _dims(perm)))


@f("linalg.matrix_transpose")
def matrix_transpose(a, name=None):
    return T(np.swapaxes(N(C(a)), -1, -2))


@f("concat")
def concat(values, axis, name=None):
    if not isinstance(values, (list, tuple)):
        values = [values]
    ts = [v if isinstance(v, Tensor) else C(v) for v in values]
    raw = [not isinstance(v, (np.ndarray, Variable)) for v in values]
    dt = next((t.ndt for t, r in zip(ts, raw) if not r), ts[0].ndt)
    return T(np.concatenate([_like(t, dt) if r else N(t) for t, r in zip(ts, raw)], axis=_ax(axis)))


@f("stack")
def stack(values, axis=0, name=None):
    if isinstance(values, Tensor):
        values = list(values)
    dt = next((C(v).ndt for v in values if isinstance(v, (np.ndarray, Variable))), None)
    parts = [N(C(v)) if isinstance(v, Tensor) or dt is None else _like(v, dt) for v in values]
    if len({p.shape for p in parts}) > 1:
        raise InvalidArgumentError("Shapes of all inputs must match")
    return T(np.stack(parts, axis=_ax(axis)))


@f("unstack")
def unstack(value, num=None, axis=0, name=None):
    v = N(C(value))
    return [T(x) for x in np.moveaxis(v, _ax(axis), 0)]


@f("split")
def split(value, num_or_size_splits, axis=0, num=None, name=None):
    v, axis = N(C(value)), _ax(axis)
    n = num_or_size_splits
    if np.ndim(n) == 0:
        return [T(x) for x in np.split(v, int(n), axis)]
    sizes = [int(x) for x in n]
    if -1 in sizes:
        sizes[sizes.index(-1)] = v.shape[axis] - sum(s for s in sizes if s >= 0)
    if sum(sizes) != v.shape[axis]:
        raise InvalidArgumentError("split sizes")
    return [T(x) for x in np.split(v, np.cumsum(sizes)[:-1], axis)]


@f("tile")
def tile(input, multiples, name=None):
    return T(np.tile(N(C(input)), _dims(multiples)))


@f("repeat")
def repeat(input, repeats, axis=None, name=None):
    return T(np.repeat(N(C(input)), N(C(repeats)), axis=_ax(axis)))


@f("broadcast_to")
def broadcast_to(input, shape, name=None):
    return T(np.array(np.broadcast_to(N(C(input)), _dims(shape))))


@f("broadcast_static_shape")
def broadcast_static_shape(a, b):
    return TensorShape(np.broadcast_shapes(tuple(a), tuple(b)))


@f("broadcast_dynamic_shape")
def broadcast_dynamic_shape(a, b):
    return T(np.array(np.broadcast_shapes(_dims(a), _dims(b)), np.int32))


@f("reverse")
def reverse(tensor, axis, name=None):
    return T(np.flip(N(C(tensor)), _ax(axis)))


@f("roll")
def roll(input, shift, axis, name=None):
    return T(np.roll(N(C(input)), _ax(shift), _ax(axis)))


@f("pad")
def pad(tensor, paddings, mode="CONSTANT", constant_values=0, name=None):
    p = [tuple(int(x) for x in r) for r in N(C(paddings))]
    m = mode.lower()
    x = N(C(tensor))
    return T(np.pad(x, p, m, constant_values=constant_values) if m == "constant" else np.pad(x, p, m))


@f("clip_by_value")
def clip_by_value(t, clip_value_min, clip_value_max, name=None):
    x = C(t)
    return F["minimum"](F["maximum"](x, clip_value_min), clip_value_max)


@f("meshgrid")
def meshgrid(*args, **kw):
    return [T(np.array(x)) for x in np.meshgrid(*[N(C(a)) for a in args], indexing=kw.get("indexing", "xy"))]


@f("where")
def where(condition, x=None, y=None, name=None):
    c = N(C(condition))
    if x is None and y is None:
        return T(np.argwhere(c).astype(np.int64).reshape(-1, c.ndim))
    a, b = _pair(x, y)
    return T(np.where(c, a, b))


@f("compat.v1.where")
def where1(condition, x=None, y=None, name=None):
    return where(condition, x, y)


@f("boolean_mask", "compat.v1.boolean_mask")
def boolean_mask(tensor, mask, axis=None, name=None):
    t, m = N(C(tensor)), N(C(mask))
    a = 0 if axis is None else _ax(axis)
    return T(t[(slice(None),) * a + (m,)])


def _bounds(i, n):
    if i.size and (i.min() < 0 or i.max() >= n):
        raise InvalidArgumentError("indices out of range [0, %d)" % n)


@f("gather", "compat.v1.gather")
def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    p, i = N(C(params)), N(C(indices)).astype(np.int64)
    b = int(batch_dims)
    b = b + i.ndim if b < 0 else b
    a = b if axis is None else _ax(axis)
    a = a + p.ndim if a < 0 else a
    _bounds(i, p.shape[a])
    if b == 0:
        return T(np.take(p, i, axis=a))
    out = np.empty(p.shape[:a] + i.shape[b:] + p.shape[a + 1:], p.dtype)
    for k in np.ndindex(*p.shape[:b]):
        out[k] = np.take(p[k], i[k], axis=a - b)
    return T(out)


@f("gather_nd", "compat.v1.gather_nd")
def gather_nd(params, indices, batch_dims=0, name=None, bad_indices_policy=""):
    p, i = N(C(params)), N(C(indices)).astype(np.int64)
    b, n = int(batch_dims), i.shape[-1]
    for d in range(n):
        _bounds(i[..., d], p.shape[b + d])
    if b == 0:
        return T(p[tuple(i[..., d] for d in range(n))] if n else np.broadcast_to(p, i.shape[:-1] + p.shape))
    out = np.empty(i.shape[:-1] + p.shape[b + n:], p.dtype)
    for k in np.ndindex(*p.shape[:b]):
        out[k] = p[k][tuple(i[k][..., d] for d in range(n))]
    return T(out)


@f("scatter_nd")
def scatter_nd(indices, updates, shape, name=None):
    i, u = N(C(indices)).astype(np.int64), N(C(updates))
    out = np.zeros(_dims(shape), u.dtype)
    for d in range(i.shape[-1]):
        _bounds(i[..., d], out.shape[d])
    np.add.at(out, tuple(i[..., d] for d in range(i.shape[-1])), u)
    return T(out)


@f("tensor_scatter_nd_update")
def tensor_scatter_nd_update(tensor, indices, updates, name=None):
    out, i = np.array(N(C(tensor))), N(C(indices)).astype(np.int64)
    for d in range(i.shape[-1]):
        _bounds(i[..., d], out.shape[d])
    out[tuple(i[..., d] for d in range(i.shape[-1]))] = _like(updates, out.dtype)
    return T(out)


@f("tensor_scatter_nd_add")
def tensor_scatter_nd_add(tensor, indices, updates, name=None):
    out, i = np.array(N(C(tensor))), N(C(indices)).astype(np.int64)
    np.add.at(out, tuple(i[..., d] for d in range(i.shape[-1])), _like(updates, out.dtype))
    return T(out)


def _seg(init, fn):
    def g(data, segment_ids, num_segments, name=None):
        d, s = N(C(data)), N(C(segment_ids)).astype(np.int64)
        out = np.full((int(num_segments),) + d.shape[s.ndim:], init(d.dtype), d.dtype)
        s, d = s.reshape(-1), d.reshape((-1,) + d.shape[s.ndim:])
        ok = s >= 0
        fn.at(out, s[ok], d[ok])
        return T(out)
    return g


_low = lambda t: np.finfo(t).min if t.kind == "f" else np.iinfo(t).min
_high = lambda t: np.finfo(t).max if t.kind == "f" else np.iinfo(t).max
F["math.unsorted_segment_max"] = _seg(_low, np.maximum)
F["math.unsorted_segment_min"] = _seg(_high, np.minimum)
F["math.unsorted_segment_sum"] = _seg(lambda t: 0, np.add)


@f("math.segment_sum")
def segment_sum(data, segment_ids, name=None):
    s = N(C(segment_ids))
    return F["math.unsorted_segment_sum"](data, segment_ids, int(s.max()) + 1 if s.size else 0)


@f("unique")
def unique(x, out_idx=int32, name=None):
    x = N(C(x))
    _, first, inv = np.unique(x, return_index=True, return_inverse=True)
    order = np.argsort(first, kind="stable")
    pos = np.empty_like(order)
    pos[order] = np.arange(len(order))
    return T(x[first[order]]), T(pos[inv].astype(as_dtype(out_idx)._np))


@f("math.bincount")
def bincount(arr, weights=None, minlength=None, maxlength=None, dtype=int32, name=None, axis=None, binary_output=False):
    if axis is not None or binary_output:
        raise NotModelled("bincount")
    r = np.bincount(N(C(arr)).reshape(-1), None if weights is None else N(C(weights)).reshape(-1), 0 if minlength is None else int(minlength))
    r = r[:int(maxlength)] if maxlength is not None else r
    return T(r.astype(N(C(weights)).dtype if weights is not None else as_dtype(dtype)._np))


@f("math.confusion_matrix")
def confusion_matrix(labels, predictions, num_classes=None, weights=None, dtype=int32, name=None):
    l, p = N(C(labels)).astype(np.int64), N(C(predictions)).astype(np.int64)
    n = int(num_classes) if num_classes is not None else int(max(l.max(), p.max())) + 1
    out = np.zeros((n, n), as_dtype(dtype)._np)
    np.add.at(out, (l, p), 1 if weights is None else N(C(weights)).astype(out.dtype))
    return T(out)


@f("searchsorted")
def searchsorted(sorted_sequence, values, side="left", out_type=int32, name=None):
    s, v = N(C(sorted_sequence)), N(C(values))
    if s.ndim == 1:
        return T(np.searchsorted(s, v, side).astype(as_dtype(out_type)._np))
    out = np.empty(v.shape, as_dtype(out_type)._np)
    for k in np.ndindex(*s.shape[:-1]):
        out[k] = np.searchsorted(s[k], v[k], side)
    return T(out)


@f("one_hot")
def one_hot(indices, depth, on_value=1, off_value=0, axis=-1, dtype=None, name=None):
    if axis != -1:
        raise NotModelled("one_hot axis")
    i = N(C(indices))
    dt = as_dtype(dtype)._np if dtype is not None else np.dtype(np.float32)
    return T(np.where(i[..., None] == np.arange(int(depth)), on_value, off_value).astype(dt))


@f("sequence_mask")
def sequence_mask(lengths, maxlen=None, dtype=bool_, name=None):
    l = N(C(lengths))
    m = int(maxlen) if maxlen is not None else int(l.max()) if l.size else 0
    return T((np.arange(m) < l[..., None]).astype(as_dtype(dtype)._np))


@f("map_fn")
def map_fn(fn, elems, dtype=None, fn_output_signature=None, **kw):
    flat = elems if isinstance(elems, (list, tuple)) else None
    n = len(N(C(flat[0] if flat is not None else elems)))
    outs = []
    for k in range(n):
        outs.append(fn(type(elems)(C(e)[k] for e in elems) if flat is not None else C(elems)[k]))
    if n == 0:
        raise NotModelled("map_fn over nothing")
    if isinstance(outs[0], (list, tuple)):
        return type(outs[0])(stack([o[j] for o in outs]) for j in range(len(outs[0])))
    return stack(outs)


F["vectorized_map"] = lambda fn, elems, **kw: map_fn(fn, elems)


@f("cond")
def cond(pred, true_fn=None, false_fn=None, name=None):
    return true_fn() if bool(pred) else false_fn()


@f("while_loop")
def while_loop(cond, body, loop_vars, **kw):
    v = list(loop_vars)
    while bool(cond(*v)):
        r = body(*v)
        v = list(r) if isinstance(r, (list, tuple)) else [r]
    return v


@f("py_function", "numpy_function")
def py_function(func=None, inp=(), Tout=None, name=None):
    r = func(*[C(i) for i in inp])
    if isinstance(Tout, (list, tuple)):
        r = r if isinstance(r, (list, tuple)) else [r]
        return [T(np.asarray(x)).astype(as_dtype(t)._np) if not isinstance(x, Tensor) else cast(x, t) for x, t in zip(r, Tout)]
    return cast(T(np.asarray(r)), Tout)


@f("einsum", "linalg.einsum")
def einsum(equation, *inputs, **kw):
    return T(np.einsum(equation.replace(" ", ""), *[N(C(i)) for i in inputs]))


@f("tensordot")
def tensordot(a, b, axes, name=None):
    return T(np.tensordot(N(C(a)), N(C(b)), axes))


@f("matmul", "linalg.matmul")
def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, name=None, **kw):
    a, b = _pair(a, b)
    if transpose_a or adjoint_a:
        a = np.swapaxes(a, -1, -2)
    if transpose_b or adjoint_b:
        b = np.swapaxes(b, -1, -2)
    return T(np.matmul(a, b))


@f("linalg.matvec")
def matvec(a, b, transpose_a=False, **kw):
    a, b = _pair(a, b)
    return T(np.matmul(np.swapaxes(a, -1, -2) if transpose_a else a, b[..., None])[..., 0])


@f("linalg.inv", "compat.v1.matrix_inverse")
def inv(input, adjoint=False, name=None):
    try:
        return T(np.linalg.inv(N(C(input))))
    except np.linalg.LinAlgError as e:
        raise InvalidArgumentError("Input is not invertible.") from e


F["linalg.det"] = lambda x, name=None: T(np.linalg.det(N(C(x))))
F["linalg.solve"] = lambda a, b, **k: T(np.linalg.solve(N(C(a)), N(C(b))))
F["linalg.trace"] = lambda x, name=None: T(np.trace(N(C(x)), axis1=-2, axis2=-1))
F["linalg.diag_part"] = lambda x, **k: T(np.diagonal(N(C(x)), axis1=-2, axis2=-1))
F["linalg.cross"] = lambda a, b, name=None: T(np.cross(N(C(a)), N(C(b))))


@f("linalg.diag")
def diag(diagonal, **kw):
    d = N(C(diagonal))
    return T(d[..., None] * np.eye(d.shape[-1], dtype=d.dtype))


@f("norm", "linalg.norm")
def norm(tensor, ord="euclidean", axis=None, keepdims=None, name=None):
    x = N(C(tensor))
    if ord in ("euclidean", 2):
        r = np.sqrt(np.sum(x * x, axis=_ax(axis), keepdims=bool(keepdims)))
    elif ord == 1:
        r = np.sum(np.abs(x), axis=_ax(axis), keepdims=bool(keepdims))
    elif ord == np.inf:
        r = np.max(np.abs(x), axis=_ax(axis), keepdims=bool(keepdims))
    else:
        raise NotModelled("norm")
    return T(np.asarray(r).astype(x.dtype))


@f("linalg.normalize", "math.l2_normalize")
def normalize(tensor, ord="euclidean", axis=None, name=None, **kw):
    n = norm(tensor, ord, axis, True)
    return C(tensor) / n, n


@f("add_n", "math.add_n")
def add_n(inputs, name=None):
    r = C(inputs[0])
    for x in inputs[1:]:
        r = r + C(x)
    return r


@f("histogram_fixed_width_bins")
def histogram_fixed_width_bins(values, value_range, nbins=100, dtype=int32, name=None):
    v = N(C(values))
    lo, hi = [float(x) for x in value_range]
    i = np.floor(nbins * ((v - v.dtype.type(lo)) / v.dtype.type(hi - lo)))
    return T(np.clip(i, 0, int(nbins) - 1).astype(as_dtype(dtype)._np))


@f("histogram_fixed_width")
def histogram_fixed_width(values, value_range, nbins=100, dtype=int32, name=None):
    b = N(histogram_fixed_width_bins(values, value_range, nbins)).reshape(-1)
    return T(np.bincount(b, minlength=int(nbins)).astype(as_dtype(dtype)._np))


@f("nn.softmax", "math.softmax")
def softmax(logits, axis=-1, name=None):
    x = N(C(logits))
    e = np.exp(x - np.max(x, axis=axis, keepdims=True))
    return T(e / np.sum(e, axis=axis, keepdims=True))


for _n, _f in [("bitwise_and", np.bitwise_and), ("bitwise_or", np.bitwise_or), ("bitwise_xor", np.bitwise_xor),
               ("left_shift", np.left_shift), ("right_shift", np.right_shift)]:
    F["bitwise." + _n] = (lambda g: lambda x, y, name=None: T(g(*_pair(x, y))))(_f)


@f("bitcast")
def bitcast(input, type, name=None):
    x, d = N(C(input)), as_dtype(type)._np
    if x.dtype.itemsize == d.itemsize:
        return T(np.ascontiguousarray(x).view(d))
    if x.dtype.itemsize > d.itemsize:
        return T(np.ascontiguousarray(x[..., None]).view(d))
    r = np.ascontiguousarray(x).view(d)
    return T(r[..., 0])


@f("slice")
def slice_(input_, begin, size, name=None):
    x = N(C(input_))
    return T(x[tuple(slice(b, None if s == -1 else b + s) for b, s in zip(_dims(begin), _dims(size)))])


@f("strings.as_string", "as_string")
def as_string(input, name=None, **kw):
    x = N(C(input))
    out = np.empty(x.shape, object)
    for k in np.ndindex(*x.shape):
        v = x[k]
        out[k] = (b"true" if v else b"false") if x.dtype.kind == "b" else str(v).encode() if x.dtype.kind in "iu" else (b"%f" % v)
    return T(out)


@f("strings.join")
def string_join(inputs, separator="", name=None):
    xs = np.broadcast_arrays(*[N(C(i)) for i in inputs])
    out = np.empty(xs[0].shape, object)
    for k in np.ndindex(*out.shape):
        out[k] = separator.encode().join(x[k] for x in xs)
    return T(out)


# assertions
def _assert(fn):
    def g(x, y, message=None, name=None, **kw):
        a, b = _pair(x, y)
        if not np.all(fn(a, b)):
            raise InvalidArgumentError(message or "assertion failed")
    return g


for _n, _f in [("equal", np.equal), ("less", np.less), ("less_equal", np.less_equal), ("greater", np.greater), ("greater_equal", np.greater_equal),
               ("none_equal", np.not_equal)]:
    F["assert_" + _n] = F["debugging.assert_" + _n] = F["compat.v1.assert_" + _n] = _assert(_f)
for _n, _f in [("non_negative", lambda x: x >= 0), ("positive", lambda x: x > 0), ("negative", lambda x: x < 0)]:
    def _mk(g):
        def h(x, message=None, **kw):
            if not np.all(g(N(C(x)))):
                raise InvalidArgumentError(message or "assertion failed")
        return h
    F["debugging.assert_" + _n] = F["compat.v1.assert_" + _n] = _mk(_f)


@f("assert_rank", "debugging.assert_rank", "compat.v1.assert_rank")
def assert_rank(x, rank, message=None, name=None, **kw):
    if N(C(x)).ndim != int(rank):
        raise ValueError("%s. Tensor %s must have rank %s.  Received rank %s, shape %s" % (message, name or "", rank, C(x).ndim, C(x).shape))


@f("debugging.assert_all_finite", "debugging.check_numerics")
def check_numerics(x, message="", name=None):
    if not np.all(np.isfinite(N(C(x)))):
        raise InvalidArgumentError(message)
    return C(x)


@f("debugging.Assert", "Assert")
def Assert(condition, data=None, summarize=None, name=None):
    if not bool(condition):
        raise InvalidArgumentError("%s" % (data,))


@f("debugging.assert_shapes")
def assert_shapes(shapes, data=None, summarize=None, message=None, name=None):
    sizes = {}
    for x, s in (shapes.items() if isinstance(shapes, dict) else shapes):
        got = C(x).shape
        if isinstance(s, str):
            s = list(s.replace("(", "").replace(")", "").split(",")) if "," in s else list(s)
        s = list(s) if isinstance(s, (list, tuple)) else [s]
        if s and s[0] in ("...", Ellipsis) or "*" in s[:1]:
            s = s[1:]
            got = got[len(got) - len(s):] if len(got) >= len(s) else got
        if len(got) != len(s):
            raise ValueError("%s. Specified shape %s, got %s" % (message, s, got))
        for n, d in zip(s, got):
            if n is None or n == ".":
                continue
            if isinstance(n, (int, np.integer)) or (isinstance(n, str) and n.lstrip("-").isdigit()):
                n = int(n)
                if n != d:
                    raise ValueError("%s. Specified size %s, got %s" % (message, n, d))
            elif sizes.setdefault(n, d) != d:
                raise ValueError("%s. Size %s is both %s and %s" % (message, n, sizes[n], d))


F["is_tensor"] = lambda x: isinstance(x, (Tensor, Variable))
F["group"] = lambda *a, **k: None
F["print"] = lambda *a, **k: None
F["no_op"] = lambda *a, **k: None
F["get_static_value"] = lambda t, partial=False: N(C(t))[()] if C(t).ndim == 0 else np.array(N(C(t)))
F["executing_eagerly"] = lambda: True
F["compat.v1.enable_eager_execution"] = F["compat.v1.enable_v2_behavior"] = F["enable_v2_behavior"] = lambda *a, **k: None
F["compat.as_bytes"] = lambda x, **k: x.encode() if isinstance(x, str) else x
F["compat.as_str"] = lambda x, **k: x.decode() if isinstance(x, bytes) else x
F["nest.map_structure"] = lambda fn, *s, **k: _map_structure(fn, *s)
F["nest.flatten"] = lambda s, **k: list(_leaves(s))


def _map_structure(fn, *s):
    a = s[0]
    if isinstance(a, dict):
        return type(a)((k, _map_structure(fn, *[x[k] for x in s])) for k in a)
    if isinstance(a, (list, tuple)):
        r = [_map_structure(fn, *x) for x in zip(*s)]
        return type(a)(*r) if hasattr(a, "_fields") else type(a)(r)
    return fn(*s)


def _leaves(s):
    if isinstance(s, dict):
        for k in sorted(s):
            yield from _leaves(s[k])
    elif isinstance(s, (list, tuple)):
        for x in s:
            yield from _leaves(x)
    else:
        yield s


# files and images
@f("io.decode_compressed")
def decode_compressed(bytes, compression_type="", name=None):
    b = bytes if isinstance(bytes, (type(b""), bytearray)) else N(C(bytes))[()]
    if compression_type == "ZLIB":
        return C(_zlib.decompress(b))
    if compression_type == "GZIP":
        return C(_zlib.decompress(b, 31))
    if compression_type == "":
        return C(b)
    raise InvalidArgumentError(compression_type)


@f("io.encode_png", "image.encode_png")
def encode_png(image, compression=-1, name=None):
    from . import png
    return C(png.encode(N(C(image))))


@f("io.decode_png", "image.decode_png", "io.decode_image")
def decode_png(contents, channels=0, dtype=_DT["uint8"], name=None, **kw):
    from . import png
    b = contents if isinstance(contents, bytes) else N(C(contents))[()]
    a = png.decode(b)
    d = as_dtype(dtype)._np
    if channels not in (0, a.shape[-1]):
        if a.shape[-1] == 1 and channels == 3:
            a = np.repeat(a, 3, -1)
        else:
            raise NotModelled("png channels")
    if a.dtype != d:
        a = (a >> 8).astype(d) if d == np.uint8 else a.astype(d) * 257
    return T(a)


# ---------------------------------------------------------------------------------------- metrics
class _Metric:
    def __init__(self, name=None, dtype=None, **kw):
        self._name, self._w = name, []

    name = property(lambda s: s._name)

    def add_weight(self, name=None, shape=(), initializer="zeros", dtype=None, aggregation=None, **kw):
        d = as_dtype(dtype or float32)._np
        v = np.ones(_dims(shape), d) if initializer == "ones" else np.zeros(_dims(shape), d)
        if callable(initializer):
            raise NotModelled("initializer")
        x = Variable(T(v), name=name)
        x._init = np.array(v)
        self._w.append(x)
        return x

    def _nested(self):
        def walk(v):
            if isinstance(v, _Metric):
                yield v
            elif isinstance(v, dict):
                for x in v.values():
                    yield from walk(x)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    yield from walk(x)
        seen = []
        for v in self.__dict__.values():
            for m in walk(v):
                if not any(m is x for x in seen):
                    seen.append(m)
        return seen

    @property
    def variables(self):
        return list(self._w) + [v for m in self._nested() for v in m.variables]

    def reset_state(self):
        for x in self.variables:
            x.assign(zeros(x.shape, x.dtype))

    reset_states = reset_state

    def __call__(self, *a, **k):
        self.update_state(*a, **k)
        return self.result()


class _Mean(_Metric):
    def __init__(self, name="mean", dtype=None):
        super().__init__(name)
        self.total, self.count = self.add_weight("total"), self.add_weight("count")

    def update_state(self, values, sample_weight=None):
        v = cast(C(values), float32)
        w = ones_like(v) if sample_weight is None else broadcast_to(_weights(cast(C(sample_weight), float32), v), v.shape)
        self.total.assign_add(F["reduce_sum"](v * w))
        self.count.assign_add(F["reduce_sum"](w))

    def result(self):
        return divide_no_nan(self.total.value(), self.count.value())


def _weights(w, v):
    while 0 < w.ndim < v.ndim:
        w = expand_dims(w, -1)
    return w


class _Sum(_Mean):
    def result(self):
        return self.total.value()


class _Confusion(_Metric):
    """true/false positives and negatives at thresholds (score > threshold is positive)"""

    def _start(self, thresholds):
        self.thresholds = [float(t) for t in thresholds]
        n = (len(self.thresholds),)
        self.tp, self.fp, self.tn, self.fn = [self.add_weight(k, n) for k in ("tp", "fp", "tn", "fn")]
        self.true_positives, self.false_positives, self.true_negatives, self.false_negatives = self.tp, self.fp, self.tn, self.fn

    def update_state(self, y_true, y_pred, sample_weight=None):
        y, p = N(C(y_true)).reshape(-1).astype(bool), N(C(y_pred)).astype(np.float32)
        if p.size and (p.min() < 0 or p.max() > 1):
            raise InvalidArgumentError("predictions must be in [0, 1]")
        w = np.ones(p.shape, np.float32) if sample_weight is None else np.broadcast_to(N(_weights(C(sample_weight), C(y_pred))), p.shape).astype(np.float32)
        p, w = p.reshape(-1), w.reshape(-1)
        for k, t in enumerate(np.asarray(self.thresholds, np.float32)):
            q = p > t
            for var, m in ((self.tp, q & y), (self.fp, q & ~y), (self.fn, ~q & y), (self.tn, ~q & ~y)):
                a = np.array(N(var.value()))
                a[k] += w[m].sum(dtype=np.float64)
                var.assign(T(a))


class _AUC(_Confusion):
    def __init__(self, num_thresholds=200, curve="ROC", summation_method="interpolation", name=None, dtype=None, thresholds=None, multi_label=False,
                 num_labels=None, label_weights=None, from_logits=False):
        super().__init__(name)
        if thresholds is not None or multi_label or from_logits:
            raise NotModelled("AUC options")
        self.curve, self.how, e = curve.upper(), summation_method.lower(), 1e-7
        self._start([-e] + [(i + 1) / (num_thresholds - 1) for i in range(num_thresholds - 2)] + [1 + e])

    def result(self):
        tp, fp, fn, tn = [N(v.value()) for v in (self.tp, self.fp, self.fn, self.tn)]
        z = lambda a, b: N(divide_no_nan(T(a), T(b)))
        if self.curve == "PR" and self.how == "interpolation":
            n = len(tp)
            dtp, p = tp[:-1] - tp[1:], tp + fp
            dp = p[:-1] - p[1:]
            slope = z(dtp, np.maximum(dp, 0))
            ic = tp[1:] - slope * p[1:]
            with np.errstate(all="ignore"):
                ratio = np.where((p[:-1] > 0) & (p[1:] > 0), z(p[:-1], np.maximum(p[1:], 0)), np.ones_like(p[1:]))
            inc = z(slope * (dtp + ic * np.log(ratio)), np.maximum(tp[1:] + fn[1:], 0))
            return T(np.float32(inc.sum()))
        rec = z(tp, tp + fn)
        x, y = (rec, z(tp, tp + fp)) if self.curve == "PR" else (z(fp, fp + tn), rec)
        hgt = {"interpolation": (y[:-1] + y[1:]) / 2, "minoring": np.minimum(y[:-1], y[1:]), "majoring": np.maximum(y[:-1], y[1:])}[self.how]
        return T(np.float32(((x[:-1] - x[1:]) * hgt).sum()))


class _PrecRec(_Confusion):
    def __init__(self, thresholds=None, top_k=None, class_id=None, name=None, dtype=None):
        super().__init__(name)
        if top_k is not None or class_id is not None:
            raise NotModelled("options")
        self._single = not isinstance(thresholds, (list, tuple))
        self._start([0.5 if thresholds is None else thresholds] if self._single else thresholds)

    def result(self):
        tp = self.tp.value()
        r = divide_no_nan(tp, tp + (self.fp if self._prec else self.fn).value())
        return r[0] if len(self.thresholds) == 1 else r


class _Precision(_PrecRec):
    _prec = True


class _Recall(_PrecRec):
    _prec = False


# ------------------------------------------------------------------------------------------ module
class _Missing:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Missing(self._n + "." + n)

    def __call__(self, *a, **k):
        raise NotModelled(self._n)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __mro_entries__(self, bases):
        return (object,)


class _Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Missing(self.__name__ + "." + n)


@contextlib.contextmanager
def _scope(*a, **k):
    yield a[0] if a else None


class _Module:
    def __init__(self, name=None):
        self.name = name


def _function(func=None, **kw):
    return func if func is not None else lambda g: g


def build():
    root = _Mod("tensorflow")

    def put(name, v):
        m, parts = root, name.split(".")
        for i, p in enumerate(parts[:-1]):
            sub = m.__dict__.get(p)
            if sub is None:
                sub = _Mod("tensorflow." + ".".join(parts[:i + 1]))
                setattr(m, p, sub)
            m = sub
        setattr(m, parts[-1], v)
    for k, v in F.items():
        put(k, v)
        if not k.startswith("compat."):
            put("compat.v2." + k, v)
            if "compat.v1." + k not in F:
                put("compat.v1." + k, v)
    for k, v in _DT.items():
        put(k, v)
    for k, v in [("Tensor", Tensor), ("Variable", Variable), ("TensorShape", TensorShape), ("DType", DType), ("dtypes.DType", DType),
                 ("RaggedTensor", RaggedTensor), ("newaxis", None), ("Operation", type("Operation", (), {})), ("name_scope", _scope),
                 ("compat.v1.name_scope", _scope), ("control_dependencies", _scope), ("device", _scope), ("init_scope", _scope),
                 ("function", _function), ("Module", _Module), ("errors.InvalidArgumentError", InvalidArgumentError),
                 ("as_dtype", as_dtype), ("dtypes.as_dtype", as_dtype), ("keras.metrics.Metric", _Metric), ("keras.metrics.Mean", _Mean),
                 ("keras.metrics.Sum", _Sum), ("keras.metrics.AUC", _AUC), ("keras.metrics.Precision", _Precision),
                 ("keras.metrics.Recall", _Recall), ("keras.backend.epsilon", lambda: 1e-7), ("__version__", "2.12.0"),
                 ("autograph.experimental.do_not_convert", _function)]:
        put(k, v)
        if not k.startswith("compat."):
            put("compat.v2." + k, v)
            if "." in k or k[0].isupper() or k in ("function", "newaxis"):
                put("compat.v1." + k, v)
    from . import data as X
    for k, v in [("data.TFRecordDataset", X.TFRecordDataset), ("data.Dataset", X.Dataset), ("io.FixedLenFeature", X.FixedLenFeature),
                 ("io.parse_single_example", X.parse_single_example), ("random.uniform", X.uniform), ("random.normal", X.normal),
                 ("random.set_seed", X.set_seed), ("random.shuffle", X.shuffle)] + [("train." + n, c) for n, c in X.EX.items()]:
        for pre in ("", "compat.v1.", "compat.v2."):
            put(pre + k, v)
    for pre in ("", "compat.v1."):
        put(pre + "resource_loader.get_path_to_datafile", lambda p: "/nowhere/" + p)
        put(pre + "load_op_library", lambda p: _Missing("op library"))
    for k in ("test", "compat.v1.test", "compat.v2.test"):
        put(k + ".is_gpu_available", lambda *a, **k: False)
    return root


def _assignment(cost_matrix, maximize=False):
    """scipy.optimize.linear_sum_assignment for small matrices"""
    c = np.asarray(cost_matrix, float)
    if maximize:
        c = -c
    t = c.shape[0] > c.shape[1]
    if t:
        c = c.T
    n, m = c.shape
    INF = float("inf")
    u, v, p, way = [0.0] * (n + 1), [0.0] * (m + 1), [0] * (m + 1), [0] * (m + 1)
    for i in range(1, n + 1):
        p[0], j0, minv, used = i, 0, [INF] * (m + 1), [False] * (m + 1)
        while True:
            used[j0] = True
            i0, d, j1 = p[j0], INF, 0
            for j in range(1, m + 1):
                if not used[j]:
                    cur = c[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < d:
                        d, j1 = minv[j], j
            for j in range(m + 1):
                if used[j]:
                    u[p[j]] += d
                    v[j] -= d
                else:
                    minv[j] -= d
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    pairs = sorted((p[j] - 1, j - 1) for j in range(1, m + 1) if p[j])
    if t:
        pairs = sorted((b, a) for a, b in pairs)
    return np.array([a for a, _ in pairs], int), np.array([b for _, b in pairs], int)


class _Categorical:
    def __init__(self, logits=None, probs=None, **kw):
        self.logits = C(logits) if logits is not None else F["math.log"](C(probs))
        self.probs = softmax(self.logits) if probs is None else C(probs)

    def log_prob(self, x):
        l = N(self.logits)
        ls = l - _lse(l, -1, True)
        i = N(C(x)).astype(np.int64)
        sh = np.broadcast_shapes(i.shape, ls.shape[:-1])
        i, ls = np.broadcast_to(i, sh), np.broadcast_to(ls, sh + ls.shape[-1:])
        return T(np.take_along_axis(ls, i[..., None], -1)[..., 0])

    def prob(self, x):
        return F["exp"](self.log_prob(x))


class _Bernoulli:
    def __init__(self, logits=None, probs=None, dtype=None, **kw):
        self.p = C(probs) if probs is not None else F["sigmoid"](C(logits))

    def log_prob(self, x):
        p, x = N(self.p), N(C(x)).astype(N(self.p).dtype)
        with np.errstate(all="ignore"):
            a, b = np.log(p), np.log1p(-p)
            return T(np.where(x == 0, 0, x * a) + np.where(x == 1, 0, (1 - x) * b))


class _KernelDensity:
    """sklearn.neighbors.KernelDensity with a gaussian kernel"""

    def __init__(self, bandwidth=1.0, kernel="gaussian", **kw):
        if kernel != "gaussian" or kw:
            raise NotModelled("kernel density options")
        self.h = bandwidth

    def fit(self, X, y=None, sample_weight=None):
        self.x = np.asarray(N(X), np.float64)
        return self

    def score_samples(self, X):
        X = np.asarray(N(X), np.float64)
        d = X.shape[1]
        q = ((X[:, None] - self.x[None]) ** 2).sum(-1)
        return _lse(-q / (2 * self.h ** 2), 1, False) - np.log(len(self.x)) - d * np.log(self.h * np.sqrt(2 * np.pi))


def _enum_fields_take_tensors():
    """(with the C++ protocol buffers of a normal installation a scalar tensor can be assigned to an enum field)"""
    from google.protobuf.internal import type_checkers as t
    old = t.EnumValueChecker.CheckValue
    t.EnumValueChecker.CheckValue = lambda self, v: old(self, int(v) if isinstance(v, Tensor) else v)


def install():
    if isinstance(sys.modules.get("tensorflow"), _Mod):
        return sys.modules["tensorflow"]
    _enum_fields_take_tensors()
    root = build()

    def reg(m):
        sys.modules[m.__name__] = m
        for v in list(m.__dict__.values()):
            if isinstance(v, _Mod):
                reg(v)
    reg(root)
    tfp = _Mod("tensorflow_probability")
    tfp.distributions = _Mod("tensorflow_probability.distributions")
    tfp.distributions.Categorical, tfp.distributions.Bernoulli = _Categorical, _Bernoulli
    from . import data as X
    tfp.stats = _Mod("tensorflow_probability.stats")
    tfp.stats.histogram = X.histogram
    reg(tfp)
    for n, attrs in [("scipy", {}), ("scipy.optimize", {"linear_sum_assignment": _assignment}), ("sklearn", {}),
                     ("sklearn.neighbors", {"KernelDensity": _KernelDensity}), ("sklearn.decomposition", {}), ("sklearn.pipeline", {}),
                     ("sklearn.preprocessing", {}), ("skimage", {}), ("skimage.segmentation", {"relabel_sequential": X.relabel_sequential}), ("matplotlib", {}),
                     ("matplotlib.animation", {}), ("matplotlib.patches", {}), ("matplotlib.pyplot", {}), ("six", {"string_types": (str,)})]:
        try:
            __import__(n)
            continue
        except ImportError:
            pass
        m = _Mod(n)
        m.__dict__.update(attrs)
        sys.modules[n] = m
        p, _, leaf = n.rpartition(".")
        if p:
            setattr(sys.modules[p], leaf, m)
    return root
