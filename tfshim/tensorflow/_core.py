"""A numpy stand-in for the part of TensorFlow (eager) that the repository uses.

TensorFlow for Python is not installed here.  Tensors, dtypes, shapes, broadcasting,
conversion of constants and the errors follow TensorFlow 2 on the CPU.  Anything
that is missing raises vh.HarnessGap: a gap of the stand-in is never a verdict.
"""
import builtins
import collections.abc
import math as _pm

import numpy as np

try:
    from vh import HarnessGap
except ImportError:  # Used without the harness.
    class HarnessGap(Exception):
        pass

newaxis = None


# ------------------------------------------------------------------- errors
class OpError(Exception):
    def __init__(self, *args):
        super().__init__(*args)
        self.message = str(args[-1]) if args else ""


class InvalidArgumentError(OpError):
    pass


class OutOfRangeError(OpError):
    pass


class NotFoundError(OpError):
    pass


class DataLossError(OpError):
    pass


class UnimplementedError(OpError):
    pass


class FailedPreconditionError(OpError):
    pass


def _inv(msg):
    return InvalidArgumentError(None, None, msg)


# ------------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name, np_type):
        self.name = name
        self._np = np_type
        self.dtype = np.dtype(np_type)

    @property
    def as_numpy_dtype(self):
        return self._np

    @property
    def base_dtype(self):
        return self

    @property
    def is_floating(self):
        return self.dtype.kind == "f"

    @property
    def is_integer(self):
        return self.dtype.kind in "iu"

    @property
    def is_unsigned(self):
        return self.dtype.kind == "u"

    @property
    def is_bool(self):
        return self.dtype.kind == "b"

    @property
    def is_complex(self):
        return self.dtype.kind == "c"

    @property
    def is_numpy_compatible(self):
        return True

    @property
    def size(self):
        return self.dtype.itemsize

    @property
    def min(self):
        return np.finfo(self._np).min if self.is_floating else np.iinfo(self._np).min

    @property
    def max(self):
        return np.finfo(self._np).max if self.is_floating else np.iinfo(self._np).max

    @property
    def limits(self):
        return self.min, self.max

    def is_compatible_with(self, other):
        return self == as_dtype(other)

    def __eq__(self, other):
        if other is None:
            return False
        try:
            return self.name == as_dtype(other).name
        except TypeError:
            return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "tf.%s" % self.name

    __str__ = lambda self: "<dtype: '%s'>" % self.name


_NP = dict(float16=np.float16, float32=np.float32, float64=np.float64, int8=np.int8, int16=np.int16,
           int32=np.int32, int64=np.int64, uint8=np.uint8, uint16=np.uint16, uint32=np.uint32,
           uint64=np.uint64, bool=np.bool_, complex64=np.complex64, complex128=np.complex128)
DTYPES = {k: DType(k, v) for k, v in _NP.items()}
DTYPES["string"] = DType("string", np.object_)
DTYPES["double"] = DTYPES["float64"]
DTYPES["half"] = DTYPES["float16"]
string = DTYPES["string"]
float16, float32, float64 = DTYPES["float16"], DTYPES["float32"], DTYPES["float64"]
int8, int16, int32, int64 = (DTYPES["int%d" % i] for i in (8, 16, 32, 64))
uint8, uint16, uint32, uint64 = (DTYPES["uint%d" % i] for i in (8, 16, 32, 64))
bool = DTYPES["bool"]  # noqa: A001
complex64, complex128 = DTYPES["complex64"], DTYPES["complex128"]
double, half = float64, float16


def as_dtype(x):
    if isinstance(x, DType):
        return x
    if isinstance(x, builtins.str):
        if x in DTYPES:
            return DTYPES[x]
        raise TypeError("Cannot convert %r to a dtype" % x)
    if x is builtins.float:
        return float32
    if x is builtins.int:
        return int32  # As TensorFlow does for the Python type.
    if x is builtins.bool:
        return bool
    if x is builtins.str or x is builtins.bytes or x is object:
        return string
    try:
        d = np.dtype(x)
    except TypeError:
        raise TypeError("Cannot convert %r to a dtype" % (x,))
    if d.kind in "SUO":
        return string
    if d.name in DTYPES:
        return DTYPES[d.name]
    raise TypeError("Cannot convert %r to a dtype" % (x,))


# ------------------------------------------------------------------- shapes
class TensorShape:
    def __init__(self, dims):
        if isinstance(dims, TensorShape):
            dims = dims._d
        if dims is None:
            self._d = None
        elif isinstance(dims, (int, np.integer)):
            self._d = (builtins.int(dims),)
        else:
            self._d = tuple(None if d is None or d == -1 and False else builtins.int(d) for d in dims)

    def as_list(self):
        if self._d is None:
            raise ValueError("as_list() is not defined on an unknown TensorShape.")
        return list(self._d)

    @property
    def rank(self):
        return None if self._d is None else len(self._d)

    ndims = rank

    @property
    def dims(self):
        return None if self._d is None else list(self._d)

    def num_elements(self):
        return None if self._d is None or None in self._d else builtins.int(np.prod(self._d, dtype=np.int64))

    def is_fully_defined(self):
        return self._d is not None and None not in self._d

    def is_compatible_with(self, other):
        o = TensorShape(other)
        if self._d is None or o._d is None:
            return True
        return len(self._d) == len(o._d) and all(a is None or b is None or a == b for a, b in zip(self._d, o._d))

    def assert_is_compatible_with(self, other):
        if not self.is_compatible_with(other):
            raise ValueError("Shapes %s and %s are incompatible" % (self, other))

    def assert_has_rank(self, rank):
        if self.rank != rank:
            raise ValueError("Shape %s must have rank %d" % (self, rank))

    def with_rank(self, rank):
        self.assert_has_rank(rank)
        return self

    def merge_with(self, other):
        self.assert_is_compatible_with(other)
        return TensorShape([a if a is not None else b for a, b in zip(self._d, TensorShape(other)._d)])

    def concatenate(self, other):
        return TensorShape(self._d + TensorShape(other)._d)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return TensorShape(self._d[k])
        return self._d[k]

    def __len__(self):
        if self._d is None:
            raise ValueError("Cannot take the length of shape with unknown rank.")
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def __add__(self, other):
        return self.concatenate(other)

    def __radd__(self, other):
        return TensorShape(other).concatenate(self)

    def __eq__(self, other):
        try:
            return self._d == TensorShape(other)._d
        except TypeError:
            return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._d)

    def __bool__(self):
        return self._d is not None

    def __repr__(self):
        return "TensorShape(%s)" % (list(self._d) if self._d is not None else None,)

    def __str__(self):
        return "(%s)" % ", ".join(builtins.str(d) for d in self._d) if len(self._d) != 1 else "(%s,)" % self._d[0]


# ------------------------------------------------------------------- tensors
class Tensor:
    __array_priority__ = 100

    def __init__(self, a, dtype=None):
        if dtype is not None and dtype.name == "string":
            a = np.asarray(a, dtype=object)
        self._a = np.asarray(a)
        if dtype is None:
            dtype = as_dtype(self._a.dtype)
        self.dtype = dtype
        self.name = "tensor"

    @property
    def shape(self):
        return TensorShape(self._a.shape)

    def get_shape(self):
        return self.shape

    def set_shape(self, shape):
        if not self.shape.is_compatible_with(shape):
            raise ValueError("Tensor's shape %s is not compatible with %s" % (self.shape, shape))

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def device(self):
        return "/cpu:0"

    def numpy(self):
        a = self._a
        if a.ndim == 0:
            return a[()]
        return a.copy()

    def eval(self, feed_dict=None, session=None):
        if feed_dict:
            raise HarnessGap("feed_dict")
        return self.numpy()

    def __array__(self, dtype=None):
        return self._a if dtype is None else self._a.astype(dtype)

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("Scalar tensor has no `len()`")
        return self._a.shape[0]

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("Cannot iterate over a scalar tensor")
        for i in range_(self._a.shape[0]):
            yield Tensor(self._a[i], self.dtype)

    def __bool__(self):
        return builtins.bool(self._a)

    def __int__(self):
        return builtins.int(self._a)

    def __float__(self):
        return builtins.float(self._a)

    def __index__(self):
        if self.dtype.is_integer:
            return builtins.int(self._a)
        raise TypeError("only integer scalar tensors can be converted to an index")

    def __round__(self, n=None):
        return round(self)

    def __format__(self, spec):
        return format(self._a[()] if self._a.ndim == 0 else builtins.str(self), spec)

    def __repr__(self):
        return "<tf.Tensor: shape=%s, dtype=%s, numpy=%r>" % (tuple(self._a.shape), self.dtype.name, self._a)

    __str__ = __repr__

    def __hash__(self):
        raise TypeError("Tensor is unhashable. Instead, use tensor.ref() as the key.")

    def ref(self):
        return id(self)

    def __getitem__(self, k):
        return Tensor(_slice(self._a, k), self.dtype)

    def __getattr__(self, k):
        if k.startswith("__") or k in ("astype", "ravel", "transpose", "reshape", "clip", "size", "tolist", "data", "T",
                                       "mean", "max", "min", "item", "copy", "sum", "dims", "columns", "iloc", "keys", "values"):
            raise AttributeError("%r object has no attribute %r" % (type(self).__name__, k))
        if k == "_a":
            raise AttributeError(k)
        raise HarnessGap("Tensor.%s" % k)

    def __eq__(self, o):
        if o is None:
            return False
        try:
            return equal(self, o)
        except (ValueError, InvalidArgumentError):
            return False

    def __ne__(self, o):
        if o is None:
            return True
        try:
            return not_equal(self, o)
        except (ValueError, InvalidArgumentError):
            return True

    def __lt__(self, o): return less(self, o)
    def __le__(self, o): return less_equal(self, o)
    def __gt__(self, o): return greater(self, o)
    def __ge__(self, o): return greater_equal(self, o)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return subtract(self, o)
    def __rsub__(self, o): return subtract(o, self)
    def __mul__(self, o): return multiply(self, o)
    def __rmul__(self, o): return multiply(o, self)
    def __truediv__(self, o): return truediv(self, o)
    def __rtruediv__(self, o): return truediv(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return floormod(self, o)
    def __rmod__(self, o): return floormod(o, self)
    def __pow__(self, o): return pow(self, o)
    def __rpow__(self, o): return pow(o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return negative(self)
    def __pos__(self): return self
    def __abs__(self): return abs(self)

    def __and__(self, o):
        return logical_and(self, o) if self.dtype.is_bool else _bin(np.bitwise_and, self, o)

    def __or__(self, o):
        return logical_or(self, o) if self.dtype.is_bool else _bin(np.bitwise_or, self, o)

    def __xor__(self, o):
        return _bin(np.bitwise_xor, self, o)

    def __rand__(self, o): return self & o
    def __ror__(self, o): return self | o
    def __rxor__(self, o): return self ^ o

    def __invert__(self):
        return logical_not(self) if self.dtype.is_bool else Tensor(np.invert(self._a), self.dtype)


EagerTensor = Tensor
range_ = builtins.range


class Variable(Tensor):
    def __init__(self, initial_value, trainable=True, name=None, dtype=None, **kw):
        t = convert_to_tensor(initial_value() if callable(initial_value) else initial_value, dtype)
        super().__init__(t._a.copy(), t.dtype)
        self.trainable = trainable
        self.name = name or "Variable"

    def assign(self, value, **kw):
        self._a = convert_to_tensor(value, self.dtype)._a.copy()
        return self

    def assign_add(self, value, **kw):
        self._a = self._a + convert_to_tensor(value, self.dtype)._a
        return self

    def assign_sub(self, value, **kw):
        self._a = self._a - convert_to_tensor(value, self.dtype)._a
        return self

    def value(self):
        return Tensor(self._a.copy(), self.dtype)

    read_value = value


def _index(v):
    if isinstance(v, Tensor):
        if v._a.ndim:
            raise TypeError("Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) and scalar tf.int32/tf.int64 tensors are valid indices")
        return builtins.int(v._a)
    if isinstance(v, (np.integer, builtins.int)) and not isinstance(v, builtins.bool):
        return builtins.int(v)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return builtins.int(v)
    return v


def _slice(a, k):
    if isinstance(k, Tensor) and k.dtype.is_bool:
        return boolean_mask(Tensor(a), k)._a
    if isinstance(k, np.ndarray) and k.dtype == np.bool_:
        return boolean_mask(Tensor(a), k)._a
    ks = list(k) if isinstance(k, (tuple, list)) else [k]
    out = []
    for x in ks:
        if isinstance(x, slice):
            out.append(slice(*[None if v is None else _index(v) for v in (x.start, x.stop, x.step)]))
        elif x is None or x is Ellipsis:
            out.append(x)
        else:
            x = _index(x)
            if not isinstance(x, builtins.int):
                raise TypeError("Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) and scalar tf.int32/tf.int64 tensors are valid indices, got %r" % (x,))
            out.append(x)
    try:
        return a[tuple(out)]
    except IndexError as e:
        raise _inv("slice index out of bounds: %s" % e)


def _has_tensor(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, (list, tuple)):
        for y in x:
            t = _has_tensor(y)
            if t is not None:
                return t
    return None


def _to_str_array(x):
    a = np.asarray(x, dtype=object)
    f = np.vectorize(lambda s: s.encode("utf8") if isinstance(s, builtins.str) else builtins.bytes(s), otypes=[object])
    return f(a) if a.size else a


def _plain(v):
    """Sequences (the repeated fields of protocol buffers, for one) as lists."""
    if isinstance(v, (Tensor, np.ndarray, builtins.str, builtins.bytes, builtins.range)):
        return v
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, (list, tuple)) or isinstance(x, collections.abc.Sequence) and not isinstance(x, (builtins.str, builtins.bytes)) for x in v):
            return [_plain(x) for x in v]
        return v
    return [_plain(x) for x in v] if isinstance(v, collections.abc.Sequence) else v


def convert_to_tensor(value, dtype=None, dtype_hint=None, name=None, preferred_dtype=None):
    dtype = as_dtype(dtype) if dtype is not None else None
    hint = dtype_hint if dtype_hint is not None else preferred_dtype
    hint = as_dtype(hint) if hint is not None else None
    if value is None:
        raise ValueError("Attempt to convert a value (None) with an unsupported type to a Tensor.")
    if isinstance(value, Tensor):
        if dtype is not None and dtype != value.dtype:
            raise ValueError("Tensor conversion requested dtype %s for Tensor with dtype %s" % (dtype.name, value.dtype.name))
        return value
    value = _plain(value)
    if isinstance(value, TensorShape):
        value = np.array(value.as_list(), np.int32)
    if hasattr(value, "__tf_tensor__"):
        return value.__tf_tensor__(dtype)
    if isinstance(value, (list, tuple)) and _has_tensor(value) is not None:
        t = _has_tensor(value)
        want = dtype or t.dtype

        def build(v):
            if isinstance(v, (list, tuple)):
                return np.stack([build(y) for y in v])
            return convert_to_tensor(v, want)._a
        try:
            return Tensor(build(value), want)
        except ValueError as e:
            raise _inv(builtins.str(e))
    a = value
    if isinstance(value, (np.ndarray, np.generic)):
        a = np.asarray(value)
        if a.dtype.kind in "SUO" and a.dtype.kind != "O":
            return Tensor(_to_str_array(a), string)
        if a.dtype.kind == "O":
            flat = a.ravel()
            if flat.size and isinstance(flat[0], (builtins.str, builtins.bytes)):
                return Tensor(_to_str_array(a), string)
            raise ValueError("Failed to convert a NumPy array to a Tensor (Unsupported object type)")
        if dtype is not None:
            if dtype.name == "string" or a.dtype.kind == "f" and dtype.dtype.kind in "iub" and a.size and not np.all(a == np.floor(a)):
                raise TypeError("Cannot convert %s to %s" % (a.dtype, dtype))
            return Tensor(a.astype(dtype.dtype), dtype)
        if hint is not None and hint.name != "string" and (
                np.can_cast(a.dtype, hint.dtype, "same_kind") or hint.is_floating and a.dtype.kind in "iu"):
            return Tensor(a.astype(hint.dtype), hint)
        return Tensor(a.copy(), as_dtype(a.dtype))
    # Python values.
    leaves = []

    def walk(v):
        if isinstance(v, (list, tuple, builtins.range)):
            for y in v:
                walk(y)
        elif isinstance(v, np.ndarray):
            leaves.append(v)
        else:
            leaves.append(v)
    walk(value)
    arrays = [l for l in leaves if isinstance(l, np.ndarray)]
    if leaves and isinstance(leaves[0], (builtins.str, builtins.bytes)):
        if dtype is not None and dtype.name != "string":
            raise TypeError("Cannot convert %r to %s" % (value, dtype))
        return Tensor(_to_str_array(value), string)
    for l in leaves:
        if not isinstance(l, (builtins.int, builtins.float, builtins.complex, np.ndarray, np.generic)):
            if hasattr(l, "__array__"):
                arrays.append(np.asarray(l))
                continue
            raise ValueError("Attempt to convert a value (%r) with an unsupported type (%s) to a Tensor." % (l, type(l)))
    try:
        a = np.array(value)
    except ValueError as e:
        raise ValueError("Can't convert non-rectangular Python sequence to Tensor. (%s)" % e)
    if a.dtype == object:
        raise ValueError("Can't convert non-rectangular Python sequence to Tensor.")
    if arrays:
        native = as_dtype(a.dtype)
    elif any(isinstance(l, builtins.complex) for l in leaves):
        native = complex128
    elif leaves and all(isinstance(l, (builtins.bool, np.bool_)) for l in leaves):
        native = bool
    elif any(isinstance(l, (builtins.float, np.floating)) for l in leaves):
        g = [l for l in leaves if isinstance(l, np.floating) and not isinstance(l, builtins.float)]
        native = as_dtype(g[0].dtype) if g else float32
    elif leaves:
        g = [l for l in leaves if isinstance(l, np.integer)]
        native = as_dtype(g[0].dtype) if g else int32
        if native == int32 and a.size and (a.max() > 2**31 - 1 or a.min() < -2**31):
            native = int64 if dtype is None and hint is None else native
            if dtype is None and (hint is None or not hint.is_integer):
                native = int64
    else:
        native = float32
        if dtype is not None and not a.size:
            return Tensor(np.zeros(a.shape, object if dtype.name == "string" else dtype.dtype), dtype)
    if dtype is not None:
        if dtype.name == "string":
            raise TypeError("Cannot convert %r to EagerTensor of dtype string" % (value,))
        if native.is_floating and not (dtype.is_floating or dtype.is_complex):
            raise TypeError("Cannot convert %r to EagerTensor of dtype %s" % (value, dtype.name))
        if native.is_bool and not dtype.is_bool or dtype.is_bool and not native.is_bool and leaves:
            raise TypeError("Cannot convert %r to EagerTensor of dtype %s" % (value, dtype.name))
        if dtype.is_integer and a.size and (a.max() > dtype.max or a.min() < dtype.min):
            raise ValueError("Value out of range for %s" % dtype.name)
        return Tensor(a.astype(dtype.dtype), dtype)
    if hint is not None and hint.name != "string":
        if hint.is_floating and (native.is_integer or native.is_floating) or hint.is_integer and native.is_integer or hint == native:
            return Tensor(a.astype(hint.dtype), hint)
    return Tensor(a.astype(native.dtype), native)


def constant(value, dtype=None, shape=None, name=None):
    if isinstance(value, Tensor) and dtype is not None and as_dtype(dtype) != value.dtype:
        value = value._a
    t = convert_to_tensor(value, dtype)
    if shape is not None:
        shape = _shape(shape)
        a = t._a
        t = Tensor(np.full(shape, a) if a.size == 1 else a.reshape(shape), t.dtype)
    return t


def _t(x, hint=None):
    return convert_to_tensor(x, dtype_hint=hint)


def _shape(s):
    if isinstance(s, Tensor):
        s = s._a
    if isinstance(s, TensorShape):
        return tuple(s.as_list())
    if isinstance(s, (builtins.int, np.integer)):
        return (builtins.int(s),)
    if isinstance(s, np.ndarray) and s.ndim == 0:
        return (builtins.int(s),)
    return tuple(builtins.int(d) for d in s)


def _axis(a):
    if a is None:
        return None
    if isinstance(a, Tensor):
        a = a._a.tolist()
    if isinstance(a, (list, tuple, np.ndarray)):
        return tuple(builtins.int(x) for x in a)
    return builtins.int(a)


def _pair(x, y):
    if isinstance(x, Tensor):
        y = _t(y, x.dtype)
    elif isinstance(y, Tensor):
        x = _t(x, y.dtype)
    else:
        x = _t(x)
        y = _t(y, x.dtype)
        if x.dtype != y.dtype and y.dtype.is_floating and x.dtype.is_integer:
            x = _t(x._a, y.dtype)
    if x.dtype != y.dtype:
        raise _inv("cannot compute as input #1 was expected to be a %s tensor but is a %s tensor" % (x.dtype.name, y.dtype.name))
    return x, y


def _np2(fn, x, y):
    with np.errstate(all="ignore"):
        try:
            return fn(x, y)
        except ValueError as e:
            raise _inv("Incompatible shapes: %s vs. %s (%s)" % (x.shape, y.shape, e))


def _bin(fn, x, y, out=None):
    x, y = _pair(x, y)
    return Tensor(np.asarray(_np2(fn, x._a, y._a), dtype=(out or x.dtype).dtype), out or x.dtype)


def _num(fn):
    def f(x, y, name=None):
        return _bin(fn, x, y)
    return f


add = lambda x, y, name=None: _bin(np.add, x, y) if not _is_str(x) else _str_add(x, y)
subtract = _num(np.subtract)
multiply = _num(np.multiply)
maximum = _num(np.maximum)
minimum = _num(np.minimum)
squared_difference = _num(lambda a, b: (a - b) * (a - b))


def _is_str(x):
    return isinstance(x, (builtins.str, builtins.bytes)) or isinstance(x, Tensor) and x.dtype.name == "string"


def _str_add(x, y):
    x, y = _t(x), _t(y)
    return Tensor(x._a + y._a, string)


def truediv(x, y, name=None):
    x, y = _pair(x, y)
    if x.dtype.is_integer:
        d = float32 if x.dtype.size < 4 else float64
        x, y = cast(x, d), cast(y, d)
    return _bin(np.true_divide, x, y)


def divide(x, y, name=None):
    if isinstance(x, Tensor) or isinstance(y, Tensor):
        return truediv(x, y)
    return truediv(_t(x), _t(y)) if not isinstance(x, (builtins.int, builtins.float)) else _t(x / y)


def floordiv(x, y, name=None):
    x, y = _pair(x, y)
    if x.dtype.is_integer and (y._a == 0).any():
        raise _inv("Integer division by zero")
    return _bin(np.floor_divide, x, y)


def floormod(x, y, name=None):
    x, y = _pair(x, y)
    if x.dtype.is_integer and (y._a == 0).any():
        raise _inv("Integer division by zero")
    return _bin(np.mod, x, y)


mod = floormod


def truncatediv(x, y, name=None):
    x, y = _pair(x, y)
    return _bin(lambda a, b: np.trunc(a / b).astype(a.dtype), x, y)


def truncatemod(x, y, name=None):
    return _bin(np.fmod, x, y)


def divide_no_nan(x, y, name=None):
    x, y = _pair(x, y)
    if not x.dtype.is_floating and not x.dtype.is_complex:
        raise TypeError("divide_no_nan needs floats, got %s" % x.dtype)
    return _bin(lambda a, b: np.where(b == 0, np.zeros((), a.dtype), np.divide(a, np.where(b == 0, np.ones((), b.dtype), b))), x, y)


div_no_nan = divide_no_nan


def multiply_no_nan(x, y, name=None):
    return _bin(lambda a, b: np.where(b == 0, np.zeros((), a.dtype), a * b), x, y)


def pow(x, y, name=None):  # noqa: A001
    return _bin(np.power, x, y)


def atan2(y, x, name=None):
    return _bin(np.arctan2, y, x)


def _cmp(fn):
    def f(x, y, name=None):
        return _bin(fn, x, y, bool)
    return f


less, less_equal, greater, greater_equal = _cmp(np.less), _cmp(np.less_equal), _cmp(np.greater), _cmp(np.greater_equal)
equal, not_equal = _cmp(np.equal), _cmp(np.not_equal)


def _boolpair(fn):
    def f(x, y, name=None):
        x, y = _pair(x, y)
        if not x.dtype.is_bool:
            raise _inv("cannot compute a logical operation as input #0 was expected to be a bool tensor but is a %s tensor" % x.dtype.name)
        return _bin(fn, x, y, bool)
    return f


logical_and, logical_or, logical_xor = _boolpair(np.logical_and), _boolpair(np.logical_or), _boolpair(np.logical_xor)


def logical_not(x, name=None):
    x = _t(x)
    if not x.dtype.is_bool:
        raise _inv("logical_not needs a bool tensor")
    return Tensor(~x._a, bool)


def _un(fn, floats=True):
    def f(x, name=None):
        x = _t(x)
        if floats and not x.dtype.is_floating and not x.dtype.is_complex:
            raise _inv("Value for attr 'T' of %s is not in the list of allowed values" % x.dtype.name)
        with np.errstate(all="ignore"):
            return Tensor(np.asarray(fn(x._a), dtype=x.dtype.dtype), x.dtype)
    return f


sin, cos, tan, asin, acos, atan = map(_un, (np.sin, np.cos, np.tan, np.arcsin, np.arccos, np.arctan))
sinh, cosh, tanh = _un(np.sinh), _un(np.cosh), _un(np.tanh)
exp, log, log1p, expm1, sqrt = map(_un, (np.exp, np.log, np.log1p, np.expm1, np.sqrt))
rsqrt = _un(lambda a: 1 / np.sqrt(a))
sigmoid = _un(lambda a: 1 / (1 + np.exp(-a)))
softplus = _un(lambda a: np.logaddexp(a, 0))
reciprocal = _un(lambda a: 1 / a)
floor, ceil, rint = _un(np.floor), _un(np.ceil), _un(np.rint)
round = _un(np.rint, False)  # noqa: A001
abs = _un(np.abs, False)  # noqa: A001
square, negative, sign = _un(np.square, False), _un(np.negative, False), _un(np.sign, False)
relu = _un(lambda a: np.maximum(a, 0), False)


def erf(x, name=None):
    x = _t(x)
    return Tensor(np.vectorize(_pm.erf, otypes=[x._a.dtype])(x._a) if x._a.size else x._a, x.dtype)


def _isx(fn):
    def f(x, name=None):
        return Tensor(np.asarray(fn(_t(x)._a)), bool)
    return f


is_nan, is_inf, is_finite = _isx(np.isnan), _isx(np.isinf), _isx(np.isfinite)


def logical_reduce(name, fn):
    def f(input_tensor=None, axis=None, keepdims=False, name=None, keep_dims=None, **kw):
        x = _t(input_tensor)
        if not x.dtype.is_bool:
            raise _inv("%s needs a bool tensor, got %s" % (f.__name__, x.dtype.name))
        return Tensor(np.asarray(fn(x._a, axis=_axis(axis), keepdims=keepdims or builtins.bool(keep_dims))), bool)
    f.__name__ = name
    return f


reduce_any, reduce_all = logical_reduce("reduce_any", np.any), logical_reduce("reduce_all", np.all)


def _reduce(fn, init=None, floats=False):
    def f(input_tensor=None, axis=None, keepdims=False, name=None, keep_dims=None, **kw):
        x = _t(input_tensor)
        if x.dtype.is_bool:
            raise _inv("reduction of a bool tensor")
        ax = _axis(axis)
        for i in (ax if isinstance(ax, tuple) else () if ax is None else (ax,)):
            if not -x._a.ndim <= i < x._a.ndim:
                raise _inv("Invalid reduction dimension (%d for input with %d dimension(s))" % (i, x._a.ndim))
        k = keepdims or builtins.bool(keep_dims)
        with np.errstate(all="ignore"):
            return Tensor(np.asarray(fn(x._a, ax, k), dtype=x.dtype.dtype), x.dtype)
    return f


def _lo(d):
    return -np.inf if d.kind == "f" else np.iinfo(d).min


def _hi(d):
    return np.inf if d.kind == "f" else np.iinfo(d).max


def _mean(a, ax, k):
    if a.dtype.kind == "f":
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return np.mean(a, axis=ax, keepdims=k, dtype=a.dtype)
    n = a.size // builtins.max(1, np.sum(a, axis=ax, keepdims=k).size)
    return np.sum(a, axis=ax, keepdims=k, dtype=a.dtype) // builtins.max(n, 1)


reduce_sum = _reduce(lambda a, ax, k: np.sum(a, axis=ax, keepdims=k, dtype=a.dtype))
reduce_prod = _reduce(lambda a, ax, k: np.prod(a, axis=ax, keepdims=k, dtype=a.dtype))
reduce_max = _reduce(lambda a, ax, k: np.max(a, axis=ax, keepdims=k, initial=_lo(a.dtype)))
reduce_min = _reduce(lambda a, ax, k: np.min(a, axis=ax, keepdims=k, initial=_hi(a.dtype)))
reduce_mean = _reduce(_mean)
reduce_variance = _reduce(lambda a, ax, k: np.var(a, axis=ax, keepdims=k))
reduce_std = _reduce(lambda a, ax, k: np.std(a, axis=ax, keepdims=k))
reduce_euclidean_norm = _reduce(lambda a, ax, k: np.sqrt(np.sum(a * a, axis=ax, keepdims=k)))
reduce_logsumexp = _reduce(lambda a, ax, k: _lse(a, ax, k))


def _lse(a, ax, k):
    m = np.max(a, axis=ax, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    r = np.log(np.sum(np.exp(a - m), axis=ax, keepdims=True)) + m
    return r if k else np.squeeze(r, axis=ax)


def count_nonzero(input, axis=None, keepdims=False, dtype=int64, name=None):  # noqa: A002
    x = _t(input)
    return Tensor(np.asarray(np.sum(x._a != 0, axis=_axis(axis), keepdims=keepdims)).astype(as_dtype(dtype).dtype))


def norm(tensor, ord="euclidean", axis=None, keepdims=False, name=None):  # noqa: A002
    x = _t(tensor)
    if ord not in ("euclidean", 2, 2.0, 1, np.inf, "fro"):
        raise HarnessGap("norm ord %r" % (ord,))
    ax = _axis(axis)
    with np.errstate(all="ignore"):
        if ord == 1:
            r = np.sum(np.abs(x._a), axis=ax, keepdims=keepdims)
        elif ord == np.inf:
            r = np.max(np.abs(x._a), axis=ax, keepdims=keepdims)
        else:
            r = np.sqrt(np.sum(x._a * x._a, axis=ax, keepdims=keepdims))
    return Tensor(np.asarray(r, dtype=x.dtype.dtype), x.dtype)


def _arg(fn):
    def f(input=None, axis=None, output_type=int64, name=None, dimension=None):  # noqa: A002
        x = _t(input)
        ax = 0 if axis is None else _axis(axis)
        return Tensor(np.asarray(fn(x._a, axis=ax)).astype(as_dtype(output_type).dtype))
    return f


def _argmin(a, axis):
    return np.argmin(a, axis=axis)


argmin, argmax = _arg(_argmin), _arg(lambda a, axis: np.argmax(a, axis=axis))


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
    x = _t(x)
    a = x._a
    ax = _axis(axis)
    if reverse:
        a = np.flip(a, ax)
    r = np.cumsum(a, axis=ax, dtype=a.dtype)
    if exclusive:
        r = r - a
    return Tensor(np.flip(r, ax) if reverse else r, x.dtype)


def cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
    x = _t(x)
    if exclusive:
        raise HarnessGap("exclusive cumprod")
    a = np.flip(x._a, _axis(axis)) if reverse else x._a
    r = np.cumprod(a, axis=_axis(axis), dtype=a.dtype)
    return Tensor(np.flip(r, _axis(axis)) if reverse else r, x.dtype)


def add_n(inputs, name=None):
    r = _t(inputs[0])
    for x in inputs[1:]:
        r = r + _t(x)
    return r


def cast(x, dtype, name=None):
    d = as_dtype(dtype)
    x = x if isinstance(x, Tensor) else convert_to_tensor(x)
    if x.dtype == d:
        return x
    if x.dtype.name == "string" or d.name == "string":
        raise UnimplementedError(None, None, "Cast string to/from %s is not supported" % d.name)
    a = x._a
    with np.errstate(all="ignore"):
        if a.dtype.kind == "f" and d.dtype.kind in "iu":
            # Out of range is undefined; truncation is towards zero.
            a = np.trunc(a)
            return Tensor(np.where(np.isfinite(a), a, 0).astype(np.int64).astype(d.dtype) if d.name != "uint64" else a.astype(d.dtype), d)
        return Tensor(a.astype(d.dtype), d)


def saturate_cast(x, dtype, name=None):
    d = as_dtype(dtype)
    x = _t(x)
    return Tensor(np.clip(x._a, d.min, d.max).astype(d.dtype), d)


def bitcast(input, type, name=None):  # noqa: A002
    x, d = _t(input), as_dtype(type)
    if x.dtype.size != d.size:
        raise HarnessGap("bitcast of other sizes")
    return Tensor(np.ascontiguousarray(x._a).view(d.dtype).reshape(x._a.shape), d)


def identity(input, name=None):  # noqa: A002
    return Tensor(_t(input)._a.copy(), _t(input).dtype)


stop_gradient = identity


# ----------------------------------------------------------------- creation
def zeros(shape, dtype=float32, name=None):
    d = as_dtype(dtype)
    return Tensor(np.full(_shape(shape), b"", object) if d.name == "string" else np.zeros(_shape(shape), d.dtype), d)


def ones(shape, dtype=float32, name=None):
    d = as_dtype(dtype)
    return Tensor(np.ones(_shape(shape), d.dtype), d)


def zeros_like(input=None, dtype=None, name=None, tensor=None, **kw):  # noqa: A002
    x = _t(input if input is not None else tensor)
    return zeros(x._a.shape, dtype or x.dtype)


def ones_like(input=None, dtype=None, name=None, tensor=None, **kw):  # noqa: A002
    x = _t(input if input is not None else tensor)
    return ones(x._a.shape, dtype or x.dtype)


def fill(dims, value, name=None):
    v = _t(value)
    return Tensor(np.full(_shape(dims), v._a, dtype=v._a.dtype), v.dtype)


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
    m = np.eye(builtins.int(num_rows), None if num_columns is None else builtins.int(num_columns), dtype=as_dtype(dtype).dtype)
    if batch_shape is not None:
        m = np.broadcast_to(m, _shape(batch_shape) + m.shape).copy()
    return Tensor(m, as_dtype(dtype))


def range(start, limit=None, delta=1, dtype=None, name=None):  # noqa: A001
    if limit is None:
        start, limit = 0, start
    vals = [start, limit, delta]
    if dtype is None:
        ds = [v.dtype for v in map(_t, vals)]
        order = [int32, int64, float32, float64]
        for d in ds:
            if d not in order:
                order.append(d)
        dtype = builtins.max(ds, key=order.index)
    d = as_dtype(dtype)
    s, l, k = [np.asarray(_t(v)._a).astype(d.dtype)[()] for v in vals]
    if k == 0:
        raise _inv("Requires delta != 0")
    if d.is_integer and ((l < s and k > 0) or (l > s and k < 0)):
        raise _inv("Requires start <= limit when delta > 0")
    return Tensor(np.arange(s, l, k, dtype=d.dtype), d)


def linspace(start, stop, num, name=None, axis=0):
    s, e = _pair(start, stop)
    if s.dtype.is_integer:
        s, e = cast(s, float64), cast(e, float64)
    return Tensor(np.linspace(s._a, e._a, builtins.int(num), axis=axis).astype(s.dtype.dtype), s.dtype)


def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
    i = _t(indices)
    d = as_dtype(dtype) if dtype is not None else (_t(on_value).dtype if on_value is not None else float32)
    on = 1 if on_value is None else np.asarray(_t(on_value)._a)
    off = 0 if off_value is None else np.asarray(_t(off_value)._a)
    depth = builtins.int(depth)
    r = i._a[..., None] == np.arange(depth)
    r = np.where(r, on, off).astype(d.dtype)
    if axis is not None and axis != -1:
        r = np.moveaxis(r, -1, axis)
    return Tensor(r, d)


def meshgrid(*args, **kw):
    ts = [_t(a) for a in args]
    return [Tensor(a.copy(), t.dtype) for a, t in zip(np.meshgrid(*[t._a for t in ts], indexing=kw.get("indexing", "xy")), ts)]


# ------------------------------------------------------------------- layout
def shape(input=None, out_type=int32, name=None):  # noqa: A002
    return Tensor(np.array(_t(input)._a.shape, as_dtype(out_type).dtype), as_dtype(out_type))


def size(input=None, out_type=int32, name=None):  # noqa: A002
    return Tensor(np.array(_t(input)._a.size, as_dtype(out_type).dtype), as_dtype(out_type))


def rank(input, name=None):  # noqa: A002
    return Tensor(np.array(_t(input)._a.ndim, np.int32), int32)


def reshape(tensor, shape, name=None):
    t = _t(tensor)
    s = _shape(shape)
    try:
        if -1 in s and t._a.size == 0:
            # numpy cannot infer a dimension from zero elements.
            rest = builtins.int(np.prod([d for d in s if d != -1]))
            s = tuple((0 if rest else 0) if d == -1 else d for d in s)
        return Tensor(t._a.reshape(s), t.dtype)
    except ValueError as e:
        raise _inv("Input to reshape is a tensor with %d values, but the requested shape is %s" % (t._a.size, s))


def transpose(a, perm=None, conjugate=False, name=None):
    t = _t(a)
    return Tensor(np.transpose(t._a, None if perm is None else _shape(perm)).copy(), t.dtype)


def matrix_transpose(a, name=None, conjugate=False):
    t = _t(a)
    return Tensor(np.swapaxes(t._a, -1, -2).copy(), t.dtype)


def expand_dims(input, axis=None, name=None, dim=None):  # noqa: A002
    t = _t(input)
    ax = _axis(axis if axis is not None else dim)
    if isinstance(ax, tuple):
        raise ValueError("expand_dims needs one axis")
    return Tensor(np.expand_dims(t._a, ax), t.dtype)


def squeeze(input, axis=None, name=None, squeeze_dims=None):  # noqa: A002
    t = _t(input)
    try:
        return Tensor(np.squeeze(t._a, _axis(axis)), t.dtype)
    except ValueError as e:
        raise _inv("Can not squeeze: %s" % e)


def _same(values):
    ref = _has_tensor(list(values))
    ts = [_t(v, ref.dtype if ref is not None else None) for v in values]
    if ref is None and len({x.dtype.name for x in ts}) > 1:
        # Python values: the first dtype wins when it can hold the others.
        d = builtins.max((x.dtype for x in ts), key=lambda d: (d.is_floating, d.size))
        ts = [Tensor(x._a.astype(d.dtype), d) for x in ts]
    for x in ts:
        if x.dtype != ts[0].dtype:
            raise _inv("cannot compute as input was expected to be a %s tensor but is a %s tensor" % (ts[0].dtype.name, x.dtype.name))
    return ts


def stack(values, axis=0, name="stack"):
    if isinstance(values, Tensor):
        values = unstack(values)
    ts = _same(values)
    try:
        return Tensor(np.stack([t._a for t in ts], _axis(axis)), ts[0].dtype)
    except ValueError as e:
        raise _inv("Shapes of all inputs must match: %s" % e)


def concat(values, axis, name="concat"):
    if isinstance(values, Tensor):
        if values._a.ndim == 0:
            raise _inv("concat of a scalar")
        return values if False else Tensor(np.concatenate(list(values._a), _axis(axis)), values.dtype) if values._a.ndim > 1 else values
    ts = _same(values)
    if any(t._a.ndim == 0 for t in ts):
        raise _inv("ConcatOp : Expected concatenating dimensions in the range [0, 0), but got 0")
    try:
        return Tensor(np.concatenate([t._a for t in ts], _axis(axis)), ts[0].dtype)
    except ValueError as e:
        raise _inv("ConcatOp : Dimensions of inputs should match: %s" % e)


def unstack(value, num=None, axis=0, name="unstack"):
    t = _t(value)
    if num is not None and t._a.shape[axis] != num:
        raise ValueError("num %d does not match %s" % (num, t._a.shape))
    return [Tensor(np.take(t._a, i, axis=axis), t.dtype) for i in range_(t._a.shape[axis])]


def split(value, num_or_size_splits, axis=0, num=None, name="split"):
    t = _t(value)
    ax = _axis(axis)
    if isinstance(num_or_size_splits, Tensor):
        num_or_size_splits = num_or_size_splits._a.tolist()
    n = t._a.shape[ax]
    if isinstance(num_or_size_splits, (builtins.int, np.integer)):
        if n % num_or_size_splits:
            raise _inv("Dimension size must be evenly divided by %d but is %d" % (num_or_size_splits, n))
        parts = np.split(t._a, num_or_size_splits, ax)
    else:
        sizes = [builtins.int(s) for s in num_or_size_splits]
        if -1 in sizes:
            sizes[sizes.index(-1)] = n - builtins.sum(s for s in sizes if s != -1)
        if builtins.sum(sizes) != n:
            raise _inv("Determined shape must match the sum of the sizes: %s for %d" % (sizes, n))
        parts = np.split(t._a, np.cumsum(sizes)[:-1], ax)
    return [Tensor(p.copy(), t.dtype) for p in parts]


def tile(input, multiples, name=None):  # noqa: A002
    t = _t(input)
    m = _shape(multiples)
    if len(m) != t._a.ndim:
        raise _inv("Expected multiples argument to be a vector of length %d but got length %d" % (t._a.ndim, len(m)))
    return Tensor(np.tile(t._a, m), t.dtype)


def repeat(input, repeats, axis=None, name=None):  # noqa: A002
    t = _t(input)
    r = np.asarray(_t(repeats)._a)
    return Tensor(np.repeat(t._a, r if r.ndim else builtins.int(r), axis=_axis(axis)), t.dtype)


def broadcast_to(input, shape, name=None):  # noqa: A002
    t = _t(input)
    try:
        return Tensor(np.broadcast_to(t._a, _shape(shape)).copy(), t.dtype)
    except ValueError as e:
        raise _inv("Incompatible shapes: %s vs. %s" % (t._a.shape, _shape(shape)))


def broadcast_static_shape(a, b):
    return TensorShape(np.broadcast_shapes(tuple(a), tuple(b)))


def broadcast_dynamic_shape(a, b):
    return Tensor(np.array(np.broadcast_shapes(_shape(a), _shape(b)), np.int32))


def reverse(tensor, axis, name=None):
    t = _t(tensor)
    return Tensor(np.flip(t._a, _axis(axis)).copy(), t.dtype)


def roll(input, shift, axis, name=None):  # noqa: A002
    t = _t(input)
    return Tensor(np.roll(t._a, _axis(shift), _axis(axis)), t.dtype)


def pad(tensor, paddings, mode="CONSTANT", constant_values=0, name=None):
    t = _t(tensor)
    p = np.asarray(_t(paddings)._a).tolist()
    if len(p) != t._a.ndim:
        raise _inv("The first dimension of paddings must be the rank of inputs")
    mode = mode.upper()
    if mode == "CONSTANT":
        return Tensor(np.pad(t._a, p, constant_values=np.asarray(_t(constant_values, t.dtype)._a)), t.dtype)
    for (a, b), n in zip(p, t._a.shape):
        if builtins.max(a, b) > (n - 1 if mode == "REFLECT" else n):
            raise _inv("paddings must be less than the dimension size")
    return Tensor(np.pad(t._a, p, mode=dict(REFLECT="reflect", SYMMETRIC="symmetric")[mode]), t.dtype)


def slice_(input_, begin, size, name=None):
    t = _t(input_)
    b, s = _shape(begin), _shape(size)
    return Tensor(t._a[tuple(slice(i, None if n == -1 else i + n) for i, n in zip(b, s))], t.dtype)


def sort(values, axis=-1, direction="ASCENDING", name=None):
    t = _t(values)
    r = np.sort(t._a, axis=axis)
    return Tensor(np.flip(r, axis).copy() if direction == "DESCENDING" else r, t.dtype)


def argsort(values, axis=-1, direction="ASCENDING", stable=False, name=None):
    t = _t(values)
    a = t._a
    r = np.argsort(-a.astype(np.float64) if direction == "DESCENDING" else a, axis=axis, kind="stable")
    return Tensor(r.astype(np.int32), int32)


def top_k(input, k=1, sorted=True, name=None):  # noqa: A002
    t = _t(input)
    i = np.argsort(-t._a.astype(np.float64), axis=-1, kind="stable")[..., :builtins.int(k)]
    return Tensor(np.take_along_axis(t._a, i, -1), t.dtype), Tensor(i.astype(np.int32), int32)


def searchsorted(sorted_sequence, values, side="left", out_type=int32, name=None):
    s, v = _pair(sorted_sequence, values)
    if s._a.ndim == 1:
        r = np.searchsorted(s._a, v._a, side)
    else:
        f = s._a.reshape(-1, s._a.shape[-1])
        g = v._a.reshape(f.shape[0], -1)
        r = np.stack([np.searchsorted(a, b, side) for a, b in zip(f, g)]).reshape(v._a.shape)
    return Tensor(r.astype(as_dtype(out_type).dtype))


# ----------------------------------------------------------- gather, scatter
def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    p, i = _t(params), _t(indices)
    if not i.dtype.is_integer:
        raise _inv("gather indices must be integers")
    ax = batch_dims if axis is None else _axis(axis)
    if ax < 0:
        ax += p._a.ndim
    bd = builtins.int(batch_dims)
    if bd < 0:
        bd += i._a.ndim
    n = p._a.shape[ax]
    if i._a.size and (i._a.min() < 0 or i._a.max() >= n):
        raise _inv("indices = %s is not in [0, %d)" % (i._a[(i._a < 0) | (i._a >= n)][0], n))
    if bd == 0:
        return Tensor(np.take(p._a, i._a.astype(np.int64), axis=ax), p.dtype)
    if p._a.shape[:bd] != i._a.shape[:bd]:
        raise _inv("params.shape[:batch_dims] must match indices.shape[:batch_dims]: %s %s" % (p._a.shape, i._a.shape))
    lead = p._a.shape[:bd]
    pf = p._a.reshape((-1,) + p._a.shape[bd:])
    jf = i._a.reshape((-1,) + i._a.shape[bd:])
    rows = [np.take(a, b, axis=ax - bd) for a, b in zip(pf, jf)]
    tail = p._a.shape[bd:ax] + i._a.shape[bd:] + p._a.shape[ax + 1:]
    return Tensor(np.stack(rows).reshape(lead + tail) if rows else np.zeros(lead + tail, p._a.dtype), p.dtype)


def gather_nd(params, indices, batch_dims=0, name=None):
    p, i = _t(params), _t(indices)
    bd = builtins.int(batch_dims)
    if bd:
        lead = p._a.shape[:bd]
        if lead != i._a.shape[:bd]:
            raise _inv("batch dimensions differ")
        pf, jf = p._a.reshape((-1,) + p._a.shape[bd:]), i._a.reshape((-1,) + i._a.shape[bd:])
        rows = [gather_nd(Tensor(a, p.dtype), Tensor(b, i.dtype))._a for a, b in zip(pf, jf)]
        return Tensor(np.stack(rows).reshape(lead + rows[0].shape), p.dtype)
    k = i._a.shape[-1]
    if k > p._a.ndim:
        raise _inv("index innermost dimension length must be <= params rank")
    for d in range_(k):
        c = i._a[..., d]
        if c.size and (c.min() < 0 or c.max() >= p._a.shape[d]):
            raise _inv("indices out of bounds: dimension %d of size %d" % (d, p._a.shape[d]))
    if k == 0:
        return Tensor(np.broadcast_to(p._a, i._a.shape[:-1] + p._a.shape).copy(), p.dtype)
    return Tensor(p._a[tuple(i._a[..., d] for d in range_(k))], p.dtype)


def _scatter_check(i, shp):
    k = i.shape[-1]
    for d in range_(k):
        c = i[..., d]
        if c.size and (c.min() < 0 or c.max() >= shp[d]):
            raise _inv("indices do not index into shape %s" % (shp,))
    return tuple(i[..., d].ravel() for d in range_(k))


def scatter_nd(indices, updates, shape, name=None):
    i, u = _t(indices), _t(updates)
    shp = _shape(shape)
    out = np.zeros(shp, u._a.dtype)
    ix = _scatter_check(i._a, shp)
    want = i._a.shape[:-1] + shp[i._a.shape[-1]:]
    if u._a.shape != want:
        raise _inv("updates shape %s, expected %s" % (u._a.shape, want))
    (np.logical_or if u.dtype.is_bool else np.add).at(out, ix, u._a.reshape((-1,) + shp[i._a.shape[-1]:]))
    return Tensor(out, u.dtype)


def _tensor_scatter(how):
    def f(tensor, indices, updates, name=None):
        t, i = _t(tensor), _t(indices)
        u = _t(updates, t.dtype)
        if u.dtype != t.dtype:
            raise _inv("dtype of updates")
        out = t._a.copy()
        ix = _scatter_check(i._a, out.shape)
        want = i._a.shape[:-1] + out.shape[i._a.shape[-1]:]
        if u._a.shape != want:
            u = Tensor(np.broadcast_to(u._a, want), u.dtype) if u._a.ndim == 0 else u
        if u._a.shape != want:
            raise _inv("updates shape %s, expected %s" % (u._a.shape, want))
        v = u._a.reshape((-1,) + out.shape[i._a.shape[-1]:])
        if how == "update":
            for n in range_(v.shape[0]):
                out[tuple(c[n] for c in ix)] = v[n]
        else:
            dict(add=np.add, sub=np.subtract, max=np.maximum, min=np.minimum)[how].at(out, ix, v)
        return Tensor(out, t.dtype)
    return f


tensor_scatter_nd_update, tensor_scatter_nd_add = _tensor_scatter("update"), _tensor_scatter("add")
tensor_scatter_nd_max, tensor_scatter_nd_min = _tensor_scatter("max"), _tensor_scatter("min")
tensor_scatter_nd_sub = _tensor_scatter("sub")


def boolean_mask(tensor, mask, axis=None, name=None):
    t, m = _t(tensor), _t(mask)
    if not m.dtype.is_bool:
        raise _inv("boolean_mask needs a bool mask")
    ax = 0 if axis is None else _axis(axis)
    if m._a.ndim == 0:
        raise ValueError("mask cannot be scalar.")
    if t._a.shape[ax:ax + m._a.ndim] != m._a.shape:
        raise ValueError("Shapes %s and %s are incompatible" % (t._a.shape[ax:ax + m._a.ndim], m._a.shape))
    return Tensor(t._a[(slice(None),) * ax + (m._a,)], t.dtype)


def where(condition, x=None, y=None, name=None):
    c = _t(condition)
    if x is None and y is None:
        return Tensor(np.argwhere(c._a).astype(np.int64), int64)
    if x is None or y is None:
        raise ValueError("x and y must both be non-None or both be None.")
    if not c.dtype.is_bool:
        raise _inv("where needs a bool condition, got %s" % c.dtype.name)
    x, y = _pair(x, y)
    try:
        return Tensor(np.where(c._a, x._a, y._a), x.dtype)
    except ValueError as e:
        raise _inv("where: incompatible shapes %s %s %s" % (c._a.shape, x._a.shape, y._a.shape))


def where_v1(condition, x=None, y=None, name=None):
    c = _t(condition)
    if x is None and y is None:
        return where(c)
    x, y = _pair(x, y)
    if x._a.shape != y._a.shape:
        raise ValueError("Dimensions must be equal, but are %s and %s for 'Select'" % (x._a.shape, y._a.shape))
    if c._a.shape != x._a.shape:
        if c._a.ndim == 1 and x._a.ndim > 1 and c._a.shape[0] == x._a.shape[0]:
            c = Tensor(c._a.reshape((-1,) + (1,) * (x._a.ndim - 1)))
        elif c._a.ndim != 0:
            raise ValueError("Shapes must be equal rank for 'Select': %s %s" % (c._a.shape, x._a.shape))
    return where(c, x, y)


def unique(x, out_idx=int32, name=None):
    t = _t(x)
    if t._a.ndim != 1:
        raise _inv("unique expects a 1D vector.")
    _, first, inv = np.unique(t._a, return_index=True, return_inverse=True)
    order = np.argsort(first, kind="stable")
    place = np.empty_like(order)
    place[order] = np.arange(order.size)
    import collections
    return collections.namedtuple("Unique", "y idx")(Tensor(t._a[np.sort(first)], t.dtype), Tensor(place[inv].astype(as_dtype(out_idx).dtype)))


def unique_with_counts(x, out_idx=int32, name=None):
    y, idx = unique(x, out_idx)
    import collections
    return collections.namedtuple("UniqueWithCounts", "y idx count")(y, idx, Tensor(np.bincount(idx._a, minlength=y._a.size).astype(as_dtype(out_idx).dtype)))


def _unsorted(fn, init, mean=False):
    def f(data, segment_ids, num_segments, name=None):
        d, s = _t(data), _t(segment_ids)
        n = builtins.int(num_segments)
        if d._a.shape[:s._a.ndim] != s._a.shape:
            raise _inv("data.shape = %s does not start with segment_ids.shape = %s" % (d._a.shape, s._a.shape))
        tail = d._a.shape[s._a.ndim:]
        out = np.full((n,) + tail, init(d._a.dtype), d._a.dtype)
        ids, v = s._a.ravel(), d._a.reshape((-1,) + tail)
        if ids.size and ids.max() >= n:
            raise _inv("segment_ids = %d is out of range [0, %d)" % (ids.max(), n))
        ok = ids >= 0
        fn.at(out, ids[ok], v[ok])
        if mean:
            c = np.bincount(ids[ok], minlength=n).reshape((-1,) + (1,) * len(tail))
            out = (out / np.maximum(c, 1)).astype(out.dtype)
        return Tensor(out, d.dtype)
    return f


unsorted_segment_sum = _unsorted(np.add, lambda d: 0)
unsorted_segment_mean = _unsorted(np.add, lambda d: 0, True)
unsorted_segment_prod = _unsorted(np.multiply, lambda d: 1)
unsorted_segment_max = _unsorted(np.maximum, lambda d: np.finfo(d).min if d.kind == "f" else np.iinfo(d).min)
unsorted_segment_min = _unsorted(np.minimum, lambda d: np.finfo(d).max if d.kind == "f" else np.iinfo(d).max)


def _sorted(fn):
    def f(data, segment_ids, name=None):
        s = _t(segment_ids)
        n = builtins.int(s._a.max()) + 1 if s._a.size else 0
        return fn(data, s, n)
    return f


segment_sum, segment_mean, segment_max, segment_min = map(_sorted, (unsorted_segment_sum, unsorted_segment_mean, unsorted_segment_max, unsorted_segment_min))


def bincount(arr, weights=None, minlength=None, maxlength=None, dtype=int32, name=None, **kw):
    if maxlength is not None or weights is not None:
        raise HarnessGap("bincount")
    return Tensor(np.bincount(_t(arr)._a.ravel(), minlength=builtins.int(minlength or 0)).astype(as_dtype(dtype).dtype))


def confusion_matrix(labels, predictions, num_classes=None, weights=None, dtype=int32, name=None):
    l, p = _t(labels)._a.ravel(), _t(predictions)._a.ravel()
    n = builtins.int(num_classes) if num_classes is not None else builtins.int(builtins.max(l.max(), p.max())) + 1
    m = np.zeros((n, n), as_dtype(dtype).dtype)
    np.add.at(m, (l, p), 1 if weights is None else _t(weights)._a.ravel())
    return Tensor(m)


# ------------------------------------------------------------------- linalg
def matmul(a, b, transpose_a=False, transpose_b=False, name=None, **kw):
    a, b = _pair(a, b)
    x = np.swapaxes(a._a, -1, -2) if transpose_a else a._a
    y = np.swapaxes(b._a, -1, -2) if transpose_b else b._a
    if x.ndim < 2 or y.ndim < 2:
        raise _inv("In[0] and In[1] must have rank at least 2, got %s %s" % (x.shape, y.shape))
    try:
        return Tensor(np.matmul(x, y), a.dtype)
    except ValueError as e:
        raise _inv("Matrix size-incompatible: %s" % e)


def matvec(a, b, transpose_a=False, name=None, **kw):
    return squeeze(matmul(a, expand_dims(b, -1), transpose_a=transpose_a), -1)


def tensordot(a, b, axes, name=None):
    a, b = _pair(a, b)
    return Tensor(np.tensordot(a._a, b._a, axes), a.dtype)


def einsum(equation, *inputs, **kw):
    ts = _same(inputs)
    try:
        return Tensor(np.einsum(equation.replace(" ", ""), *[t._a for t in ts]).astype(ts[0].dtype.dtype), ts[0].dtype)
    except ValueError as e:
        raise _inv("einsum %s of %s: %s" % (equation, [t._a.shape for t in ts], e))


def inv(input, adjoint=False, name=None):  # noqa: A002
    t = _t(input)
    if not t.dtype.is_floating:
        raise _inv("inv needs floats")
    try:
        return Tensor(np.linalg.inv(t._a).astype(t.dtype.dtype), t.dtype)
    except np.linalg.LinAlgError as e:
        raise _inv("Input is not invertible.")


def det(input, name=None):  # noqa: A002
    t = _t(input)
    return Tensor(np.asarray(np.linalg.det(t._a), dtype=t.dtype.dtype), t.dtype)


def solve(matrix, rhs, adjoint=False, name=None):
    a, b = _pair(matrix, rhs)
    return Tensor(np.linalg.solve(a._a, b._a).astype(a.dtype.dtype), a.dtype)


def cross(a, b, name=None):
    a, b = _pair(a, b)
    return Tensor(np.cross(a._a, b._a), a.dtype)


def diag(x, name=None, **kw):
    t = _t(x)
    n = t._a.shape[-1]
    out = np.zeros(t._a.shape + (n,), t._a.dtype)
    out[..., np.arange(n), np.arange(n)] = t._a
    return Tensor(out, t.dtype)


def diag_part(x, name=None, **kw):
    t = _t(x)
    return Tensor(np.diagonal(t._a, axis1=-2, axis2=-1).copy(), t.dtype)


def set_diag(x, d, name=None, **kw):
    t, v = _pair(x, d)
    out = t._a.copy()
    n = builtins.min(out.shape[-2:])
    out[..., np.arange(n), np.arange(n)] = v._a
    return Tensor(out, t.dtype)


def band_part(input, num_lower, num_upper, name=None):  # noqa: A002
    t = _t(input)
    i, j = np.indices(t._a.shape[-2:])
    lo, up = builtins.int(num_lower), builtins.int(num_upper)
    m = ((lo < 0) | (i - j <= lo)) & ((up < 0) | (j - i <= up))
    return Tensor(np.where(m, t._a, np.zeros((), t._a.dtype)), t.dtype)


def trace(x, name=None):
    t = _t(x)
    return Tensor(np.trace(t._a, axis1=-2, axis2=-1), t.dtype)


def svd(tensor, full_matrices=False, compute_uv=True, name=None):
    t = _t(tensor)
    if not compute_uv:
        return Tensor(np.linalg.svd(t._a, compute_uv=False), t.dtype)
    u, s, v = np.linalg.svd(t._a, full_matrices=full_matrices)
    return Tensor(s, t.dtype), Tensor(u, t.dtype), Tensor(np.swapaxes(v, -1, -2).copy(), t.dtype)


def l2_normalize(x, axis=None, epsilon=1e-12, name=None, dim=None):
    t = _t(x)
    s = np.sum(t._a * t._a, axis=_axis(axis), keepdims=True)
    return Tensor((t._a / np.sqrt(np.maximum(s, epsilon))).astype(t.dtype.dtype), t.dtype)


def softmax(logits, axis=-1, name=None):
    t = _t(logits)
    e = np.exp(t._a - t._a.max(axis=axis, keepdims=True))
    return Tensor((e / e.sum(axis=axis, keepdims=True)).astype(t.dtype.dtype), t.dtype)


def log_softmax(logits, axis=-1, name=None):
    return log(softmax(logits, axis))


def clip_by_value(t, clip_value_min, clip_value_max, name=None):
    t = _t(t)
    lo, hi = _pair(t, clip_value_min)[1], _pair(t, clip_value_max)[1]
    return Tensor(np.minimum(np.maximum(t._a, lo._a), hi._a), t.dtype)


def left_shift(x, y, name=None):
    return _bin(np.left_shift, x, y)


def right_shift(x, y, name=None):
    return _bin(np.right_shift, x, y)


def bitwise_and(x, y, name=None):
    return _bin(np.bitwise_and, x, y)


def bitwise_or(x, y, name=None):
    return _bin(np.bitwise_or, x, y)


def bitwise_xor(x, y, name=None):
    return _bin(np.bitwise_xor, x, y)


def invert(x, name=None):
    return Tensor(np.invert(_t(x)._a))


# ----------------------------------------------------------------- structure
def _flatten(s):
    if isinstance(s, dict):
        return [y for k in sorted(s) for y in _flatten(s[k])]
    if isinstance(s, (list, tuple)):
        return [y for x in s for y in _flatten(x)]
    return [s]


def _map_structure(fn, *ss, **kw):
    s = ss[0]
    if isinstance(s, dict):
        return type(s)((k, _map_structure(fn, *[x[k] for x in ss])) for k in s)
    if isinstance(s, tuple) and hasattr(s, "_fields"):
        return type(s)(*[_map_structure(fn, *x) for x in zip(*ss)])
    if isinstance(s, (list, tuple)):
        return type(s)(_map_structure(fn, *x) for x in zip(*ss))
    return fn(*ss)


def map_fn(fn, elems, dtype=None, parallel_iterations=None, back_prop=True, swap_memory=False, infer_shape=True,
           name=None, fn_output_signature=None):
    sig = fn_output_signature if fn_output_signature is not None else dtype
    flat = _flatten(elems)
    n = _t(flat[0])._a.shape[0]
    for x in flat:
        if _t(x)._a.shape[0] != n:
            raise _inv("elems must have the same first dimension")
    outs = [fn(_map_structure(lambda x: _t(x)[i], elems)) for i in range_(n)]
    if not outs:
        if isinstance(sig, DType) or sig is None:
            return zeros([0], sig or _t(flat[0]).dtype)
        return _map_structure(lambda d: zeros([0], d if isinstance(d, DType) else d.dtype), sig)
    r = _map_structure(lambda *xs: stack([_t(x) for x in xs]), *outs)
    if isinstance(sig, DType) and isinstance(r, Tensor) and r.dtype != sig:
        raise TypeError("map_fn: expected %s, got %s" % (sig, r.dtype))
    return r


def vectorized_map(fn, elems, fallback_to_while_loop=True, warn=True):
    return map_fn(fn, elems)


def scan(fn, elems, initializer=None, reverse=False, **kw):
    n = _t(_flatten(elems)[0])._a.shape[0]
    acc, outs = initializer, []
    idx = range_(n)
    for i in (reversed(idx) if reverse else idx):
        e = _map_structure(lambda x: _t(x)[i], elems)
        acc = e if acc is None else fn(acc, e)
        outs.append(acc)
    if reverse:
        outs.reverse()
    return _map_structure(lambda *xs: stack(list(xs)), *outs)


def foldl(fn, elems, initializer=None, **kw):
    acc = initializer
    for i in range_(_t(_flatten(elems)[0])._a.shape[0]):
        e = _map_structure(lambda x: _t(x)[i], elems)
        acc = e if acc is None else fn(acc, e)
    return acc


def while_loop(cond, body, loop_vars, **kw):
    v = tuple(loop_vars)
    while cond(*v):
        r = body(*v)
        v = tuple(r) if isinstance(r, (list, tuple)) else (r,)
    return list(v)


def cond(pred, true_fn=None, false_fn=None, name=None, **kw):
    return true_fn() if builtins.bool(pred) else false_fn()


def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name="case"):
    for p, f in pred_fn_pairs:
        if builtins.bool(p):
            return f()
    return default()


def py_function(func=None, inp=None, Tout=None, name=None):
    r = func(*[_t(x) for x in inp])
    if isinstance(Tout, (list, tuple)):
        out = []
        for x, d in zip(r, Tout):
            t = _t(x, as_dtype(d)) if isinstance(x, Tensor) else convert_to_tensor(np.asarray(x), None)
            out.append(t if t.dtype == as_dtype(d) else Tensor(t._a.astype(as_dtype(d).dtype), as_dtype(d)))
        return out
    return convert_to_tensor(r, Tout)


def numpy_function(func=None, inp=None, Tout=None, name=None, **kw):
    r = func(*[_t(x).numpy() for x in inp])
    if isinstance(Tout, (list, tuple)):
        return [convert_to_tensor(np.asarray(x), d) for x, d in zip(r, Tout)]
    return convert_to_tensor(np.asarray(r), Tout)


def function(func=None, **kw):
    if func is None:
        return lambda f: f
    return func


class _Scope:
    def __init__(self, name=None, default_name=None, values=None, **kw):
        self.name = name or default_name or ""

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        return False


name_scope = control_dependencies = device = _Scope


class _Op:
    """What tf.group gives: it knows the assignments it stands for."""

    def __init__(self, updates):
        self._updates = updates

    def run(self, *a, **k):
        return None


def _updates_of(x):
    if isinstance(x, (list, tuple)):
        return [u for y in x for u in _updates_of(y)]
    if isinstance(x, dict):
        return _updates_of(list(x.values()))
    return list(getattr(x, "__dict__", {}).get("_updates", ()))


def group(*inputs, **kw):
    return _Op(_updates_of(inputs))


def no_op(name=None):
    return None


def executing_eagerly():
    return True


def is_tensor(x):
    return isinstance(x, Tensor)


def get_static_value(tensor, partial=False):
    return np.asarray(_t(tensor)._a)


# --------------------------------------------------------------- assertions
def _assert_bin(fn, word):
    def f(x, y, message=None, summarize=None, name=None, data=None):
        x, y = _pair(x, y)
        if not np.all(_np2(fn, x._a, y._a)):
            raise _inv("%s Condition x %s y did not hold." % (message or "", word))
    return f


assert_equal, assert_none_equal = _assert_bin(np.equal, "=="), _assert_bin(np.not_equal, "!=")
assert_less, assert_less_equal = _assert_bin(np.less, "<"), _assert_bin(np.less_equal, "<=")
assert_greater, assert_greater_equal = _assert_bin(np.greater, ">"), _assert_bin(np.greater_equal, ">=")


def _assert_un(ok, word):
    def f(x, message=None, summarize=None, name=None, data=None):
        if not np.all(ok(_t(x)._a)):
            raise _inv("%s Condition x %s did not hold." % (message or "", word))
    return f


assert_non_negative = _assert_un(lambda a: a >= 0, ">= 0")
assert_positive = _assert_un(lambda a: a > 0, "> 0")
assert_negative = _assert_un(lambda a: a < 0, "< 0")
assert_non_positive = _assert_un(lambda a: a <= 0, "<= 0")


def assert_all_finite(x, message="", name=None):
    if not np.all(np.isfinite(_t(x)._a)):
        raise _inv("%s : Tensor had NaN or Inf" % message)
    return _t(x)


def check_numerics(tensor, message, name=None):
    return assert_all_finite(tensor, message)


def Assert(condition, data, summarize=None, name=None):
    if not builtins.bool(condition):
        raise _inv("assertion failed: %s" % (data,))


def assert_rank(x, rank, message=None, name=None, **kw):
    if _t(x)._a.ndim != builtins.int(rank):
        raise ValueError("%s. Tensor %s must have rank %d.  Received rank %d, shape %s" % (message or "", "", rank, _t(x)._a.ndim, _t(x)._a.shape))


def assert_rank_at_least(x, rank, message=None, name=None, **kw):
    if _t(x)._a.ndim < builtins.int(rank):
        raise ValueError("%s. Tensor must have rank at least %d." % (message or "", rank))


def assert_rank_in(x, ranks, message=None, name=None, **kw):
    if _t(x)._a.ndim not in [builtins.int(r) for r in ranks]:
        raise ValueError("%s. Tensor must have rank in %s." % (message or "", ranks))


def assert_type(tensor, tf_type, message=None, name=None):
    if _t(tensor).dtype != as_dtype(tf_type):
        raise TypeError("%s tensor must be of type %s" % (message or "", tf_type))


def assert_scalar(tensor, name=None, message=None):
    if _t(tensor)._a.ndim:
        raise ValueError("Expected scalar shape, saw shape: %s" % (_t(tensor)._a.shape,))
    return _t(tensor)


def assert_shapes(shapes, data=None, summarize=None, message=None, name=None):
    items = list(shapes.items()) if isinstance(shapes, dict) else list(shapes)
    sym = {}
    for x, spec in items:
        if isinstance(x, builtins.int):
            raise HarnessGap("assert_shapes keys")
        shp = x.shape if hasattr(x, "shape") else _t(x).shape
        got = tuple(builtins.int(d) for d in shp)
        if isinstance(spec, builtins.str):
            spec = list(spec)
        if isinstance(spec, (builtins.int,)):
            spec = [spec]
        spec = list(spec)
        star = [i for i, d in enumerate(spec) if d is Ellipsis or d == "*" and False]
        if Ellipsis in spec:
            i = spec.index(Ellipsis)
            n = len(got) - (len(spec) - 1)
            if n < 0:
                raise ValueError("%s rank of %s, expected %s" % (message or "", got, spec))
            spec = spec[:i] + [None] * n + spec[i + 1:]
        if len(spec) != len(got):
            raise ValueError("%s Tensor has shape %s, expected %s" % (message or "", got, spec))
        for d, g in zip(spec, got):
            if d is None or d == ".":
                continue
            if isinstance(d, (builtins.int, np.integer)) or isinstance(d, builtins.str) and d.isdigit():
                if builtins.int(d) != g:
                    raise ValueError("%s Tensor dimension has size %d, expected %s (%s vs %s)" % (message or "", g, d, got, spec))
            elif sym.setdefault(d, g) != g:
                raise ValueError("%s Tensor dimension %s has size %d, expected %s" % (message or "", d, g, sym[d]))


def ensure_shape(x, shape, name=None):
    t = _t(x)
    if not TensorShape(t._a.shape).is_compatible_with(shape):
        raise _inv("Shape of tensor %s is not compatible with expected shape %s." % (t._a.shape, shape))
    return t


# -------------------------------------------- further names a caller may use
asinh, acosh, atanh = map(_un, (np.arcsinh, np.arccosh, np.arctanh))


def sequence_mask(lengths, maxlen=None, dtype=None, name=None):
    n = _t(lengths)
    if not n.dtype.is_integer:
        raise _inv("lengths must be integer for sequence_mask")
    m = builtins.int(_t(maxlen)._a) if maxlen is not None else builtins.max(builtins.int(n._a.max()) if n._a.size else 0, 0)
    r = Tensor(np.arange(m) < n._a[..., None])
    return r if dtype is None else cast(r, dtype)


def unravel_index(indices, dims, name=None):
    i, d = _t(indices), _t(dims)
    if (i._a < 0).any() or (i._a >= np.prod(d._a)).any():
        raise _inv("index is out of bound as with dims")
    return Tensor(np.stack(np.unravel_index(i._a, tuple(d._a.tolist()))).astype(i._a.dtype), i.dtype)


def clip_by_norm(t, clip_norm, axes=None, name=None):
    t = _t(t)
    n = np.sqrt(np.sum(t._a * t._a, axis=_axis(axes), keepdims=True))
    return Tensor((t._a * clip_norm / np.maximum(n, clip_norm)).astype(t._a.dtype), t.dtype)


def normalize(tensor, ord="euclidean", axis=None, name=None):  # noqa: A002
    n = norm(tensor, ord, axis, keepdims=True)
    return _t(tensor) / n, n


def xlogy(x, y, name=None):
    x, y = _pair(x, y)
    with np.errstate(all="ignore"):
        return Tensor(np.where(x._a == 0, np.zeros_like(x._a), x._a * np.log(y._a)), x.dtype)


def xdivy(x, y, name=None):
    x, y = _pair(x, y)
    with np.errstate(all="ignore"):
        return Tensor(np.where(x._a == 0, np.zeros_like(x._a), x._a / y._a), x.dtype)


def polyval(coeffs, x, name=None):
    x = _t(x)
    r = zeros_like(x)
    for c in coeffs:
        r = r * x + c
    return r


def dynamic_partition(data, partitions, num_partitions, name=None):
    d, p = _t(data), _t(partitions)
    if d._a.shape[:p._a.ndim] != p._a.shape:
        raise _inv("data.shape must start with partitions.shape")
    if (p._a < 0).any() or (p._a >= num_partitions).any():
        raise _inv("partitions is not in [0, %d)" % num_partitions)
    return [Tensor(d._a[p._a == k], d.dtype) for k in builtins.range(num_partitions)]


def dynamic_stitch(indices, data, name=None):
    ii, dd = [_t(i) for i in indices], [_t(d) for d in data]
    tail = dd[0]._a.shape[ii[0]._a.ndim:]
    out = np.zeros((1 + builtins.max([builtins.int(i._a.max()) for i in ii if i._a.size] + [-1]),) + tail, dd[0]._a.dtype)
    for i, d in zip(ii, dd):
        out[i._a.ravel()] = d._a.reshape((-1,) + tail)
    return Tensor(out, dd[0].dtype)


def histogram_fixed_width(values, value_range, nbins=100, dtype=int32, name=None):
    v = _t(values)
    lo, hi = [x for x in _t(value_range)._a]
    if not lo < hi:
        raise _inv("value_range should satisfy value_range[0] < value_range[1], but got [%s, %s]" % (lo, hi))
    k = np.clip(np.floor((v._a.ravel() - lo) / ((hi - lo) / v._a.dtype.type(nbins))), 0, nbins - 1).astype(builtins.int)
    return Tensor(np.bincount(k, minlength=nbins).astype(as_dtype(dtype).dtype))


def is_non_decreasing(x, name=None):
    a = _t(x)._a.ravel()
    return Tensor(np.array(builtins.bool((a[1:] >= a[:-1]).all())))


def is_strictly_increasing(x, name=None):
    a = _t(x)._a.ravel()
    return Tensor(np.array(builtins.bool((a[1:] > a[:-1]).all())))


def zero_fraction(value, name=None):
    return Tensor(np.mean(_t(value)._a == 0, dtype=np.float32))


def strided_slice(input_, begin, end, strides=None, name=None):
    b, e = _t(begin)._a.tolist(), _t(end)._a.tolist()
    s = _t(strides)._a.tolist() if strides is not None else [1] * len(b)
    return _t(input_)[tuple(builtins.slice(*x) for x in zip(b, e, s))]


def print(*a, **k):  # noqa: A001
    return None


class TensorSpec:
    def __init__(self, shape, dtype=float32, name=None):
        self.shape, self.dtype, self.name = TensorShape(shape), as_dtype(dtype), name


class TensorArray:
    """Values written one by one; each place is written once."""

    def __init__(self, dtype, size=0, dynamic_size=False, clear_after_read=True, element_shape=None, infer_shape=True, **k):
        self.dtype, self._dyn = as_dtype(dtype), dynamic_size
        self._x = [None] * builtins.int(_t(size)._a)

    def write(self, index, value, name=None):
        i = builtins.int(_t(index)._a)
        v = _t(value)
        if v.dtype != self.dtype:
            raise _inv("TensorArray dtype is %s but Op is trying to write dtype %s" % (self.dtype.name, v.dtype.name))
        if i >= len(self._x):
            if not self._dyn:
                raise OutOfRangeError(None, None, "Tried to write to index %d but array is not resizeable and size is: %d" % (i, len(self._x)))
            self._x += [None] * (i + 1 - len(self._x))
        self._x[i] = v
        return self

    def read(self, index, name=None):
        v = self._x[builtins.int(_t(index)._a)]
        if v is None:
            raise HarnessGap("TensorArray.read of an unwritten element")
        return v

    def _all(self):
        if any(v is None for v in self._x):
            raise HarnessGap("unwritten TensorArray elements")
        return self._x

    def stack(self, name=None):
        return stack(self._all())

    def concat(self, name=None):
        return concat(self._all(), 0)

    def unstack(self, value, name=None):
        self._x = list(unstack(value))
        return self

    def gather(self, indices, name=None):
        return stack([self.read(i) for i in _t(indices)._a.tolist()])

    def size(self, name=None):
        return Tensor(np.array(len(self._x), np.int32))
