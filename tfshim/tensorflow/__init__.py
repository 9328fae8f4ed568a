"""TensorFlow's names over _core (see there)."""
import builtins as _b
import sys as _sys
import types as _types
import zlib as _zlib

import numpy as _np

from . import _core
from . import _png
from ._core import *  # noqa: F401,F403
from ._core import HarnessGap, _t, _axis, _inv, slice_ as slice  # noqa: A004,F401

__version__ = "2.13.0"

_REAL_MODULE_NAMES = {"__path__", "__file__"}


class _Module(_types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap("tf: %s.%s" % (self.__name__, k))


def _gap(k):
    if k.startswith("__"):
        raise AttributeError(k)
    raise HarnessGap("tf.%s" % k)


def _module(name, **names):
    m = _Module("tensorflow." + name)
    m.__dict__.update(names)
    _sys.modules["tensorflow." + name] = m
    return m


_public = {k: v for k, v in vars(_core).items() if not k.startswith("_")}


def _pick(*names):
    return {n: _public[n] for n in names if n in _public}


for _k in ("Variable",):
    globals()[_k] = _public[_k]

# ------------------------------------------------------------ plain modules
_floaty = dict(_public)
math = _module("math", **_public)
math.reduce_mean, math.mod = _core.reduce_mean, _core.floormod
math.top_k = _core.top_k


def _invert_permutation(x, name=None):
    t = _t(x)
    n = t._a.size
    if _b.sorted(t._a.tolist()) != list(_b.range(n)):
        raise _inv("not a permutation")
    out = _np.empty_like(t._a)
    out[t._a] = _np.arange(n)
    return _core.Tensor(out, t.dtype)


math.invert_permutation = _invert_permutation
math.l2_normalize, math.softmax, math.log_softmax = _core.l2_normalize, _core.softmax, _core.log_softmax
math.in_top_k = lambda *a, **k: _gap("math.in_top_k")
linalg = _module("linalg", **_pick("inv", "det", "solve", "cross", "diag", "diag_part", "set_diag", "band_part",
                                   "trace", "svd", "matmul", "matvec", "norm", "tensordot", "einsum", "eye",
                                   "l2_normalize", "matrix_transpose", "normalize"))
linalg.tensor_diag_part = _core.diag_part
linalg.tensor_diag = _core.diag
bitwise = _module("bitwise", **_pick("left_shift", "right_shift", "bitwise_and", "bitwise_or", "bitwise_xor", "invert"))
debugging = _module("debugging", **{k: v for k, v in _public.items() if k.startswith("assert")})
debugging.Assert, debugging.check_numerics = _core.Assert, _core.check_numerics
debugging.is_numeric_tensor = lambda t: isinstance(t, _core.Tensor) and t.dtype.name not in ("bool", "string")
errors = _module("errors", **{k: v for k, v in _public.items() if k.endswith("Error")})
dtypes = _module("dtypes", as_dtype=_core.as_dtype, cast=_core.cast, DType=_core.DType, saturate_cast=_core.saturate_cast)
nest = _module("nest", flatten=_core._flatten, map_structure=_core._map_structure)
nn = _module("nn", softmax=_core.softmax, log_softmax=_core.log_softmax, relu=_core.relu, sigmoid=_core.sigmoid,
             l2_normalize=_core.l2_normalize, softplus=_core.softplus, tanh=_core.tanh, top_k=_core.top_k,
             zero_fraction=_core.zero_fraction)


def _swap(fn):
    def f(input=None, axis=None, keepdims=False, name=None):  # noqa: A002
        return fn(input, axis, keepdims)
    return f


nn.moments = lambda x, axes, keepdims=False, **k: (_core.reduce_mean(x, axes, keepdims), _core.reduce_variance(x, axes, keepdims))


def _sig_ce(labels=None, logits=None, name=None):
    z, x = _t(labels), _t(logits)
    return _core.Tensor((_np.maximum(x._a, 0) - x._a * z._a + _np.log1p(_np.exp(-_np.abs(x._a)))).astype(x.dtype.dtype), x.dtype)


nn.sigmoid_cross_entropy_with_logits = _sig_ce


def _as_string(input, precision=-1, scientific=False, shortest=False, width=-1, fill="", name=None):  # noqa: A002
    t = _t(input)

    def one(v):
        if t.dtype.is_bool:
            return b"true" if v else b"false"
        if t.dtype.is_integer:
            s = str(int(v))
        else:
            s = "%.*f" % (6 if precision < 0 else precision, v)
        return (s.rjust(width, fill or " ") if width > 0 else s).encode()
    return _core.Tensor(_np.vectorize(one, otypes=[object])(t._a) if t._a.size else t._a.astype(object), _core.string)


def _join(inputs, separator="", name=None):
    ts = [_t(x) for x in inputs]
    a = ts[0]._a
    for x in ts[1:]:
        a = a + separator.encode() + x._a
    return _core.Tensor(_np.asarray(a, dtype=object), _core.string)


strings = _module("strings", as_string=_as_string, join=_join)
as_string = _as_string

# ------------------------------------------------------------------- images


def _bytes(x):
    x = x._a[()] if isinstance(x, _core.Tensor) else x
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        x = x[()]
    return x.encode() if isinstance(x, str) else _b.bytes(x)


def _decode_png(contents, channels=0, dtype=_core.uint8, name=None):
    dtype = _core.as_dtype(dtype)
    try:
        a = _png.decode(_bytes(contents))
    except ValueError as e:
        raise _inv("Invalid PNG data: %s" % e)
    if dtype.name == "uint16" and a.dtype == _np.uint8:
        a = a.astype(_np.uint16) * 257
    elif dtype.name == "uint8" and a.dtype == _np.uint16:
        a = (a >> 8).astype(_np.uint8)
    elif dtype.name not in ("uint8", "uint16"):
        raise TypeError("decode_png to %s" % dtype.name)
    if channels and channels != a.shape[2]:
        if a.shape[2] == 1 and channels == 3:
            a = _np.repeat(a, 3, 2)
        elif a.shape[2] == 4 and channels == 3:
            a = a[..., :3]
        elif a.shape[2] == 2 and channels == 1:
            a = a[..., :1]
        elif a.shape[2] == 3 and channels == 1:
            f = a.astype(_np.float64)
            a = _np.floor((f[..., :1] * 6968 + f[..., 1:2] * 23434 + f[..., 2:] * 2366 + 16384) / 32768).astype(a.dtype)
        else:
            raise HarnessGap("decode_png %d channels as %d" % (a.shape[2], channels))
    return _core.Tensor(a, dtype)


def _encode_png(image, compression=-1, name=None):
    t = _t(image)
    if t.dtype.name not in ("uint8", "uint16"):
        raise _inv("Value for attr 'T' of %s is not in the list of allowed values: uint8, uint16" % t.dtype.name)
    if t._a.ndim != 3 or t._a.shape[2] not in (1, 2, 3, 4):
        raise _inv("image must have 1, 2, 3, or 4 channels, shape %s" % (t._a.shape,))
    return _core.Tensor(_np.array(_png.encode(t._a), dtype=object), _core.string)


def _decode_jpeg(contents, channels=0, **kw):
    if _bytes(contents)[:8] != _png.MAGIC:
        if _bytes(contents)[:2] == b"\xff\xd8":
            raise HarnessGap("decode_jpeg of a JPEG image")
        raise _inv("Unknown image file format. One of JPEG, PNG, GIF, BMP required.")
    return _decode_png(contents, channels)  # TensorFlow's decode_jpeg reads PNG, too.


def _decode_compressed(bytes, compression_type="", name=None):  # noqa: A002
    t = _t(bytes)

    def one(x):
        try:
            if compression_type == "ZLIB":
                return _zlib.decompress(x)
            if compression_type == "GZIP":
                return _zlib.decompress(x, 31)
        except _zlib.error as e:
            raise DataLossError(None, None, "inflate() failed: %s" % e)
        return x
    out = _np.empty(t._a.shape, object)
    for i in _np.ndindex(*t._a.shape):
        out[i] = one(t._a[i])
    return _core.Tensor(out, _core.string)


def _decode_raw(input_bytes, out_type, little_endian=True, **kw):
    d = _core.as_dtype(out_type)
    t = _t(input_bytes)
    return _core.Tensor(_np.stack([_np.frombuffer(x, d.dtype) for x in t._a.ravel()]).reshape(t._a.shape + (-1,)), d)


def _hsv_to_rgb(images, name=None):
    t = _t(images)
    h, s, v = t._a[..., 0], t._a[..., 1], t._a[..., 2]
    c = s * v
    m = v - c
    dh = h * 6
    # As the kernel: fmodu = dh - 2 * floor(dh / 2).
    f = dh - 2 * _np.floor(dh / 2)
    x = c * (1 - _np.abs(f - 1))
    cat = dh.astype(int)
    z = _np.zeros_like(c)
    r = _np.select([cat == 0, cat == 1, cat == 2, cat == 3, cat == 4, cat == 5], [c, x, z, z, x, c], z)
    g = _np.select([cat == 0, cat == 1, cat == 2, cat == 3, cat == 4, cat == 5], [x, c, c, x, z, z], z)
    b = _np.select([cat == 0, cat == 1, cat == 2, cat == 3, cat == 4, cat == 5], [z, z, x, c, c, x], z)
    return _core.Tensor(_np.stack([r + m, g + m, b + m], -1).astype(t.dtype.dtype), t.dtype)


def _rgb_to_hsv(images, name=None):
    import colorsys
    t = _t(images)
    a = t._a.reshape(-1, 3)
    return _core.Tensor(_np.array([colorsys.rgb_to_hsv(*p) for p in a]).astype(t.dtype.dtype).reshape(t._a.shape), t.dtype)


# -------------------------------------------------------------- tf.Example
class _Feature:
    """tf.train.* by hand: the bytes of the protocol buffer are those of TensorFlow."""


def _example_protos():
    from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
    pool = descriptor_pool.DescriptorPool()
    f = descriptor_pb2.FileDescriptorProto(name="tf_example.proto", package="tensorflow", syntax="proto3")
    F = descriptor_pb2.FieldDescriptorProto

    def msg(name):
        m = f.message_type.add()
        m.name = name
        return m

    def field(m, name, number, ftype, label=F.LABEL_REPEATED, type_name=None, oneof=None):
        x = m.field.add(name=name, number=number, type=ftype, label=label)
        if type_name:
            x.type_name = ".tensorflow." + type_name
        if oneof is not None:
            x.oneof_index = oneof
        return x
    field(msg("BytesList"), "value", 1, F.TYPE_BYTES)
    field(msg("FloatList"), "value", 1, F.TYPE_FLOAT)
    field(msg("Int64List"), "value", 1, F.TYPE_INT64)
    m = msg("Feature")
    m.oneof_decl.add(name="kind")
    for i, (n, t) in enumerate([("bytes_list", "BytesList"), ("float_list", "FloatList"), ("int64_list", "Int64List")]):
        field(m, n, i + 1, F.TYPE_MESSAGE, F.LABEL_OPTIONAL, t, 0)
    m = msg("Features")
    e = m.nested_type.add(name="FeatureEntry")
    e.options.map_entry = True
    e.field.add(name="key", number=1, type=F.TYPE_STRING, label=F.LABEL_OPTIONAL)
    e.field.add(name="value", number=2, type=F.TYPE_MESSAGE, label=F.LABEL_OPTIONAL, type_name=".tensorflow.Feature")
    field(m, "feature", 1, F.TYPE_MESSAGE, type_name="Features.FeatureEntry")
    field(msg("Example"), "features", 1, F.TYPE_MESSAGE, F.LABEL_OPTIONAL, "Features")
    pool.Add(f)
    fac = message_factory.MessageFactory(pool)
    return {n: fac.GetPrototype(pool.FindMessageTypeByName("tensorflow." + n))
            for n in ("BytesList", "FloatList", "Int64List", "Feature", "Features", "Example")}


train = _module("train", **_example_protos())


class FixedLenFeature:
    def __init__(self, shape, dtype, default_value=None):
        self.shape, self.dtype, self.default_value = shape, _core.as_dtype(dtype), default_value

    def __iter__(self):
        return iter((self.shape, self.dtype, self.default_value))

    def __eq__(self, o):
        return tuple(self) == tuple(o)

    def __repr__(self):
        return "FixedLenFeature(shape=%r, dtype=%r, default_value=%r)" % tuple(self)


def _parse_single_example(serialized, features, example_names=None, name=None):
    ex = train.Example.FromString(_bytes(serialized))
    out = {}
    for k, spec in features.items():
        if not isinstance(spec, FixedLenFeature):
            raise HarnessGap("parse_single_example of %r" % spec)
        shp = _core._shape(spec.shape)
        n = int(_np.prod(shp)) if shp else 1
        kind = ex.features.feature[k].WhichOneof("kind") if k in ex.features.feature else None
        if kind is None:
            if spec.default_value is None:
                raise _inv("Feature: %s (data type: %s) is required but could not be found." % (k, spec.dtype.name))
            vals = _np.broadcast_to(_np.asarray(spec.default_value), shp)
        else:
            want = dict(int64="int64_list", float32="float_list", string="bytes_list")[spec.dtype.name]
            if kind != want:
                raise _inv("Feature: %s. Data types don't match. Expected type: %s" % (k, spec.dtype.name))
            vals = list(getattr(ex.features.feature[k], kind).value)
            if len(vals) != n:
                raise _inv("Key: %s. Can't parse serialized Example: %d values for %s" % (k, len(vals), shp))
        a = _np.empty(n, object) if spec.dtype.name == "string" else None
        if a is not None:
            a[:] = list(_np.asarray(vals, dtype=object).ravel())
        else:
            a = _np.asarray(vals).astype(spec.dtype.dtype)
        out[k] = _core.Tensor(a.reshape(shp), spec.dtype)
    return out


# ------------------------------------------------------------------ dataset
_CRC = None


def _records(path):
    import struct
    with open(path, "rb") as f:
        while True:
            h = f.read(12)
            if not h:
                return
            n = struct.unpack("<Q", h[:8])[0]
            data = f.read(n)
            if len(h) < 12 or len(data) < n or len(f.read(4)) < 4:
                raise DataLossError(None, None, "truncated record")
            yield data


class Dataset:
    def __init__(self, make):
        self._make = make

    def __iter__(self):
        return iter(self._make())

    @staticmethod
    def from_tensor_slices(x):
        n = len(_t(_core._flatten(x)[0])._a)
        return Dataset(lambda: (_core._map_structure(lambda t: _t(t)[i], x) for i in _b.range(n)))

    def map(self, fn, *a, **k):
        return Dataset(lambda: (fn(*x) if isinstance(x, tuple) else fn(x) for x in self))

    def filter(self, fn, *a, **k):
        return Dataset(lambda: (x for x in self if _b.bool(fn(x))))

    def take(self, n):
        import itertools
        return Dataset(lambda: iter(self) if n < 0 else itertools.islice(iter(self), n))

    def skip(self, n):
        import itertools
        return Dataset(lambda: itertools.islice(iter(self), n, None))

    def batch(self, n, drop_remainder=False, **k):
        def gen():
            buf = []
            for x in self:
                buf.append(x)
                if len(buf) == n:
                    yield _core._map_structure(lambda *a: _core.stack(list(a)), *buf)
                    buf = []
            if buf and not drop_remainder:
                yield _core._map_structure(lambda *a: _core.stack(list(a)), *buf)
        return Dataset(gen)

    def prefetch(self, *a, **k):
        return self

    def repeat(self, n=None):
        def gen():
            i = 0
            while n is None or n < 0 or i < n:
                yield from iter(self)
                i += 1
        return Dataset(gen)

    def get_single_element(self, name=None):
        xs = list(self.take(2))
        if len(xs) != 1:
            raise _inv("Dataset did not have exactly one element.")
        return xs[0]

    def as_numpy_iterator(self):
        return (_core._map_structure(lambda t: t.numpy(), x) for x in self)


class TFRecordDataset(Dataset):
    def __init__(self, filenames, compression_type=None, *a, **k):
        names = filenames if isinstance(filenames, (list, tuple)) else [filenames]

        def gen():
            for f in names:
                for r in _records(_bytes(f).decode() if isinstance(f, _core.Tensor) else f):
                    yield _core.Tensor(_np.array(r, dtype=object), _core.string)
        super().__init__(gen)


data = _module("data", Dataset=Dataset, TFRecordDataset=TFRecordDataset, AUTOTUNE=-1)

io = _module("io", decode_png=_decode_png, encode_png=_encode_png, decode_jpeg=_decode_jpeg, decode_image=_decode_jpeg,
             decode_compressed=_decode_compressed, decode_raw=_decode_raw, FixedLenFeature=FixedLenFeature,
             parse_single_example=_parse_single_example)
image = _module("image", decode_png=_decode_png, decode_jpeg=_decode_jpeg, decode_image=_decode_jpeg, encode_png=_encode_png,
                hsv_to_rgb=_hsv_to_rgb, rgb_to_hsv=_rgb_to_hsv)

# ------------------------------------------------------------------- random
_rng = [_np.random.RandomState(0)]


def _set_seed(seed):
    _rng[0] = _np.random.RandomState(seed & 0xffffffff if isinstance(seed, int) else 0)


def _uniform(shape, minval=0, maxval=None, dtype=_core.float32, seed=None, name=None):
    d = _core.as_dtype(dtype)
    if d.is_integer:
        return _core.Tensor(_rng[0].randint(minval, maxval, _core._shape(shape)).astype(d.dtype), d)
    lo = _np.asarray(_t(minval)._a, _np.float64)
    hi = _np.asarray(1 if maxval is None else _t(maxval)._a, _np.float64)
    return _core.Tensor(_np.asarray(_rng[0].uniform(size=_core._shape(shape)) * (hi - lo) + lo).astype(d.dtype), d)


def _normal(shape, mean=0.0, stddev=1.0, dtype=_core.float32, seed=None, name=None):
    d = _core.as_dtype(dtype)
    return _core.Tensor(_np.asarray(_rng[0].normal(size=_core._shape(shape)) * _np.asarray(_t(stddev)._a) + _np.asarray(_t(mean)._a)).astype(d.dtype), d)


def _shuffle(value, seed=None, name=None):
    t = _t(value)
    return _core.Tensor(t._a[_rng[0].permutation(t._a.shape[0])], t.dtype)


random = _module("random", set_seed=_set_seed, uniform=_uniform, normal=_normal, shuffle=_shuffle)

# -------------------------------------------------------------------- keras


class Metric:
    def __init__(self, name=None, dtype=None, **kw):
        self.name = name if name is not None else _snake(type(self).__name__)
        self._weights = []

    def add_weight(self, name=None, shape=(), aggregation=None, initializer="zeros", dtype=None, **kw):
        init = initializer if not callable(initializer) else None
        v = _core.Variable(_core.ones(shape) if init in ("ones", "one") else _core.zeros(shape))
        self._weights.append(v)
        return v

    def _parts(self):
        seen = []

        def walk(x):
            if isinstance(x, Metric):
                seen.append(x)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        for k, x in vars(self).items():
            if k != "_weights":
                walk(x)
        return seen

    @property
    def variables(self):
        out = list(self._weights)
        for p in self._parts():
            out += p.variables
        return out

    weights = variables

    def reset_state(self):
        # Keras: zeros for every variable, those of the tracked metrics included.
        for v in self.variables:
            v.assign(_core.zeros(v.shape, v.dtype))

    def reset_states(self):
        return self.reset_state()

    def __call__(self, *a, **k):
        self.update_state(*a, **k)
        return self.result()


def _snake(s):
    import re
    return re.sub("([a-z])([A-Z])", r"\1_\2", s).lower()


def _weights_for(values, w):
    """Keras: weights are squeezed or expanded to the rank of the values, then broadcast."""
    w = _core.cast(_t(w), _core.float32)
    v = values
    if w._a.ndim == v._a.ndim + 1 and w._a.shape[-1] == 1:
        w = _core.squeeze(w, -1)
    elif w._a.ndim == v._a.ndim - 1 and w._a.ndim:
        w = _core.expand_dims(w, -1)
    if w._a.ndim not in (0, v._a.ndim):
        raise _inv("weights can not be broadcast to values: %s %s" % (w._a.shape, v._a.shape))
    if w._a.ndim and any(a not in (1, b) for a, b in zip(w._a.shape, v._a.shape)):
        raise _inv("weights can not be broadcast to values: %s %s" % (w._a.shape, v._a.shape))
    return w


class Mean(Metric):
    def __init__(self, name="mean", dtype=None):
        super().__init__(name=name, dtype=dtype)
        self.total = self.add_weight("total")
        self.count = self.add_weight("count")

    def update_state(self, values, sample_weight=None):
        v = _core.cast(_t(values), _core.float32)
        n = float(v._a.size)
        if sample_weight is not None:
            w = _weights_for(v, sample_weight)
            n = float(_np.sum(_np.broadcast_to(w._a, v._a.shape), dtype=_np.float32))
            v = v * w
        self.total.assign_add(_core.reduce_sum(v))
        self.count.assign_add(n)
        return self.total

    def result(self):
        return _core.divide_no_nan(self.total.value(), self.count.value())


class Sum(Metric):
    def __init__(self, name="sum", dtype=None):
        super().__init__(name=name, dtype=dtype)
        self.total = self.add_weight("total")

    def update_state(self, values, sample_weight=None):
        v = _core.cast(_t(values), _core.float32)
        if sample_weight is not None:
            v = v * _weights_for(v, sample_weight)
        self.total.assign_add(_core.reduce_sum(v))

    def result(self):
        return self.total.value()


class _Confusion(Metric):
    def __init__(self, thresholds, name):
        super().__init__(name=name)
        self.thresholds = thresholds
        n = [len(thresholds)]
        self.true_positives, self.false_positives = self.add_weight("tp", n), self.add_weight("fp", n)
        self.true_negatives, self.false_negatives = self.add_weight("tn", n), self.add_weight("fn", n)

    def update_state(self, y_true, y_pred, sample_weight=None):
        y = _core.cast(_t(y_true), _core.float32)
        p = _core.cast(_t(y_pred), _core.float32)
        if p._a.size and (p._a.min() < 0 or p._a.max() > 1):
            raise _inv("predictions must be >= 0 and <= 1")
        if y._a.shape != p._a.shape:
            if y._a.ndim == p._a.ndim + 1 and y._a.shape[-1] == 1:
                y = _core.squeeze(y, -1)
            elif p._a.ndim == y._a.ndim + 1 and p._a.shape[-1] == 1:
                p = _core.squeeze(p, -1)
        if y._a.shape != p._a.shape:
            raise ValueError("Shapes %s and %s are incompatible" % (p._a.shape, y._a.shape))
        w = _np.ones(p._a.shape, _np.float32)
        if sample_weight is not None:
            w = _np.broadcast_to(_weights_for(p, sample_weight)._a, p._a.shape)
        y, p, w = y._a.ravel() != 0, p._a.ravel(), w.ravel()
        # In double, as sums over very many values are not compared bit by bit.
        th = _np.asarray(self.thresholds, _np.float32)
        order = _np.argsort(p, kind="stable")
        ps, ys, ws = p[order], y[order], w[order].astype(_np.float64)
        cut = _np.searchsorted(ps, th, side="right")  # predicted positive: p > threshold
        cp = _np.concatenate([[0], _np.cumsum(ws * ys)])
        cn = _np.concatenate([[0], _np.cumsum(ws * ~ys)])
        self.false_negatives.assign_add(_np.float32(cp[cut]))
        self.true_positives.assign_add(_np.float32(cp[-1] - cp[cut]))
        self.true_negatives.assign_add(_np.float32(cn[cut]))
        self.false_positives.assign_add(_np.float32(cn[-1] - cn[cut]))


class Precision(_Confusion):
    def __init__(self, thresholds=None, top_k=None, class_id=None, name="precision", dtype=None):
        if top_k is not None or class_id is not None or thresholds is not None:
            raise HarnessGap("keras Precision options")
        super().__init__([0.5], name)

    def result(self):
        return _core.divide_no_nan(self.true_positives.value(), self.true_positives.value() + self.false_positives.value())[0]


class Recall(_Confusion):
    def __init__(self, thresholds=None, top_k=None, class_id=None, name="recall", dtype=None):
        if top_k is not None or class_id is not None or thresholds is not None:
            raise HarnessGap("keras Recall options")
        super().__init__([0.5], name)

    def result(self):
        return _core.divide_no_nan(self.true_positives.value(), self.true_positives.value() + self.false_negatives.value())[0]


class AUC(_Confusion):
    def __init__(self, num_thresholds=200, curve="ROC", summation_method="interpolation", name="auc", dtype=None,
                 thresholds=None, multi_label=False, **kw):
        if multi_label or kw or summation_method != "interpolation" or curve not in ("PR", "ROC"):
            raise HarnessGap("keras AUC options")
        if thresholds is None:
            thresholds = [i / (num_thresholds - 1) for i in _b.range(1, num_thresholds - 1)]
        super().__init__([-1e-7] + _b.sorted(thresholds) + [1.0 + 1e-7], name)
        self.curve, self.num_thresholds = curve, len(self.thresholds)

    def result(self):
        tp, fp, fn, tn = (x._a.astype(_np.float32) for x in (self.true_positives, self.false_positives, self.false_negatives, self.true_negatives))
        dnn = lambda a, b: _core.divide_no_nan(_core.Tensor(a), _core.Tensor(b))._a
        if self.curve == "PR":
            dtp = tp[:-1] - tp[1:]
            p = tp + fp
            slope = dnn(dtp, _np.maximum(p[:-1] - p[1:], 0))
            intercept = tp[1:] - slope * p[1:]
            ratio = _np.where((p[:-1] > 0) & (p[1:] > 0), dnn(p[:-1], _np.maximum(p[1:], 0)), _np.ones_like(p[1:]))
            inc = dnn(slope * (dtp + intercept * _np.log(ratio)), _np.maximum(tp[1:] + fn[1:], 0))
            return _core.Tensor(_np.sum(inc, dtype=_np.float32))
        rec, fpr = dnn(tp, tp + fn), dnn(fp, fp + tn)
        return _core.Tensor(_np.sum((fpr[:-1] - fpr[1:]) * (rec[:-1] + rec[1:]) / 2, dtype=_np.float32))


metrics = _module("keras.metrics", Metric=Metric, Mean=Mean, Sum=Sum, Precision=Precision, Recall=Recall, AUC=AUC)
keras = _module("keras", metrics=metrics, backend=_module("keras.backend", epsilon=lambda: 1e-7),
                losses=_module("keras.losses"), layers=_module("keras.layers"))

# ---------------------------------------------------------------------- v1
_stores = {}
_assigned = []  # since a harness emptied it
_scopes = []


class _VariableScope:
    def __init__(self, name, default_name=None, values=None, reuse=None, **kw):
        self.name = name or default_name

    def __enter__(self):
        _scopes.append(self.name)
        return self

    def __exit__(self, *a):
        _scopes.pop()
        return False


def _get_variable(name, shape=None, dtype=None, initializer=None, collections=None, validate_shape=True, trainable=True, **kw):
    key = "/".join(_scopes + [name])
    if key not in _stores:
        if initializer is None:
            raise HarnessGap("get_variable without an initializer")
        _stores[key] = _core.Variable(initializer, dtype=dtype)
    v = _stores[key]
    if dtype is not None and v.dtype != _core.as_dtype(dtype):
        raise ValueError("Trying to share variable %s, but specified dtype %s and found dtype %s." % (key, dtype, v.dtype))
    return v


def _reset_default_graph():
    _stores.clear()
    _assigned.clear()


def _assign(ref, value, validate_shape=True, **kw):
    t = _core.convert_to_tensor(value, ref.dtype)
    if validate_shape and t._a.shape != ref._a.shape:
        raise ValueError("Shapes %s and %s are incompatible" % (ref._a.shape, t._a.shape))
    ref._a = t._a.copy()
    out = _core.Tensor(t._a, ref.dtype)
    out._updates = [id(ref)]
    _assigned.append(id(ref))
    return out


class _Keys:
    LOCAL_VARIABLES, GLOBAL_VARIABLES, METRIC_VARIABLES, UPDATE_OPS = "local_variables", "variables", "metric_variables", "update_ops"


def _v1_init():
    return None


compat = _module("compat")
v1 = _module("compat.v1", **_public)
compat.v1 = v1
compat.v2 = _sys.modules[__name__]
v1.__dict__.update(
    where=_core.where_v1, name_scope=_core._Scope, variable_scope=_VariableScope, get_variable=_get_variable,
    get_local_variable=_get_variable, assign=_assign, GraphKeys=_Keys, AUTO_REUSE=True,
    reset_default_graph=_reset_default_graph, disable_eager_execution=lambda *a, **k: None, enable_eager_execution=lambda *a, **k: None, enable_v2_behavior=lambda *a, **k: None,
    local_variables_initializer=_v1_init, global_variables_initializer=_v1_init,
    initializers=_module("compat.v1.initializers", local_variables=_v1_init, global_variables=_v1_init),
    resource_loader=_module("compat.v1.resource_loader", get_path_to_datafile=lambda p: p),
    logging=_module("compat.v1.logging", **{k: (lambda *a, **kw: None) for k in ("info", "warning", "warn", "error", "debug", "set_verbosity")}),
    math=math, linalg=linalg, nn=nn, io=io, image=image, data=data, train=train, errors=errors, debugging=debugging,
    to_float=lambda x, name=None: _core.cast(x, _core.float32), to_int32=lambda x, name=None: _core.cast(x, _core.int32),
    div=lambda x, y, name=None: _core.floordiv(x, y) if _t(x).dtype.is_integer else _core.truediv(x, y))
logging = v1.logging
types = _module("types")
types.experimental = _module("types.experimental", TensorLike=object)

# --------------------------------------------------------------- op library
_op_libraries = {}  # Path's last part -> object with the ops; the harness fills it.


def load_op_library(path):
    import os
    name = os.path.basename(path)
    if name not in _op_libraries:
        _op_libraries[name] = _types.SimpleNamespace()
    return _op_libraries[name]


class Operation:
    pass


class Graph:
    def as_default(self):
        raise HarnessGap("tf.Graph")


# --------------------------------------------------------------------- test
def _np_of(x):
    if isinstance(x, _core.Tensor):
        return x._a
    return _np.asarray(x)


def _make_testcase():
    import unittest
    from absl.testing import absltest

    class TestCase(absltest.TestCase):
        def assertAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
            if isinstance(a, dict):
                self.assertEqual(set(a), set(b))
                for k in a:
                    self.assertAllClose(a[k], b[k], rtol, atol, msg)
                return
            if isinstance(a, (list, tuple)) and len(a) and isinstance(a[0], (_core.Tensor, _np.ndarray)):
                if isinstance(b, (list, tuple)):
                    self.assertEqual(len(a), len(b))
                    try:
                        _np.testing.assert_allclose(_np.array([_np_of(x) for x in a], float), _np.array([_np_of(x) for x in b], float), rtol, atol)
                        return
                    except ValueError:
                        for x, y in zip(a, b):
                            self.assertAllClose(x, y, rtol, atol, msg)
                        return
            if isinstance(b, (list, tuple)) and any(isinstance(x, _core.Tensor) for x in b):
                b = [_np_of(x) for x in b]
            a, b = _np_of(a), _np_of(b)
            self.assertEqual(a.shape, b.shape, msg)
            _np.testing.assert_allclose(a.astype(float) if a.dtype != object else a, b, rtol, atol, equal_nan=True, err_msg=str(msg or ""))

        def assertAllEqual(self, a, b, msg=None):
            if isinstance(b, (list, tuple)):
                b = _core.convert_to_tensor(b) if len(b) else _np.zeros(0)
            if isinstance(a, (list, tuple)):
                a = _core.convert_to_tensor(a) if len(a) else _np.zeros(0)
            a, b = _np_of(a), _np_of(b)
            if a.dtype == object or b.dtype == object or a.dtype.kind in "SU" or b.dtype.kind in "SU":
                a, b = _core._to_str_array(a), _core._to_str_array(b)
            self.assertEqual(a.shape, b.shape, msg)
            _np.testing.assert_array_equal(a, b, err_msg=str(msg or ""))

        assertNDArrayNear = lambda self, a, b, err, msg=None: self.assertAllClose(a, b, 0, err, msg)

        def assertAllInRange(self, target, lower_bound, upper_bound, open_lower_bound=False, open_upper_bound=False):
            a = _np_of(target)
            assert _np.all((a > lower_bound) if open_lower_bound else (a >= lower_bound)), a
            assert _np.all((a < upper_bound) if open_upper_bound else (a <= upper_bound)), a

        def assertAllInSet(self, target, expected_set):
            assert set(_np_of(target).ravel().tolist()) <= set(expected_set)

        def assertAllTrue(self, c):
            assert _np.all(_np_of(c))

        def assertAllFalse(self, c):
            assert not _np.any(_np_of(c))

        def assertAllGreater(self, a, v):
            assert _np.all(_np_of(a) > v)

        def assertAllLess(self, a, v):
            assert _np.all(_np_of(a) < v)

        def assertAllLessEqual(self, a, v):
            assert _np.all(_np_of(a) <= v)

        def assertAllGreaterEqual(self, a, v):
            assert _np.all(_np_of(a) >= v)

        def assertProtoEquals(self, a, b, msg=None):
            if isinstance(a, str):
                from google.protobuf import text_format
                a = text_format.Parse(a, type(b)())
            self.assertEqual(a, b, msg)

        def assertDTypeEqual(self, target, dtype):
            self.assertEqual(_core.as_dtype(_np_of(target).dtype), _core.as_dtype(dtype))

        def assertNear(self, a, b, err, msg=None):
            assert _b.abs(float(a) - float(b)) <= err, (a, b)

        def assertShapeEqual(self, a, b, msg=None):
            self.assertEqual(tuple(a.shape), tuple(b.shape))

        def assertRaisesWithPredicateMatch(self, exc, pred):
            return self.assertRaisesRegex(exc, pred) if isinstance(pred, str) else self.assertRaises(exc)

        def evaluate(self, x):
            return _core._map_structure(lambda t: t.numpy() if isinstance(t, _core.Tensor) else t, x)

        def session(self, *a, **k):
            return _Session()

        test_session = cached_session = session
    return TestCase


class _Session:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def run(self, x, feed_dict=None):
        if feed_dict:
            raise HarnessGap("feed_dict")
        return _core._map_structure(lambda t: t.numpy() if isinstance(t, _core.Tensor) else t, x)


class _TestModule(_Module):
    def __getattr__(self, k):
        if k == "TestCase":
            self.TestCase = _make_testcase()
            return self.TestCase
        if k == "main":
            from absl.testing import absltest
            return absltest.main
        return super().__getattr__(k)


test = _TestModule("tensorflow.test")
_sys.modules["tensorflow.test"] = test
v1.test = test
v1.Session = _Session


def __getattr__(k):
    return _gap(k)


def _patch_protobuf():
    """The native protobuf takes whatever has __index__ as an enum; the Python one does not."""
    from google.protobuf.internal import type_checkers as tc
    old = tc.EnumValueChecker.CheckValue

    def check(self, v):
        return old(self, int(v) if isinstance(v, _core.Tensor) and v.dtype.is_integer else v)
    tc.EnumValueChecker.CheckValue = check


_patch_protobuf()
