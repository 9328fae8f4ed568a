"""The data types and schemas that the v2 components name."""


__version__ = "0.0.1"  # pandas then does without it.


class DataType:
    def __init__(self, name, *args):
        self._k = (name,) + args

    def __eq__(self, o):
        return isinstance(o, DataType) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return "DataType%r" % (self._k,)


for _n in ("int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 string binary bool_ null large_string large_binary").split():
    globals()[_n] = (lambda n: lambda length=-1: DataType(n) if length == -1 else DataType(n, length))(_n)
utf8 = string


def list_(value_type, list_size=-1):
    t = DataType("list", value_type, list_size)
    t.value_type = value_type
    return t


def dictionary(index_type, value_type, ordered=False):
    return DataType("dictionary", index_type, value_type, ordered)


class Field:
    def __init__(self, name, type):  # noqa: A002
        self.name, self.type = name, type

    def __eq__(self, o):
        return (self.name, self.type) == (o.name, o.type)

    def __repr__(self):
        return "%s: %r" % (self.name, self.type)


def field(name, type=None, **kw):  # noqa: A002
    return Field(name, type)


class Schema:
    def __init__(self, fields):
        self._f = [f if isinstance(f, Field) else Field(*f) for f in fields]
        for f in self._f:
            if not isinstance(f.type, DataType):
                raise TypeError("DataType expected, got %r" % (f.type,))

    @property
    def names(self):
        return [f.name for f in self._f]

    @property
    def types(self):
        return [f.type for f in self._f]

    def field(self, k):
        return self._f[k] if isinstance(k, int) else [f for f in self._f if f.name == k][0]

    def __iter__(self):
        return iter(self._f)

    def __len__(self):
        return len(self._f)

    def __eq__(self, o):
        return isinstance(o, Schema) and self._f == o._f

    def __repr__(self):
        return "Schema(%r)" % self._f


def schema(fields, metadata=None):
    return Schema(fields)
