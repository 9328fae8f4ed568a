from . import Artist


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    return type(k, (Artist,), {"__init__": lambda self, *a, **kw: Artist.__init__(self, k, *a, **kw)})
