from . import Axes, Figure

_cur = []


def figure(*a, **k):
    return Figure()


def subplots(*a, **k):
    f = Figure()
    ax = Axes(f)
    _cur[:] = [ax]
    return f, ax


def gca():
    if not _cur:
        _cur.append(Axes(Figure()))
    return _cur[0]


Axes, Figure = Axes, Figure
def close(*a, **k): _cur.clear()


class cm:
    @staticmethod
    def get_cmap(name=None, n=None):
        return lambda x: (float(x), 0.0, 0.0, 1.0)


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    return lambda *a, **kw: getattr(gca(), k)(*a, **kw)
