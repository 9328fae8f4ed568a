"""A recorder of what is drawn."""


class Artist:
    def __init__(self, kind, *args, **kwargs):
        self.kind, self.args, self.kwargs = kind, args, kwargs

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Axes:
    def __init__(self, figure=None):
        self.calls, self.figure = [], figure

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            self.calls.append((k, a, kw))
            return [Artist(k, *a, **kw)] if k == "plot" else Artist(k, *a, **kw)
        return f


class Figure(Axes):
    pass


axes = type("axes", (), {"Axes": Axes})
