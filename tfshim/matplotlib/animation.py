class FuncAnimation:
    def __init__(self, fig, func, frames=None, **kw):
        self.fig, self.func, self.frames = fig, func, frames
