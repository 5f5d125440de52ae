"""Stub window system: a stand-in for the few parts of matplotlib a live view can use.

Only what reaches the screen counts: images and texts are drawn by canvas.draw(), or by draw_artist()
followed by blit(). Everything else is accepted and ignored. As in matplotlib, images copy their data and
subplots() squeezes its result."""

import sys
import types

import numpy as np


class Anything:
    """Accepts every call and attribute."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __getitem__(self, k):
        return Anything()

    def __iter__(self):
        return iter(())


class Artist(Anything):
    def __init__(self, parent):
        self.parent = parent


class Image(Artist):
    def __init__(self, parent, data, vmin, vmax):
        super().__init__(parent)
        self.limits = (vmin, vmax)
        self.set_data(data)

    def set_data(self, data):
        data = np.array(np.ma.filled(np.ma.asarray(data).astype(float), np.nan), copy=True)
        if data.ndim != 2:
            raise TypeError(f"Invalid shape {data.shape} for image data")
        self.data = data

    set_array = set_data

    def content(self):
        return self.data.copy()


class Text(Artist):
    def __init__(self, parent, s):
        super().__init__(parent)
        self.s = s

    def set_text(self, s):
        self.s = str(s)

    def get_text(self):
        return self.s

    def content(self):
        return self.s


class Axes(Anything):
    def __init__(self, fig):
        self.fig = self.figure = fig
        self.images = []
        self.title = ""
        self.bbox = ("axes", self)

    @property
    def flat(self):
        raise AttributeError("'Axes' object has no attribute 'flat'")

    ravel = flatten = flat

    def __getattr__(self, name):
        if name in ("flat", "ravel", "flatten", "shape") or name.startswith("__"):
            raise AttributeError(f"'Axes' object has no attribute {name!r}")
        return Anything()

    def imshow(self, data, *a, vmin=None, vmax=None, **k):
        im = Image(self, data, vmin, vmax)
        self.images.append(im)
        return im

    def set_title(self, s, *a, **k):
        self.title = s

    def text(self, *a, **k):
        return self.fig.text(*a, **k)

    def draw_artist(self, a):
        self.fig.draw_artist(a)


class Canvas(Anything):
    def __init__(self, fig):
        self.fig = fig
        self.callbacks = []
        self.draws = 0

    def mpl_connect(self, event, f):
        self.callbacks.append((event, f))
        return len(self.callbacks)

    def draw(self):
        self.draws += 1
        for a in self.fig.artists():
            self.fig.screen[a] = a.content()
        for event, f in list(self.callbacks):
            if event == "draw_event":
                f(Anything())

    draw_idle = draw

    def copy_from_bbox(self, bbox):
        return ("region", self.draws)

    def restore_region(self, region):
        if not (isinstance(region, tuple) and region[0] == "region"):
            raise TypeError("not a region")

    def blit(self, bbox=None):
        self.fig.flush()

    def flush_events(self):
        self.fig.events()


class Figure(Anything):
    def __init__(self):
        self.axes = []
        self.texts = []
        self.canvas = Canvas(self)
        self.pending = {}
        self.screen = {}
        self.closed = False
        self.events = lambda: None
        self.bbox = ("fig", self)

    def artists(self):
        return [im for ax in self.axes for im in ax.images] + self.texts

    def text(self, x=0, y=0, s="", **k):
        t = Text(self, s)
        self.texts.append(t)
        return t

    def draw_artist(self, a):
        self.pending[a] = a.content()

    def flush(self):
        self.screen.update(self.pending)
        self.pending.clear()

    # -- what an onlooker sees
    def shown(self):
        return [(ax.title, im.limits, self.screen.get(im)) for ax in self.axes for im in ax.images]

    def shown_texts(self):
        return [self.screen.get(t) for t in self.texts]


class Pyplot(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.figures = []
        self.rcParams = {"figure.facecolor": "black", "toolbar": "x"}
        self.style = Anything()

    def figure(self, *a, **k):
        f = Figure()
        self.figures.append(f)
        return f

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, **k):
        if nrows < 1 or ncols < 1:
            raise ValueError("Number of rows/columns must be a positive integer")
        f = self.figure()
        arr = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                arr[i, j] = Axes(f)
                f.axes.append(arr[i, j])
        if squeeze:
            arr = arr.item() if arr.size == 1 else arr.squeeze()
        return f, arr

    def gcf(self):
        return self.figures[-1]

    def text(self, x=0, y=0, s="", **k):
        return self.gcf().text(x, y, s, **k)

    def close(self, fig=None):
        if isinstance(fig, Figure):
            fig.closed = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Package(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


def install():
    """Put the stub in the place of matplotlib; returns its pyplot module."""
    for k in [k for k in sys.modules if k == "matplotlib" or k.startswith("matplotlib.")]:
        del sys.modules[k]
    sys.modules.pop("openamundsen.liveview", None)
    m, p = Package("matplotlib"), Pyplot()
    m.pyplot = p
    sys.modules["matplotlib"] = m
    sys.modules["matplotlib.pyplot"] = p
    for sub in ("transforms", "colors", "cm", "figure", "axes", "backends", "animation"):
        s = Package(f"matplotlib.{sub}")
        setattr(m, sub, s)
        sys.modules[s.__name__] = s
    return p
