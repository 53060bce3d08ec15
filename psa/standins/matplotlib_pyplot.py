"""Stand-in of matplotlib.pyplot: the axes keep the limits, patches, artists and texts in order."""

FIGURES = []
SHOWN = []


class Axes:
    def __init__(self):
        self.xlim = None
        self.ylim = None
        self.aspect = None
        self.added = []

    def set_xlim(self, left=None, right=None):
        self.xlim = (left, right)

    def set_ylim(self, bottom=None, top=None):
        self.ylim = (bottom, top)

    def set_aspect(self, aspect):
        self.aspect = aspect

    def add_patch(self, patch):
        self.added.append(patch)
        return patch

    def add_artist(self, artist):
        self.added.append(artist)
        return artist

    def text(self, x, y, s, **kwargs):
        t = Text(x, y, s)
        self.added.append(t)
        return t


class Text:
    def __init__(self, x, y, text):
        self.x = x
        self.y = y
        self.text = text


class Circle:
    def __init__(self, xy, radius=5, **kwargs):
        self.center = xy
        self.radius = radius
        self.attributes = kwargs


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *args, **kwargs):
        a = Axes()
        self.axes.append(a)
        return a


def figure(*args, **kwargs):
    f = Figure()
    FIGURES.append(f)
    return f


def show():
    SHOWN.append(True)
