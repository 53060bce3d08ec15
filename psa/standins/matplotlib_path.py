"""Stand-in of matplotlib.path."""


class Path:
    STOP = 0
    MOVETO = 1
    LINETO = 2
    CURVE3 = 3
    CURVE4 = 4
    CLOSEPOLY = 79

    def __init__(self, vertices, codes=None, closed=False):
        self.vertices = vertices
        self.codes = codes
        self.closed = closed
