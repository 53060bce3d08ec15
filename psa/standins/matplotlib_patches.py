"""Stand-in of matplotlib.patches."""


class PathPatch:
    def __init__(self, path, **kwargs):
        self.path = path
        self.attributes = kwargs
