"""Stand-in of ezdxf: the entities of a drawing are kept in a list."""

READ = []       # the drawings that will be read
WRITTEN = []    # the drawings that were saved


class Attributes:
    pass


class Vec3:
    """A point of an entity, it has coordinates and no slices."""
    def __init__(self, x, y, z=0):
        self.x = x
        self.y = y
        self.z = z

    @property
    def xyz(self):
        return (self.x, self.y, self.z)

    @property
    def vec2(self):
        return Vec3(self.x, self.y)

    def __getitem__(self, index):
        if not isinstance(index, int):
            raise TypeError('the index of a coordinate is an integer')
        return (self.x, self.y, self.z)[index]

    def __iter__(self):
        return iter((self.x, self.y, self.z))

    def __len__(self):
        return 3


class Vertex(Vec3):
    """A control point, an array of coordinates."""
    def __getitem__(self, index):
        return (self.x, self.y, self.z)[index]


def _point(value):
    if isinstance(value, (tuple, list)):
        return Vec3(*value)
    return value


class Entity:
    def __init__(self, kind, closed=False, points=None, **attributes):
        self.kind = kind
        self.closed = closed
        self.points = points
        self.attributes = attributes
        self.dxf = Attributes()
        for name, value in attributes.items():
            setattr(self.dxf, name, _point(value))

    def dxftype(self):
        return self.kind

    def get_points(self):
        return self.points

    @property
    def control_points(self):
        return [Vertex(*x) for x in self.points]

    def set_placement(self, position, align=None):
        self.attributes['position'] = position
        self.attributes['align'] = align
        return self


class ModelSpace:
    def __init__(self, entities=()):
        self.entities = list(entities)

    def __iter__(self):
        return iter(self.entities)

    def _add(self, entity):
        self.entities.append(entity)
        return entity

    def add_line(self, start, end, dxfattribs=None):
        return self._add(Entity('LINE', start=start, end=end, style=dxfattribs))

    def add_text(self, text, dxfattribs=None):
        return self._add(Entity('TEXT', text=text, style=dxfattribs))

    def add_open_spline(self, control_points, degree=3, knots=None, dxfattribs=None):
        return self._add(Entity('SPLINE', points=control_points, degree=degree, style=dxfattribs))


class Drawing:
    def __init__(self, entities=(), version=None):
        self.version = version
        self.space = ModelSpace(entities)

    def modelspace(self):
        return self.space

    def saveas(self, path):
        self.path = path
        WRITTEN.append(self)


def readfile(path):
    return Drawing(READ.pop(0))


def new(version='R2013', setup=False):
    return Drawing((), version)


class TextEntityAlignment:
    LEFT = 'left'
    CENTER = 'center'


class enums:
    TextEntityAlignment = TextEntityAlignment
