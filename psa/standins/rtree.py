"""Stand-in of rtree: the boxes are kept in a list."""


class Index:
    def __init__(self):
        self.boxes = []

    def insert(self, id, coordinates, obj=None):
        self.boxes.append((id, tuple(coordinates)))

    def delete(self, id, coordinates):
        self.boxes.remove((id, tuple(coordinates)))

    def intersection(self, coordinates, objects=False):
        self.query = tuple(coordinates)
        return [box[0] for box in self.boxes]


class index:
    Index = Index
