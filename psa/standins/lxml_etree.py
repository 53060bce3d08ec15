"""Stand-in of lxml.etree: a tree of elements, and the documents read and written instead of bytes."""

SOURCE = []     # the document which is read
WRITTEN = []    # the documents which are written


class _Element:
    def __init__(self, tag, attributes):
        self.tag = tag
        self.attrib = attributes
        self.text = None
        self.tail = None
        self.children = []
        self.parent = None
        self.nsmap = {}

    def append(self, child):
        self.children.append(child)
        child.parent = self

    def extend(self, children):
        for child in children:
            self.append(child)

    def insert(self, index, child):
        self.children.insert(index, child)
        child.parent = self

    def remove(self, child):
        self.children.remove(child)
        child.parent = None

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def __getitem__(self, index):
        return self.children[index]

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def set(self, name, value):
        self.attrib[name] = value

    def keys(self):
        return list(self.attrib.keys())

    def items(self):
        return list(self.attrib.items())

    def getparent(self):
        return self.parent

    def find(self, path):
        for child in self.children:
            if child.tag == path:
                return child
        return None

    def findall(self, path):
        return [child for child in self.children if child.tag == path]

    def findtext(self, path, default=None):
        child = self.find(path)
        if child is None:
            return default
        return '' if child.text is None else child.text

    def xpath(self, path):
        return [child for child in self.children if child.tag == path]


class _Comment(_Element):
    def __init__(self, text):
        _Element.__init__(self, Comment, {})
        self.text = text


def Comment(text=None):
    return _Comment(text)


def Element(_tag, attrib=None, nsmap=None, **extra):
    attributes = dict(attrib) if attrib is not None else {}
    for key, value in extra.items():
        attributes[key] = value
    element = _Element(_tag, attributes)
    if nsmap is not None:
        element.nsmap = nsmap
    return element


def SubElement(_parent, _tag, attrib=None, **extra):
    child = Element(_tag, attrib, **extra)
    _parent.append(child)
    return child


def tostring(element, **kwargs):
    WRITTEN.append(element)
    return psa_word('document')


def fromstring(source):
    return SOURCE[-1] if SOURCE else source


class ElementTree:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root

    def write(self, path, **kwargs):
        self.path = path
        self.options = kwargs
        WRITTEN.append(self)
