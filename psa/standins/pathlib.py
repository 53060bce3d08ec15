"""Stand-in of pathlib: a path is its text; the files which exist are those of io.READABLE."""

import io


class Path:
    def __init__(self, *parts):
        text = ''
        for x in parts:
            x = str(x)
            if not text or x.startswith('/'):
                text = x
            else:
                text = text + '/' + x
        self.text = text

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text

    def __eq__(self, other):
        return isinstance(other, Path) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __truediv__(self, other):
        return Path(self, other)

    def joinpath(self, *others):
        return Path(self, *others)

    @property
    def parts(self):
        return tuple(self.text.split('/'))

    @property
    def name(self):
        return self.text.split('/')[-1]

    @property
    def parent(self):
        parts = self.text.split('/')[:-1]
        return Path('/'.join(parts)) if parts else Path('.')

    @property
    def parents(self):
        found = []
        x = self
        while '/' in x.text:
            x = x.parent
            found.append(x)
        return found

    def exists(self):
        text = self.text[6:] if self.text.startswith('/work/') else self.text
        return text in io.READABLE

    is_file = exists

    def resolve(self):
        # the working directory is /work
        return self if self.text.startswith('/') else Path('/work', self)

    absolute = resolve

    def expanduser(self):
        return self

    def is_absolute(self):
        return self.text.startswith('/')

    @property
    def stem(self):
        name = self.name
        return name[:name.rindex('.')] if '.' in name[1:] else name

    @property
    def suffix(self):
        name = self.name
        return name[name.rindex('.'):] if '.' in name[1:] else ''

    def open(self, mode='r', encoding=None):
        return io.open(self.text, mode, encoding)

    def read_bytes(self):
        return io.open(self.text, 'rb').read()

    def read_text(self, encoding=None):
        return io.open(self.text, 'r').read()

    def write_text(self, text, encoding=None):
        io.open(self.text, 'w').write(text)

    def write_bytes(self, text):
        io.open(self.text, 'wb').write(text)
