"""Stand-in of the files: the texts which are written, by path; open() of the analysed code is this one."""

WRITTEN = {}
ENCODINGS = {}
# the contents of the files which can be read, by path
READABLE = {}


class File:
    def __init__(self, path, mode, encoding):
        self.path = str(path)
        if self.path.startswith('/work/'):
            # the working directory
            self.path = self.path[6:]
        self.mode = mode
        self.encoding = encoding
        self.closed = False
        if 'w' in mode:
            WRITTEN[self.path] = ''
            ENCODINGS[self.path] = encoding
        elif 'a' in mode:
            if self.path not in WRITTEN:
                WRITTEN[self.path] = READABLE[self.path] if self.path in READABLE else ''
            ENCODINGS[self.path] = encoding
        elif self.path not in READABLE and '/data/' not in self.path:
            raise FileNotFoundError(self.path)

    def read(self):
        # the data files of the package exist
        return READABLE[self.path] if self.path in READABLE else ''

    def write(self, text):
        WRITTEN[self.path] = WRITTEN[self.path] + text

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def open(path, mode='r', encoding=None):
    return File(path, mode, encoding)
