"""Stand-in of os: directories are the lists of TREE, paths are texts."""

# directory: (names of the directories, names of the files), top first
TREE = {}
HOME = '/home/me'
WORKING = '/work'
sep = '/'


def fspath(x):
    return x if isinstance(x, str) else str(x)


def walk(top, topdown=True):
    top = fspath(top)
    if top in TREE:
        directories, files = TREE[top]
        yield top, list(directories), list(files)
        for name in directories:
            for x in walk(top + '/' + name):
                yield x


def listdir(directory):
    directories, files = TREE[fspath(directory)]
    return list(directories) + list(files)


class path:
    sep = '/'

    @staticmethod
    def join(first, *others):
        result = fspath(first)
        for x in others:
            result = result + '/' + fspath(x)
        return result

    @staticmethod
    def dirname(x):
        return '/'.join(fspath(x).split('/')[:-1])

    @staticmethod
    def basename(x):
        return fspath(x).split('/')[-1]

    @staticmethod
    def split(x):
        return path.dirname(x), path.basename(x)

    @staticmethod
    def expanduser(x):
        x = fspath(x)
        if x == '~' or x.startswith('~/'):
            return HOME + x[1:]
        return x

    @staticmethod
    def abspath(x):
        x = fspath(x)
        if not x.startswith('/'):
            x = WORKING + '/' + x
        return '/' + '/'.join([part for part in x.split('/') if part and part != '.'])

    @staticmethod
    def normpath(x):
        return '/'.join([part for part in fspath(x).split('/') if part and part != '.'])

    @staticmethod
    def exists(x):
        x = fspath(x)
        return x in TREE or path.isfile(x)

    @staticmethod
    def isdir(x):
        return fspath(x) in TREE

    @staticmethod
    def isfile(x):
        directory, name = path.split(x)
        return directory in TREE and name in TREE[directory][1]
