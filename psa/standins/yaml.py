"""Stand-in of yaml: the data which are dumped and loaded instead of a text."""

LOADED = []
DUMPED = []


class SafeLoader:
    pass


def dump(data, stream=None, **kwargs):
    DUMPED.append(data)
    if stream is not None:
        stream.write('yaml')
        return None
    return 'yaml'


def load(source, Loader=None):
    return LOADED[-1] if LOADED else {}


def safe_load(source):
    return load(source)


def safe_dump(data, stream=None, **kwargs):
    return dump(data, stream, **kwargs)
