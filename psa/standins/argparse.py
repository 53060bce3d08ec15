"""Stand-in of argparse."""


class Action:
    def __init__(self, option_strings, dest, nargs=None, **kwargs):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs


class Namespace:
    pass
