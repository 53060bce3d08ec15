"""Stand-in of re: psa_matches splits a text with symbolic atoms into (text, groups) pairs."""


class Match:
    def __init__(self, groups):
        self.texts = groups

    def group(self, index=0):
        return self.texts[index]

    def groups(self):
        return self.texts[1:]

    def __getitem__(self, index):
        return self.texts[index]


def sub(pattern, repl, string):
    out = ''
    for text, groups in psa_matches(pattern, string):
        if groups is None:
            out = out + text
        elif isinstance(repl, str):
            out = out + repl
        else:
            out = out + repl(Match(groups))
    return out
