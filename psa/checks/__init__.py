"""Registry of the checks: PROPERTY -> function(report)."""

import importlib

MODULES = ['geometry', 'areas', 'package']

_registry = {}
_loaded = []


def check(prop):
    def deco(f):
        _registry.setdefault(prop, []).append(f)
        return f
    return deco


def _load():
    if not _loaded:
        for m in MODULES:
            importlib.import_module('psa.checks.' + m)
        _loaded.append(True)


def properties():
    _load()
    return sorted(_registry)


def run(prop, report):
    _load()
    if prop not in _registry:
        raise SystemExit('unknown property ' + prop)
    for f in _registry[prop]:
        f(report)
