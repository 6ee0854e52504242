"""Case registry."""
import importlib
import os
import pkgutil

CASES = {}


class Case:
    def __init__(self, prop, name, fn, tier, cost, kind, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.tier, self.cost, self.kind, self.opts = tier, cost, kind, opts

    @property
    def key(self):
        return self.prop + ":" + self.name


def add(prop, name, fn, tier="quick", cost=1, kind="graph", **opts):
    c = Case(prop, name, fn, tier, cost, kind, opts)
    if c.key in CASES:
        raise ValueError("duplicate case " + c.key)
    CASES[c.key] = c
    return c


def case(prop, name=None, **kw):
    def deco(fn):
        add(prop, name or fn.__name__, fn, **kw)
        return fn
    return deco


def load(prop=None):
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cases")
    import sys

    if os.path.dirname(root) not in sys.path:
        sys.path.insert(0, os.path.dirname(root))
    for m in sorted(pkgutil.iter_modules([root]), key=lambda m: m.name):
        if m.name.startswith("c_"):
            importlib.import_module("cases." + m.name)
    return [c for c in CASES.values() if prop is None or c.prop == prop]
