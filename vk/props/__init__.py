"""One function per property: PROPS['F01'](ctx)."""
import importlib, pkgutil, os
PROPS = {}


def prop(*ids):
    def deco(fn):
        for i in ids:
            PROPS[i] = fn
        return fn
    return deco


def get(pid):
    for m in sorted(os.listdir(os.path.dirname(__file__))):
        if m.endswith('.py') and m != '__init__.py':
            importlib.import_module('vk.props.' + m[:-3])
    return PROPS[pid]
