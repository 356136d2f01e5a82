"""Harness registry."""
import importlib
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESSES = {}


class Harness:
    def __init__(self, name, prop, fn, quick, thorough, opts, doc):
        self.name, self.prop, self.fn = name, prop, fn
        self.quick, self.thorough, self.opts, self.doc = quick, thorough, opts, doc

    def prepare(self, ctx):
        pass


def harness(prop, quick=None, thorough=None, name=None, **opts):
    """register a harness of a property; quick / thorough are config lists (or
    zero-argument functions giving them)"""
    def deco(fn):
        n = name or fn.__name__
        if n in HARNESSES:
            raise RuntimeError('duplicate harness %s' % n)
        HARNESSES[n] = Harness(n, prop, fn, quick or [{}], thorough, opts, (fn.__doc__ or '').strip())
        return fn
    return deco


def load_all():
    base = os.path.join(os.path.dirname(HERE), 'harness')
    for m in sorted(pkgutil.iter_modules([base])):
        importlib.import_module('harness.' + m.name)


def of_property(pid):
    return [h for h in HARNESSES.values() if h.prop == pid]


def configs(h, tier):
    c = h.thorough if tier == 'thorough' and h.thorough is not None else h.quick
    return list(c() if callable(c) else c)
