"""Contracts on the functions of the repository, by property."""
import importlib

SPECS = {}
MODULES = ['coord', 'cells', 'container', 'queues', 'minim', 'control', 'state', 'mesh', 'persist', 'ident', 'dims', 'shape', 'paths', 'runwrap', 'lines', 'whole']

REALS = 'floating point numbers are treated as mathematical reals (no rounding, infinities or NaN)'
ENGINE = 'pyvc: the rewriting of loops and comprehensions, the models of numpy/scipy and builtins in pyvc/shims.py, CPython as the executor of the real code, z3'


class Spec:
    def __init__(self, fct, name, **kw):
        self.fct = fct
        self.name = name
        self.seconds = kw.get('seconds', 60)
        self.max_paths = kw.get('max_paths', 3000)
        self.timeout = kw.get('timeout', 10000)
        self.expected = kw.get('expected')
        self.functions = kw.get('functions', [])
        self.trusted = [ENGINE] + ([REALS] if kw.get('reals', True) else []) + list(kw.get('trusted', []))
        self.scope = kw.get('scope', 'all inputs')
        self.replay = kw.get('replay')
        self.tier = kw.get('tier')


def spec(*props, **kw):

    name = kw.pop('name', None)

    def wrap(fct):
        for p in props:
            SPECS.setdefault(p, []).append(Spec(fct, name or fct.__name__, **kw))
        return fct

    return wrap


def specs_for(prop, tier):
    for mod in MODULES:
        importlib.import_module('contracts.' + mod)
    return [s for s in SPECS.get(prop, []) if s.tier in (None, tier)]
