"""Registry of harnesses.  Imported by both interpreters (symbolic/concrete)."""
import importlib
import os
import sys

CONFIGS = {}


class Config:
    def __init__(self, prop, name, fn, kw, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.kw = kw
        self.tier = opts.get('tier', 'quick')
        self.budget = opts.get('budget', 60)
        self.tmo = opts.get('tmo', 1.0)
        self.prove_tmo = opts.get('prove_tmo', 20.0)
        self.max_draws = opts.get('max_draws', 64)
        self.max_enum = opts.get('max_enum', 64)
        self.max_paths = opts.get('max_paths', 4000)
        self.validate = opts.get('validate', 40)
        self.bounds = opts.get('bounds', '')
        self.partial_ok = opts.get('partial_ok', False)


def configs(prop):
    if prop not in CONFIGS:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        if here not in sys.path:
            sys.path.insert(0, here)
        CONFIGS.setdefault(prop, [])
        importlib.import_module('checks.' + prop.lower())
    return CONFIGS[prop]


def add(prop, name, fn, kw=None, **opts):
    l = CONFIGS.setdefault(prop, [])
    if any(c.name == name for c in l):
        raise ValueError('duplicate config %s/%s' % (prop, name))
    l.append(Config(prop, name, fn, kw or {}, opts))
