"""Reads the scenario tables out of props/pNN.py without importing the package
under test (scenario modules import it lazily, inside functions)."""
import importlib
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_specs():
    import props
    specs = {}
    for m in pkgutil.iter_modules(props.__path__):
        if not (m.name.startswith('p') and m.name[1:].isdigit()):
            continue
        mod = importlib.import_module('props.' + m.name)
        specs[mod.ID] = {
            'scenarios': mod.SCENARIOS, 'rule': mod.RULE,
            'required': getattr(mod, 'REQUIRED', []),
            'probes': getattr(mod, 'PROBES', {}),
        }
    return specs
