"""loads every contract module"""
import importlib
import pkgutil
import contracts
from .base import side


def load():
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m != 'all':
            importlib.import_module('contracts.' + m)
    return side
