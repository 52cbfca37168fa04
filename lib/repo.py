"""Helpers about the repository under test (scripts in bin/, scratch run directories)."""
import importlib.machinery
import importlib.util
import logging
import sys
import types

import vlib


def script(name):
    """Import bin/<name> as a module (fresh copy)."""
    path = vlib.REPO / "bin" / name
    loader = importlib.machinery.SourceFileLoader(f"bin_{name}", str(path))
    spec = importlib.util.spec_from_loader(f"bin_{name}", loader)
    mod = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    n_handlers = list(logging.getLogger().handlers)
    loader.exec_module(mod)
    logging.getLogger().handlers[:] = n_handlers
    return mod


class Patched:
    """Temporarily replace attributes:  with Patched((obj, 'name', value), ...)."""
    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.saved = [(o, n, o.__dict__.get(n, Patched) if isinstance(o, type) else getattr(o, n, Patched)) for o, n, _ in self.items]
        for o, n, v in self.items:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            if v is Patched:
                delattr(o, n)
            else:
                setattr(o, n, v)
        return False
