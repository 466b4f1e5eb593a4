import importlib
import os
import pkgutil


def load():
    out = {}
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
        mod = importlib.import_module(__name__ + "." + m)
        for p in getattr(mod, "PROPS", []):
            out[p.id] = p
    return dict(sorted(out.items()))
