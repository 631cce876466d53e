import importlib
import pkgutil

PROPS = {}
for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    mod = importlib.import_module("props." + m)
    for p in getattr(mod, "PROPERTIES", []):
        assert p.pid not in PROPS
        PROPS[p.pid] = p
