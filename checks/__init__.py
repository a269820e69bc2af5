import importlib, pkgutil
CHECKS = {}
for m in pkgutil.iter_modules(__path__):
    CHECKS.update(getattr(importlib.import_module("checks." + m.name), "CHECKS", {}))
