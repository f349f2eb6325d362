import importlib, os, pkgutil
for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
    importlib.import_module('jarlsa.checks.' + m)
