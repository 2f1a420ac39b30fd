import importlib
import pkgutil
import sys

from . import report, rules


def find(prop):
    for m in pkgutil.iter_modules(rules.__path__):
        if m.name.startswith(prop.lower() + '_'):
            return importlib.import_module('checker.rules.' + m.name)
    return None


def main():
    prop = sys.argv[1]
    mod = find(prop)
    if mod is None:
        print('no rule module for', prop)
        sys.exit(3)
    sys.setrecursionlimit(20000)
    report.run(prop, mod.TITLE, mod.check, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION)


if __name__ == '__main__':
    main()
