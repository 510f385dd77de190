import importlib
import sys
from vf import core
from vf import registry


def main():
    prop = sys.argv[1]
    mod, func = registry.CHECKS[prop]
    m = importlib.import_module("vf.checks." + mod)
    sys.exit(core.main(prop, getattr(m, func), level=registry.LEVEL.get(prop, "model_checking")))


main()
