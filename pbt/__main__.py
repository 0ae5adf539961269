import importlib
import os
import sys

from . import core, env  # noqa: F401


def selftest():
    """Import every property module; build every strategy once."""
    props = os.path.join(os.path.dirname(__file__), 'props')
    for name in sorted(os.listdir(props)):
        if name.startswith('c') and name.endswith('.py'):
            mod = importlib.import_module(f'pbt.props.{name[:-3]}')
            for suite in mod.SUITES:
                suite.strategy()
    print('ok')
    return 0


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        sys.exit(selftest())
    mod = importlib.import_module(f'pbt.props.{prop.lower()}')
    sys.exit(core.main(mod, sys.argv[2:]))


main()
