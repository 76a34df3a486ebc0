import importlib
import os
import sys

sys.path.insert(0, '/repo')
import numpy as np  # noqa: E402,F401


def spaces_of(prop, tier):
    mod = importlib.import_module('mc.' + prop.lower())
    return all_spaces(mod, tier)


def all_spaces(mod, tier):
    from mc import gal, par
    name = mod.__name__.split('.')[-1]
    return mod.spaces(tier) + gal.of(name, tier) + par.of(name, tier) + (mod.constants() if hasattr(mod, 'constants') else [])


def main():
    if len(sys.argv) != 3:
        sys.stderr.write('usage: check <property> <quick|thorough> | check replay <file>\n')
        return 2
    from mc import core
    if sys.argv[1] == 'replay':
        return core.replay(sys.argv[2], spaces_of)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        import proadv
        path = os.path.realpath(proadv.__file__)
    except Exception as e:
        # a tree that cannot even be imported provides nothing the property promises
        print('importing proadv from /repo failed: %r' % e)
        print('VIOLATION property=%s replay=%s' % (prop, 'import'))
        return 1
    if not path.startswith('/repo/'):
        sys.stderr.write('proadv imported from %s, not /repo\n' % path)
        return 2
    mod = importlib.import_module('mc.' + prop.lower())
    return core.explore(prop, all_spaces(mod, tier), tier, seed, getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    sys.exit(main())
