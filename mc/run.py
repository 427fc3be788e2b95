# -*- coding: utf-8 -*-
import importlib
import os
import sys


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    from . import core
    try:
        import py39_compat  # noqa
    except ImportError:
        pass
    try:
        mod = importlib.import_module('checks.' + prop)
    except Exception as E:
        # the code under test cannot even be imported
        import traceback
        traceback.print_exc()
        return 3
    only = os.environ.get('VERIF_FAMILY')
    fams = mod.FAMILIES
    if only:
        fams = [f for f in fams if f.name in only.split(',')]
    return core.run_check(
        prop, fams, tier,
        assumptions=getattr(mod, 'ASSUMPTIONS', ()),
        level=getattr(mod, 'LEVEL', 'model_checking'),
        budget_s=getattr(mod, 'BUDGET_S', {}).get(tier),
        replay=replay,
    )


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
