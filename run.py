#!/usr/bin/env python3
"""run.py PROPERTY: decides one property (tier: VERIF_TIER, seed: VERIF_SEED)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'


def main():
    if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists(VENV) \
            and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(VENV, [VENV] + [os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    import common
    import registry
    common.setup_imports()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module, func, level, assumptions = registry.CHECKS[prop]
    ctx = common.Ctx(prop, tier, seed)
    try:
        getattr(importlib.import_module(module), func)(ctx)
    except common.MachineryError as e:
        # What was found before counts; otherwise the check could not decide.
        if not ctx.violations:
            sys.stderr.write('MACHINERY ERROR: %s\n' % e)
            return 2
    except Exception as e:
        if not common.in_code_under_test(e):
            raise
        text = traceback.format_exc()
        ctx.violation('exception', text[-1500:], {'traceback': text})
    return ctx.finish(level, assumptions)


if __name__ == '__main__':
    sys.exit(main())
