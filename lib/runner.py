"""Runs one property check inside the scratch directory prepared by check.py."""
import faulthandler
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.environ['VERIF_DIR']))
from lib import core  # noqa: E402

# script directory must not shadow anything
sys.path[:] = [p for p in sys.path if not p.endswith('/verif/lib')]


def main():
    pid = sys.argv[1]
    ctx = core.Ctx(pid, os.environ['VERIF_TIER'], int(os.environ['VERIF_SEED']))
    t0 = time.time()
    faulthandler.enable()
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(ctx)
    except core.Enough as e:
        print('stopped early: %s' % e)
    except core.MachineryError:
        traceback.print_exc()
        ctx.unmet.append('machinery failure')
    except BaseException as e:  # noqa
        # An exception escaping from the code under test on an input of this check is a violation;
        # an exception of the harness itself is an error of the check.
        if core.from_repo(e):
            ctx.violation('unexpected-exception:%s' % type(e).__name__,
                          'code under test raised %r' % (e,),
                          {'traceback': traceback.format_exc()})
        else:
            traceback.print_exc()
            ctx.unmet.append('machinery failure')
    for what in ctx.unmet:
        print('ERROR: check of %s: %s' % (pid, what))
    if ctx.unmet and not ctx.violations:
        return 2
    ctx.finish(time.time() - t0)
    return 1 if ctx.violations else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
