"""Helpers shared by the checks (all through the public interface of kerncraft)."""
import io
import os
from contextlib import redirect_stderr, redirect_stdout

REPO = os.environ.get('VERIF_REPO', '/repo')


def nest_code(nest, body, decls, names='ijklm'):
    """C text of a kernel; *nest* is a list of (start, stop, step) of str/int, outermost first."""
    out = list(decls)
    for d, (s, e, st) in enumerate(nest):
        v = names[d]
        inc = '%s++' % v if str(st) == '1' else '%s += %s' % (v, st)
        out.append('%sfor(int %s = %s; %s < %s; %s)%s' % (
            '  ' * d, v, s, v, e, inc, ' {' if d == len(nest) - 1 else ''))
    for b in body:
        out.append('  ' * len(nest) + b)
    out.append('  ' * (len(nest) - 1) + '}')
    return '\n'.join(out) + '\n'


def quiet(fn, *args, **kwargs):
    with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
        return fn(*args, **kwargs)
