"""The integers and strings that occur in the code under test.

Generators use them as a dictionary, as fuzzers do: a comparison against a
constant is reached when the constant is tried.  Constants that were not there
when the framework was written are tried far more often.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'consts_base.json')


def _harvest():
    ints, strs = set(), set()

    def const(c):
        if isinstance(c, bool) or c is None:
            return
        if isinstance(c, int):
            ints.add(c)
        elif isinstance(c, str):
            if len(c) <= 40 and '\n' not in c.strip():
                strs.add(c)
        elif isinstance(c, (tuple, frozenset)):
            for x in c:
                const(x)
        elif hasattr(c, 'co_consts'):
            for x in c.co_consts:
                const(x)

    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] != 'datashape' or '.tests' in name:
            continue
        fn = getattr(mod, '__file__', None)
        if not fn or fn.endswith('_version.py'):
            continue
        try:
            with open(fn, encoding='utf-8') as f:
                const(compile(f.read(), fn, 'exec'))
        except (OSError, SyntaxError):
            pass
    return ints, strs


INTS, STRS = _harvest()
try:
    with open(BASE) as _f:
        _b = json.load(_f)
except OSError:
    _b = {'ints': [], 'strs': []}
NEW_INTS = sorted(INTS - set(_b['ints']))
NEW_STRS = sorted(STRS - set(_b['strs']))
INTS, STRS = sorted(INTS), sorted(STRS)

if __name__ == '__main__':
    import datashape                                       # noqa: F401
    import datashape.util.testing                          # noqa: F401
    ints, strs = _harvest()
    with open(BASE, 'w') as f:
        json.dump({'ints': sorted(ints), 'strs': sorted(strs)}, f, indent=0)
    print(len(ints), 'ints', len(strs), 'strings')
