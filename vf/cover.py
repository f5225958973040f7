"""Which lines and branch directions of the code under test were executed.

Uses sys.monitoring: every event is switched off once seen, so the code runs
at full speed afterwards.
"""
import os
import sys

_TOOL = 3
_lines = set()        # (file, line)
_arcs = set()         # (file, code name, first line, offset, destination)
_news = 0
_prefix = ''
_files = {}


def news():
    return _news


def start(prefix):
    global _prefix
    _prefix = prefix
    m = sys.monitoring
    m.use_tool_id(_TOOL, 'vf')
    E = m.events

    def line(code, lineno):
        global _news
        fn = code.co_filename
        if not fn.startswith(_prefix):
            return m.DISABLE
        key = (fn, lineno)
        if key not in _lines:
            _lines.add(key)
            _news += 1
        return m.DISABLE

    seen, times = {}, {}

    def branch(code, off, dest):
        global _news
        fn = code.co_filename
        if not fn.startswith(_prefix):
            return m.DISABLE
        s = seen.setdefault((code, off), set())
        if dest not in s:
            s.add(dest)
            _arcs.add((fn, code.co_qualname, off, dest))
            _news += 1
        n = times[code, off] = times.get((code, off), 0) + 1
        if len(s) >= 2 or n > 3000:
            return m.DISABLE

    m.register_callback(_TOOL, E.LINE, line)
    m.register_callback(_TOOL, E.BRANCH, branch)
    m.set_events(_TOOL, E.LINE | E.BRANCH)


def stop():
    sys.monitoring.set_events(_TOOL, 0)


def hits():
    return set(_lines), set(_arcs)


def merge(a, b):
    return a[0] | b[0], a[1] | b[1]


def _code_lines(code, out):
    for _, _, line in code.co_lines():
        if line:
            out.add(line)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            _code_lines(c, out)


def report(h):
    lines, arcs = h
    res = {}
    for fn in sorted({f for f, _ in lines}):
        total = set()
        try:
            with open(fn) as f:
                _code_lines(compile(f.read(), fn, 'exec'), total)
        except (OSError, SyntaxError):
            continue
        got = {l for f, l in lines if f == fn}
        res[os.path.relpath(fn, '/repo')] = '%d/%d lines' % (
            len(got & total), len(total))
    res['branch directions'] = len(arcs)
    return res
