"""Another process, with another hash seed, to compare with.

Serves requests (module, function, argument) on stdin, answers on stdout.
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback


# The same in every process, and enough for all that is generated: where the
# stack ends depends on the caller
RECURSION = 20000


def _read(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    n, = struct.unpack('<I', head)
    return f.read(n)


def _write(f, data):
    f.write(struct.pack('<I', len(data)) + data)
    f.flush()


class Child(object):
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'vf.child'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def call(self, module, func, arg):
        """What module.func(arg) returns in the other process; both literal
        data or anything that pickles without the code under test."""
        _write(self.p.stdin, pickle.dumps((module, func, arg)))
        data = _read(self.p.stdout)
        if data is None:
            raise RuntimeError('the other process ended')
        ok, r = pickle.loads(data)
        if not ok:
            raise RuntimeError('in the other process:\n' + r)
        return r

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def main():
    fin, fout = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    sys.setrecursionlimit(RECURSION)
    while True:
        data = _read(fin)
        if data is None:
            return
        module, func, arg = pickle.loads(data)
        try:
            r = True, getattr(importlib.import_module(module), func)(arg)
        except Exception:
            r = False, traceback.format_exc()
        _write(fout, pickle.dumps(r))


if __name__ == '__main__':
    main()
