"""Answers from a copy of the process in which nothing has been called yet.

The server is forked before the first call; it forks again for every
question, so that no question sees what an earlier one left behind.
"""
import os
import pickle
import struct
import traceback


def _send(fd, data):
    data = struct.pack('<I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _get(fd):
    head = _recv(fd, 4)
    return None if head is None else _recv(fd, struct.unpack('<I', head)[0])


class Server(object):
    def __init__(self, func):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(qr)
            os.close(aw)
            self.q, self.a, self.owner = qw, ar, os.getpid()
            return
        try:
            os.close(qw)
            os.close(ar)
            while True:
                data = _get(qr)
                if data is None:
                    break
                for _ in range(3):
                    kid = os.fork()
                    if kid == 0:
                        try:
                            r = True, func(pickle.loads(data))
                        except BaseException:
                            r = False, traceback.format_exc()
                        _send(aw, pickle.dumps(r))
                        os._exit(0)
                    status = os.waitpid(kid, 0)[1]
                    if status == 0:
                        break       # a crash of the interpreter is retried
                else:
                    _send(aw, pickle.dumps((
                        False, 'the process died with status %d' % status)))
        finally:
            os._exit(0)

    def call(self, arg):
        _send(self.q, pickle.dumps(arg))
        data = _get(self.a)
        if data is None:
            raise RuntimeError('the pristine process ended')
        ok, r = pickle.loads(data)
        if not ok:
            raise RuntimeError('in the pristine process:\n' + r)
        return r
