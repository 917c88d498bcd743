"""Run a function in a process in which nothing was computed before.

`Fresh(funcs)` forks a server at once; every request is executed in a new fork
of that server, so it starts from the state the program had when the server was
made. The result comes back pickled; Violations are raised again here.
"""
import os
import pickle
import select
import struct
import traceback
from . import core


def _read(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return _read(fd, struct.unpack('<Q', _read(fd, 8))[0])


class Fresh(object):
    def __init__(self, funcs):
        self.funcs = funcs
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, r, w):
        n = max(1, min(8, len(os.sched_getaffinity(0))))
        while True:
            try:
                reqs = pickle.loads(_recv(r))
            except EOFError:
                return
            ans = [pickle.dumps(('died', None))] * len(reqs)
            todo, running = list(enumerate(reqs)), {}
            while todo or running:
                while todo and len(running) < n:
                    i, req = todo.pop(0)
                    running[self._start(req)] = i
                for fd in select.select([fd for fd, _ in running], [], [])[0]:
                    key = next(k for k in running if k[0] == fd)
                    try:
                        ans[running[key]] = _recv(fd)
                    except EOFError:
                        pass
                    del running[key]
                    os.close(fd)
                    os.waitpid(key[1], 0)
            _send(w, pickle.dumps(ans))

    def _start(self, req):
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a)
                _send(b, self._run(req))
            finally:
                os._exit(0)
        os.close(b)
        return a, pid

    def _run(self, req):
        try:
            name, args = req
            return pickle.dumps(('ok', self.funcs[name](*args)))
        except core.Violation as e:
            return pickle.dumps(('violation', str(e)))
        except BaseException as e:
            if core.environmental(e):
                return pickle.dumps(('env', repr(e)))
            t = traceback.extract_tb(e.__traceback__)[-1]
            return pickle.dumps(('violation', 'unexpected %s: %s (at %s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(t.filename), t.lineno)))

    def __call__(self, name, *args):
        return self.batch([(name, args)])[0]

    def batch(self, reqs):
        """the results of several requests, each from its own fresh process"""
        _send(self.w, pickle.dumps(reqs))
        out = []
        for a in pickle.loads(_recv(self.r)):
            k, v = pickle.loads(a)
            if k == 'violation':
                raise core.Violation(v)
            if k == 'env':
                raise OSError(v)
            if k == 'died':
                raise core.Violation('the process died')
            out.append(v)
        return out
