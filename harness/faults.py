"""Running code in forked processes, with faults injected by the shim."""
import ctypes
import errno
import json
import os
import pickle
import signal
import sys
import time
import traceback

NONE, KILL, FAIL, STICKY, INT = range(5)
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['XV_SHIM'])
        _lib.xvf_seen.restype = ctypes.c_long
        _lib.xvf_injected.restype = ctypes.c_long
        _lib.xvf_arm.argtypes = [
            ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int,
            ctypes.c_int, ctypes.c_uint, ctypes.c_uint]
    return _lib


class Fault(object):
    """What to inject below ``root``; inert if ``mode`` is NONE."""

    def __init__(self, root, mode=NONE, at=0, err='EIO', delay_us=0, seed=0,
                 log=False):
        self.root, self.mode, self.at = root, mode, at
        self.err = getattr(errno, err)
        self.delay_us, self.seed, self.log = delay_us, seed, log

    def arm(self, logfd):
        lib().xvf_arm(os.fsencode(self.root), self.mode, self.at, self.err,
                      logfd, self.delay_us, self.seed & 0xffffffff)

    def __repr__(self):
        return '%s at operation %d (%s)' % (
            ['nothing', 'kill', 'error', 'errors from on', 'interruption'][
                self.mode],
            self.at, errno.errorcode[self.err])


class Result(object):
    status = None      # 'ok', 'raised', 'killed', 'timeout', 'lost'
    value = None
    error = ''
    out = err = ''
    seen = injected = 0
    log = ()

    def __repr__(self):
        return '%s %r %s' % (self.status, self.value, self.error[-600:])


class Child(object):

    def __init__(self, fn, args=(), fault=None):
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        lr, lw = os.pipe() if fault is not None and fault.log else (-1, -1)
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(r)
                if lr >= 0:
                    os.close(lr)
                import common
                with common.captured() as (out, err):
                    if fault is not None:
                        fault.arm(lw)
                    try:
                        res = ('ok', fn(*args), '')
                    except BaseException as e:
                        res = ('raised', type(e).__name__,
                               traceback.format_exc())
                    if fault is not None:
                        lib().xvf_disarm()
                seen = lib().xvf_seen() if fault is not None else 0
                inj = lib().xvf_injected() if fault is not None else 0
                data = pickle.dumps(res + (out.getvalue(), err.getvalue(),
                                           seen, inj))
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        self.r = r
        self.lr = lr
        if lr >= 0:
            os.close(lw)

    def wait(self, timeout=120):
        import select
        res = Result()
        chunks = {self.r: [], self.lr: []}
        fds = [f for f in (self.r, self.lr) if f >= 0]
        end = time.time() + timeout
        while fds:
            left = end - time.time()
            ready = select.select(fds, [], [], max(0, left))[0]
            if not ready:
                os.kill(self.pid, signal.SIGKILL)
                res.status = 'timeout'
                break
            for f in ready:
                b = os.read(f, 65536)
                if not b:
                    fds.remove(f)
                chunks[f].append(b)
        _, st = os.waitpid(self.pid, 0)
        for f in (self.r, self.lr):
            if f >= 0:
                os.close(f)
        res.log = b''.join(chunks.get(self.lr) or []).decode(
            'utf-8', 'replace').splitlines()
        data = b''.join(chunks[self.r])
        if res.status == 'timeout':
            return res
        if os.WIFSIGNALED(st):
            res.status = 'killed'
            return res
        if not data:
            res.status = 'lost'
            return res
        (res.status, res.value, res.error, res.out, res.err, res.seen,
         res.injected) = pickle.loads(data)
        return res


def run(fn, *args, **kw):
    """Run ``fn(*args)`` in a forked process, optionally with a fault."""
    return Child(fn, args, kw.get('fault')).wait(kw.get('timeout', 120))
