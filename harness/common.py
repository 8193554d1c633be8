"""Observation, verdict and evidence plumbing shared by all checks."""
import collections
import contextlib
import copy
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('XV_REPO', '/repo')
SCRATCH = os.environ.get('XV_SCRATCH', '/tmp')
HARNESS = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable


class Enough(Exception):
    """Enough violations were recorded; stop the workload."""


def from_sut(exc):
    """True if ``exc`` was raised inside (or below) the code under test."""
    seen = set()
    prefix = os.path.join(os.path.abspath(REPO), 'xylem') + os.sep
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        inside = False
        for frame in traceback.extract_tb(exc.__traceback__):
            name = os.path.abspath(frame.filename)
            if name.startswith(prefix):
                inside = True
            elif name.startswith(HARNESS + os.sep):
                inside = False
        if inside:
            return True
        exc = exc.__cause__ or exc.__context__
    return False


class Outcome(object):
    """What a call into the code under test did."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.ok:
            return 'returned %r' % (self.value,)
        return 'raised %s: %s' % (type(self.exc).__name__,
                                  short(str(self.exc), 300))


def observe(fn, *args, **kwargs):
    try:
        return Outcome(value=fn(*args, **kwargs))
    except Exception as e:
        return Outcome(exc=e)
    except SystemExit as e:
        return Outcome(exc=e)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Check(object):

    def __init__(self, pid, tier, seed, shard, shards):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.shards = shards
        self.rng = random.Random('%s/%d/%d/%s' % (pid, seed, shard, tier))
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.problems = []
        self.t0 = time.time()
        self.scale = 1          # of the numbers of cases of the quick tier
        self.known = set(filter(None, os.environ.get('XV_KNOWN',
                                                     '').split(',')))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def loop(self, quick, thorough, cap_quick=60, cap_thorough=900):
        """Yield case numbers; counts bound the run, time is a guard."""
        end = time.time() + self.n(cap_quick, cap_thorough)
        for i in range(self.n(int(quick * self.scale), thorough)):
            if time.time() > end:
                self.counters['truncated_by_time'] += 1
                return
            yield i

    def count(self, name, k=1):
        self.counters[name] += k

    def case(self, sig, sample=None, nontrivial=True):
        """Record one evaluated case."""
        self.counters['evaluations'] += 1
        if nontrivial:
            h = hashlib.sha1(repr(sig).encode('utf-8', 'backslashreplace'))
            self.distinct.add(h.hexdigest()[:16])
        if sample is not None and len(self.samples) < 3:
            self.samples.append(short(sample, 800))

    def violate(self, kind, msg, **witness):
        if kind in self.known:
            # listed in the known findings: keep one example, go on
            self.counters['known_' + kind] += 1
            if self.counters['known_' + kind] > 1:
                return
            self.violations.append(dict(kind=kind, msg=short(msg, 3000),
                                        witness={}))
            return
        self.violations.append(dict(
            kind=kind, msg=short(msg, 3000),
            witness={k: short(v, 4000) for k, v in witness.items()}))
        if sum(v['kind'] not in self.known
               for v in self.violations) >= 12:
            raise Enough()

    def check(self, cond, kind, msg, **witness):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, **witness)
        return bool(cond)

    def equal(self, got, want, kind, what, **witness):
        if got != want:
            self.violate(kind, '%s: got %s, expected %s' % (
                what, short(got), short(want)), **witness)
            return False
        return True

    def returns(self, out, kind, what, **witness):
        """The call must have returned normally."""
        if not out.ok:
            tb = ''.join(traceback.format_exception(
                type(out.exc), out.exc, out.exc.__traceback__))
            self.violate(kind, '%s: %r' % (what, out), trace=tb[-2500:],
                         **witness)
            return False
        return True

    def raises(self, out, types, kind, what, **witness):
        """The call must have raised one of ``types``."""
        if out.ok or not isinstance(out.exc, types):
            self.violate(kind, '%s: expected %s but it %r' % (
                what, types, out), **witness)
            return False
        return True

    def result(self):
        return dict(counters=dict(self.counters), samples=self.samples,
                    violations=self.violations, problems=self.problems,
                    distinct=sorted(self.distinct))


@contextlib.contextmanager
def captured():
    """Capture what the code under test prints."""
    out, err = io.StringIO(), io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield out, err
    finally:
        sys.stdout, sys.stderr = so, se


def quiet(fn, *args, **kwargs):
    """observe() with the printed text attached as .out / .err."""
    with captured() as (out, err):
        o = observe(fn, *args, **kwargs)
    o.out, o.err = out.getvalue(), err.getvalue()
    return o


def fresh_dir(name='d', _n=[0]):
    _n[0] += 1
    p = os.path.join(SCRATCH, 'work', '%s%d' % (name, _n[0]))
    os.makedirs(p)
    return p


_writes = [0]


def write(path, text):
    """Write a file; YAML files get varying time stamps.

    Files come from archives, version control or ``cp -p``, thus what a
    file contains is not told by when it was modified.
    """
    data = text if isinstance(text, bytes) else text.encode('utf-8')
    old = None
    stamped = str(path).endswith('.yaml')
    if stamped and os.path.exists(path):
        old = os.stat(path).st_mtime
    with open(path, 'wb') as f:
        f.write(data)
    if stamped:
        _writes[0] += 1
        kind = _writes[0] % 7
        if kind in (1, 4):
            os.utime(path, (1000000000 + _writes[0],) * 2)
        elif kind == 2 and old is not None:
            os.utime(path, (old, old))
        elif kind == 5:
            os.utime(path, (2000000000,) * 2)
    return path


def tree(root):
    """Snapshot of a directory tree: path -> content digest or marker."""
    snap = {}
    for r, ds, fs in os.walk(root):
        for d in ds:
            snap[os.path.relpath(os.path.join(r, d), root) + '/'] = ''
        for f in fs:
            p = os.path.join(r, f)
            try:
                with open(p, 'rb') as h:
                    snap[os.path.relpath(p, root)] = hashlib.sha1(
                        h.read()).hexdigest()
            except OSError as e:
                snap[os.path.relpath(p, root)] = 'E%s' % e.errno
    return snap


def same_data(a, b):
    """Equality that also distinguishes 1/True and list/tuple."""
    if type(a) is not type(b):
        if isinstance(a, dict) and isinstance(b, dict):
            pass
        elif isinstance(a, str) and isinstance(b, str):
            pass
        else:
            return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same_data(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_data, a, b))
    return a == b


deepcopy = copy.deepcopy
