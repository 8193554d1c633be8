"""P40: interruptions.

Runs of the library and of the tool are interrupted in forked processes,
at any executed line of the code under test, at any file operation, from
the commands and servers they wait for, or at any time; the monitors look
at what is left.
"""
import collections
import contextlib
import dis
import os
import pickle
import random
import shutil
import signal
import stat
import subprocess
import sys
import threading
import time
import types

import faults
import model
from c_cli import DRIVER, INST, CliWorld
from c_config import load_xylem
from common import (PY, REPO, SCRATCH, deepcopy, fresh_dir, observe, quiet,
                    same_data, tree, write)
from plugdist import add_dist, remove_dist
from rules_common import Env, cli, dump
from stubs import Machine, STYLES, make_stub_class, plain

PREFIX = os.path.join(os.path.abspath(REPO), 'xylem') + os.sep
MAIN = os.path.join(PREFIX, 'commands', 'main.py')
# the first instruction of lines such as "try:"
IDLE = {dis.opmap[n] for n in ('NOP', 'RESUME') if n in dis.opmap}


class Lines(object):
    """Counts executed lines of the code under test; interrupts one."""

    def __init__(self, at=0, record=False, on_fire=None):
        self.at, self.on_fire = at, on_fire
        self.n = 0
        self.places = [] if record else None
        self.where = None

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event != 'line':
            return self._line
        if frame.f_code.co_code[frame.f_lasti] in IDLE:
            # nothing is done here, and no signal can be seen here
            return self._line
        self.n += 1
        if self.places is not None:
            self.places.append((frame.f_code.co_filename[len(PREFIX):],
                                frame.f_lineno))
        if self.n == self.at:
            stack = []
            f = frame
            while f is not None:
                stack.append((f.f_code.co_filename, f.f_code.co_name))
                f = f.f_back
            self.where = dict(
                at=self.n, place='%s:%d in %s' % (
                    frame.f_code.co_filename[len(PREFIX):], frame.f_lineno,
                    frame.f_code.co_name),
                working=is_working(stack))
            if self.on_fire:
                self.where['state'] = self.on_fire()
            raise KeyboardInterrupt
        return self._line

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def is_working(stack):
    """Is this stack, innermost first, at work for the tool, i.e. below
    what its main function calls after it parsed the arguments?"""
    for path, name in stack:
        if name in ('handle_global_arguments', 'handle_config_arguments'):
            return True
        if name == 'main' and path != MAIN and \
                os.path.dirname(path) == os.path.dirname(MAIN):
            return True
    return False


def described(fn):
    """What became of ``fn()``."""
    try:
        return ('returned', fn())
    except KeyboardInterrupt:
        return ('interrupted', None)
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, e))


def ready():
    # the harness may run with this signal ignored
    signal.signal(signal.SIGINT, signal.default_int_handler)


def count_lines(fn):
    def child():
        ready()
        getattr(fn, 'prepare', int)()
        with Lines(record=True) as l:
            res = described(fn)
        return res, l.places
    return faults.run(child)


def run_at(fn, at, on_fire=None):
    def child():
        ready()
        getattr(fn, 'prepare', int)()
        with Lines(at, on_fire=on_fire) as l:
            res = described(fn)
        return res, l.where
    return faults.run(child)


def run_op(fn, root, at):
    def child():
        ready()
        return described(fn), None
    return faults.run(child, fault=faults.Fault(root, faults.INT, at))


def tool(argv):
    """The tool, with what it would show in plain data."""
    def fn():
        r = cli(argv)
        return (r.status, r.out, r.err, repr(r.exc) if r.exc else None)
    return fn


def points(rng, places, k):
    """Points of time, evenly over what the code does rather than over
    time."""
    by = collections.defaultdict(list)
    for n, p in enumerate(places, 1):
        by[p].append(n)
    locations = sorted(by)
    res = []
    for p in rng.sample(locations, min(k, len(locations))):
        res.append(rng.choice([by[p][0], by[p][-1], rng.choice(by[p])]))
    return res


class Lab(object):
    """Runs things with and without interruptions."""

    def __init__(self, chk, holder):
        self.chk, self.rng, self.holder = chk, chk.rng, holder

    def judge(self, what, r, is_tool, fired, **wit):
        """The interruption must come through; True if there was one."""
        chk = self.chk
        if r.status != 'ok':
            chk.violate('lost', '%s: %r' % (what, r), **wit)
            return False
        (kind, value), where = r.value
        wit = dict(wit, where=where, result=(kind, value))
        if not fired(r, where):
            chk.count('not_reached')
            return False
        chk.count('interruptions')
        if is_tool:
            if kind == 'interrupted':
                chk.check(not (where and where['working']), 'traceback',
                          '%s, interrupted at %s: ends with a traceback' % (
                              what, where), **wit)
            elif kind == 'returned':
                status, out, err, exc = value
                chk.check(status != 0, 'swallowed-by-tool', '%s, interrupted '
                          'at %s: exit status 0' % (what, where), **wit)
                if where and where['working']:
                    chk.check(exc is None and
                              'Traceback' not in out + err, 'traceback',
                              '%s, interrupted at %s: %s' % (
                                  what, where, value), **wit)
            else:
                chk.violate('changed', '%s, interrupted at %s: %s' % (
                    what, where, value), **wit)
        else:
            chk.check(kind == 'interrupted', 'swallowed', '%s, interrupted '
                      'at %s: %s %s' % (what, where, kind, value), **wit)
        return True

    def each(self, what, fn, is_tool, reset, verify, root=None, k=6,
             on_fire=None):
        """Interrupt ``fn`` at several points.

        ``reset()`` restores the state before each run and
        ``verify(result, where)`` looks at what is left.
        """
        chk, rng = self.chk, self.rng
        reset()
        r = count_lines(fn)
        if not chk.check(r.status == 'ok' and r.value[0][0] == 'returned',
                         'reference', '%s, not interrupted: %r' % (what, r)):
            return
        if is_tool and not chk.check(
                r.value[0][1][0] == 0 and r.value[0][1][3] is None,
                'reference', '%s, not interrupted: %r' % (what, r.value[0])):
            return
        places = r.value[1]
        if not places:
            return
        done = verify(r, None)
        chk.count('lines', len(places))
        for at in points(rng, places, k):
            reset()
            r = run_at(fn, at, on_fire)
            self.judge(what, r, is_tool, lambda r, w: w is not None, at=at)
            if r.status == 'ok':
                chk.count('at_lines')
                verify(r, r.value[1])
                chk.case((what, places[at - 1]), sample=(what, r.value[1]))
        if root is None:
            return done
        reset()
        r = run_op(fn, root, 0)
        ops = r.seen
        for at in sorted(rng.sample(range(1, ops + 1), min(k, ops))):
            reset()
            r = run_op(fn, root, at)
            self.judge(what, r, is_tool, lambda r, w: r.injected > 0, at=at)
            chk.count('at_operations')
            verify(r, None)
            chk.case((what, 'op', at))
        return done


def loaded(path):
    """The content of a cache file without the time."""
    with open(path, 'rb') as f:
        d = pickle.load(f)
    d = dict(d)
    d.pop('time_data_loaded', None)
    return d


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def interrupted_update(lab):
    """Updates: every cache file is the old or the new one."""
    chk, rng = lab.chk, lab.rng
    env = Env('int')
    names = ['r%d.yaml' % i for i in range(rng.randint(1, 4))]
    for n in names:
        env.write_rules(n, model.gen_rules(rng, model.Tags()))
    env.write_sources('s.yaml', [env.url(n) for n in names])
    cdir = env.context().cache_dir
    os.makedirs(cdir)
    with_old = rng.choice(['none', 'all', 'some'])
    if with_old != 'none':
        quiet(env.updated)
        for f in sorted(os.listdir(cdir)):
            if with_old == 'some' and rng.random() < .5:
                os.remove(os.path.join(cdir, f))
    if rng.random() < .3:
        write(os.path.join(cdir, 'other.pickle'), 'of someone else')
    old = {f: read(os.path.join(cdir, f))
           for f in os.listdir(cdir)}
    for n in names:
        if rng.random() < .8:
            env.write_rules(n, model.gen_rules(rng, model.Tags()))
    keep = os.path.join(env.root, 'keep')
    shutil.copytree(cdir, keep)
    sources = tree(env.sources), tree(env.rules)

    def reset():
        shutil.rmtree(cdir)
        shutil.copytree(keep, cdir)
    new = {}
    mode = rng.choice(['update', 'database', 'tool'])

    def leaves_stray(at):
        """Is it so for the line before or after, too?"""
        for n in (at - 1, at + 1):
            reset()
            r = run_at(fn, n)
            if r.status != 'ok' or not r.value[1] or \
                    set(os.listdir(cdir)) - set(old) - set(new):
                return True
        return False
    if mode == 'tool':
        fn = tool(['--sources-dir', env.sources, '--cache-dir', env.cache,
                   '--xylem-dir', env.root, 'update'])
    elif mode == 'update':
        from xylem.update import update
        fn = lambda: update(config=env.config())
    else:
        def fn():
            env.updated()

    def verify(r, where):
        if not new:
            for f in os.listdir(cdir):
                p = os.path.join(cdir, f)
                if f != 'other.pickle':
                    new[f] = loaded(p)
            chk.equal(len(new), len(names), 'reference',
                      'cache files after an update by ' + mode)
            return
        now = set(os.listdir(cdir))
        stray = now - set(old) - set(new)
        if stray and where and not leaves_stray(where['at']):
            # a moment between two steps is not held against the code
            chk.count('between_steps')
            return
        chk.check(not stray, 'stray-files', 'update by %s, interrupted at '
                  '%s: leaves %s in the cache directory' % (
                      mode, where, sorted(stray)))
        chk.check(set(old) <= now, 'cache-lost', 'update by %s, interrupted '
                  'at %s: %s are gone' % (mode, where,
                                          sorted(set(old) - now)))
        for f in sorted(now & (set(old) | set(new))):
            p = os.path.join(cdir, f)
            if f in old and read(p) == old[f]:
                chk.count('kept_files')
                continue
            o = observe(loaded, p)
            if chk.check(o.ok and f in new and same_data(o.value, new[f]),
                         'partial-cache', 'update by %s, interrupted at %s: '
                         'cache file is neither the old nor the new one: %r'
                         % (mode, where, o)):
                chk.count('new_files')
        chk.equal((tree(env.sources), tree(env.rules)), sources,
                  'sources-changed', 'sources after an interrupted update')
        # and the next update makes up for it
        if rng.random() < .3:
            o = quiet(env.updated)
            if chk.returns(o, 'no-recovery', 'update after an interrupted '
                           'one'):
                for f, want in new.items():
                    chk.check(same_data(loaded(os.path.join(cdir, f)),
                                        want), 'no-recovery', 'cache '
                              'file after another update is not up to date')
            chk.equal(set(os.listdir(cdir)), set(old) | set(new),
                      'no-recovery', 'cache files after another update')
            chk.count('recoveries')
    lab.each('update by ' + mode, fn, mode == 'tool', reset, verify,
             root=env.cache)
    chk.count('updates')
    shutil.rmtree(env.root, True)


def interrupted_query(lab):
    """Queries and dry runs change nothing."""
    chk, rng = lab.chk, lab.rng
    w = CliWorld(rng, chk)
    w.env.write_sources('s.yaml', [w.env.url('r.yaml')])
    lab.holder['machine'] = m = Machine(INST)
    lab.holder['style'] = {n: rng.choice(STYLES) for n in INST}
    lab.holder['broken'] = {}
    if not chk.returns(quiet(w.env.updated), 'reference', 'update'):
        return
    flat = [a for c in w.options() if c[0] not in (
        '--install-from', '--disable-installer-plugins',
        '--core-installers') for a in c]
    flat += ['--core-installers', 'insta']
    # such that nothing fails
    rules = {'k': {'any_os': {'any_version': {
        'insta': {'packages': ['p', 'q']}}}}}
    w.rules.update(rules)
    w.env.write_rules('r.yaml', w.rules)
    quiet(w.env.updated)
    what = rng.choice(['lookup', 'resolve', 'install --dry-run',
                       'update --dry-run', 'lookup', 'resolve'])
    is_tool = rng.random() < .6 or ' ' in what
    if is_tool:
        argv = flat + what.split() + ([] if 'update' in what else ['k'])
        fn = tool(argv)
    else:
        def fn():
            from xylem.lookup import lookup
            from xylem.resolve import resolve
            cfg = load_xylem(flat)
            return repr({'lookup': lookup, 'resolve': resolve}[what](
                'k' if what == 'lookup' else ['k'], config=cfg))
    before = tree(w.env.root), tree(m.base)

    def verify(r, where):
        chk.equal((tree(w.env.root), tree(m.base)), before, 'query-writes',
                  'files after %s interrupted at %s' % (what, where))
    lab.each(what, fn, is_tool, lambda: None, verify)
    chk.count('queries')
    shutil.rmtree(w.env.root, True)


def interrupted_install(lab):
    """Nothing is executed after the interruption of an installation."""
    chk, rng = lab.chk, lab.rng
    w = CliWorld(rng, chk)
    rules = {}
    keys = ['k%d' % i for i in range(rng.randint(1, 4))]
    for k in keys:
        rules[k] = {'any_os': {'any_version': {rng.choice(INST): {
            'packages': ['%s-p%d' % (k, i)
                         for i in range(rng.randint(1, 3))]}}}}
    w.env.write_rules('r.yaml', rules)
    w.env.write_sources('s.yaml', [w.env.url('r.yaml')])
    style = {n: rng.choice(STYLES) for n in INST}
    lab.holder['style'], lab.holder['broken'] = style, {}
    lab.holder['machine'] = Machine(INST)
    if not chk.returns(quiet(w.env.updated), 'reference', 'update'):
        return
    flat = ['--sources-dir', w.env.sources, '--cache-dir', w.env.cache,
            '--xylem-dir', w.dir, '--os', 'ubuntu:trusty',
            '--core-installers', ','.join(INST)]
    kw = dict(reinstall=rng.random() < .3,
              continue_on_error=rng.random() < .5)
    is_tool = rng.random() < .5
    if is_tool:
        fn = tool(flat + ['install'] + keys + [
            '--' + n.replace('_', '-') for n in sorted(kw) if kw[n]])
    else:
        def fn():
            from xylem.install import install
            return repr(install(keys, config=load_xylem(flat), **kw))
    what = 'install by ' + ('tool' if is_tool else 'library')
    files = tree(w.env.root)

    def executed():
        return [[os.path.basename(c[0])] + c[1:]
                for c in lab.holder['machine'].executed()]

    def reset():
        shutil.rmtree(lab.holder['machine'].base, True)
        lab.holder['machine'] = Machine(INST)
    plan = []

    def verify(r, where):
        now = executed()
        if where is None:
            plan.extend(now)
            chk.check(now, 'reference', what + ' executes nothing')
            return
        chk.equal(now, where['state'], 'executed-after-interruption',
                  'commands executed by %s when and after it was '
                  'interrupted at %s' % (what, where['place']))
        chk.equal(now, plan[:len(now)], 'other-commands',
                  'commands executed by %s until interrupted at %s' % (
                      what, where['place']))
        chk.equal(tree(w.env.root), files, 'files', 'files after an '
                  'interrupted installation')
        chk.count('stopped_after_%d' % min(len(now), 3))
    lab.each(what, fn, is_tool, reset, verify, on_fire=executed)
    chk.count('installs')
    if not plan:
        return
    # interrupted while a command runs
    for n in rng.sample(range(len(plan)), min(4, len(plan))):
        reset()
        m = lab.holder['machine']
        token = plan[n][-1]
        if token.startswith('--') or len(plan[n]) < 2:
            token = plan[n][0]
        write(os.path.join(m.base, 'int', token), '')
        # the first command that has it
        stop = next(i for i, c in enumerate(plan) if token in c)
        r = run_at(fn, 0)
        lab.judge('%s, interrupted in command %d of %d' % (
            what, stop + 1, len(plan)), r, is_tool,
            lambda r, w: True, plan=plan)
        if r.status != 'ok':
            continue
        if is_tool and r.value[0][0] == 'returned':
            chk.check(r.value[0][1][0] == 1 and r.value[0][1][3] is None and
                      'Traceback' not in r.value[0][1][2], 'traceback',
                      'tool interrupted in a command: %s' % (r.value,))
        chk.equal(executed(), plan[:stop + 1],
                  'executed-after-interruption', 'commands executed by %s '
                  'when interrupted in command %d of %r' % (
                      what, stop + 1, plan))
        chk.count('in_commands')
        chk.case((what, 'command', stop, len(plan)))
        # the user tries again
        os.remove(os.path.join(m.base, 'int', token))
        r = run_at(fn, 0)
        good = r.status == 'ok' and r.value[0][0] == 'returned' and (
            not is_tool or r.value[0][1][0] == 0)
        chk.check(good, 'no-recovery', 'installing again after an '
                  'interruption: %r' % r)
        missing = [p for e in rules.values()
                   for i, d in e['any_os']['any_version'].items()
                   for p in d['packages'] if not m.installed(i, p)]
        chk.equal(missing, [], 'no-recovery', 'packages still missing after '
                  'installing again')
        chk.count('recoveries')
    # interrupted while an installer is asked
    op = rng.choice(['filter', 'verify', 'compose'])
    name = rng.choice(sorted(set(c[0] for c in plan)))
    if op == 'filter' and kw['reinstall']:
        op = 'compose'
    lab.holder['broken'] = {name: {op: KeyboardInterrupt}}
    reset()
    r = run_at(fn, 0)
    lab.holder['broken'] = {}
    lab.judge('%s, interrupted in the installer operation %s' % (
        what, op), r, is_tool, lambda r, w: True, plan=plan)
    now = executed()
    chk.equal(now, plan[:len(now)], 'other-commands',
              'commands executed by %s until interrupted in %s' % (what, op))
    if op == 'filter':
        chk.equal(now, [], 'executed-after-interruption', 'commands '
                  'after determining what is installed was interrupted')
    chk.count('in_installers')
    shutil.rmtree(w.env.root, True)


def interrupted_compaction(lab):
    """The rules file is the old or the new one."""
    chk, rng = lab.chk, lab.rng
    d = fresh_dir('intcompact')
    home = os.path.join(d, 'home')
    files = os.path.join(d, 'files')
    os.makedirs(home)
    os.makedirs(files)
    from c_rules import KNOWN_OS
    rules = model.gen_rules(rng, model.Tags(), oss=list(KNOWN_OS),
                            versions=dict(KNOWN_OS))
    text = '# comment\n' + dump(model.shorten(rng, rules))
    p = os.path.join(files, 'rules.yaml')
    target = p
    if rng.random() < .3:
        target = os.path.join(files, 'real.yaml')
        os.symlink(rng.choice(['real.yaml', target]), p)
    mode = rng.choice([0o644, 0o600, 0o664, 0o755])

    def reset():
        if os.path.lexists(target):
            os.remove(target)
        write(target, text)
        os.chmod(target, mode)
    reset()
    names = sorted(os.listdir(files))
    writing = rng.random() < .8
    argv = ['--xylem-dir', home, '_compact_rules_file', p] + (
        ['-w'] if writing else [])
    if rng.random() < .5:
        argv = ['--xylem-dir', home, '_compact_rules_file'] + (
            ['--write'] if writing else []) + [p]
    new = []

    def verify(r, where):
        now = read(target).decode('utf-8') if os.path.exists(
            target) else None
        if not new:
            new.append(now)
        chk.check(now in (text, new[0]), 'partial-rules-file',
                  lambda: 'compacting interrupted at %s leaves %r' % (
                      where, now))
        if not writing:
            chk.equal(now, text, 'printing-writes', 'file after printing')
        if now == new[0] and where:
            chk.count('compacted')
        chk.equal(sorted(os.listdir(files)), names, 'stray-files',
                  'files after compacting interrupted at %s' % (where,))
        chk.check(os.path.islink(p) == (target != p), 'link-replaced',
                  'the symbolic link was replaced')
        chk.equal(stat.S_IMODE(os.stat(target).st_mode), mode, 'mode',
                  'permissions of the rules file')
    lab.each('compaction', tool(argv), True, reset, verify, root=files)
    # other things that go wrong while writing
    reset()
    r = run_op(tool(argv), files, 0)
    for at in range(1, r.seen + 1):
        for fault in (faults.KILL, faults.FAIL, faults.STICKY):
            reset()
            if fault == faults.KILL and rng.random() < .5:
                continue

            def child():
                ready()
                return described(tool(argv)), None
            r = faults.run(child, fault=faults.Fault(
                files, fault, at, rng.choice(['ENOSPC', 'EIO', 'EDQUOT'])))
            now = read(target).decode('utf-8') if os.path.exists(
                target) else None
            chk.check(now in (text, new[0]), 'partial-rules-file',
                      lambda: 'compacting with %s at operation %d leaves %r'
                      % (['', 'kill', 'error', 'errors from on'][fault], at,
                         now))
            if fault == faults.FAIL:
                chk.equal(sorted(os.listdir(files)), names, 'stray-files',
                          'files after compacting with an error')
            if fault != faults.KILL and now != new[0]:
                chk.check(r.status == 'ok' and r.value[0][0] == 'returned'
                          and r.value[0][1][0] == 1 and
                          r.value[0][1][3] is None, 'write-error-hidden',
                          'error while writing: %r' % r)
            for f in os.listdir(files):
                if f not in names:
                    os.remove(os.path.join(files, f))
            chk.count('failing_writes')
    chk.count('compactions')
    shutil.rmtree(d, True)


def interrupted_download(lab, server, requested):
    """Waiting for a server that does not answer is interrupted."""
    chk, rng = lab.chk, lab.rng
    from c_net import Script
    from xylem.load_url import load_url
    name = 'int%d' % rng.randrange(1 << 40)
    step = rng.choice([('stall',), ('stall-body',)])
    steps = [('status', 503, b'busy', None, [])] * rng.randint(0, 2)
    script = server.scripts[name] = Script(steps + [step])
    url = 'http://127.0.0.1:%d/%s/x' % (server.server_address[1], name)
    during_retry = steps and rng.random() < .5
    is_tool = rng.random() < .4
    if is_tool:
        env = Env('intnet')
        env.write_sources('s.yaml', [url])
        fn = tool(['--sources-dir', env.sources, '--cache-dir', env.cache,
                   '--xylem-dir', env.root, 'update'])
    else:
        fn = lambda: load_url(url, retry=5, timeout=60,
                              retry_period=60 if during_retry else .01)
    wait_for = 1 if during_retry or is_tool else len(steps) + 1

    def child():
        ready()
        return described(fn), None
    c = faults.Child(child)
    end = time.time() + 30
    while len(script.times) < wait_for and time.time() < end:
        time.sleep(.005)
    time.sleep(rng.random() * .1)
    t = time.time()
    os.kill(c.pid, signal.SIGINT)
    # a signal that arrives just before a system call blocks is only
    # noticed with the next one
    again = [threading.Timer(k, os.kill, (c.pid, signal.SIGINT))
             for k in (6, 13)]
    for timer in again:
        timer.daemon = True
        timer.start()
    try:
        r = c.wait(40)
    finally:
        for timer in again:
            timer.cancel()
    script.gone.set()
    what = 'download of %s%s' % (step[0], ' by tool' if is_tool else '')
    if lab.judge(what, r, is_tool, lambda r, w: True):
        chk.count('in_downloads')
        chk.check(time.time() - t < 25, 'slow', '%s went on for %.1f s after '
                  'its interruption' % (what, time.time() - t))
        if is_tool:
            chk.equal([f for f in tree(env.root) if not f.endswith('/') and
                       not f.startswith('sources.d')], [], 'stray-files',
                      'files after an interrupted download')
            shutil.rmtree(env.root, True)
    chk.case((what, len(steps), during_retry))


def interrupted_detection(lab):
    """Detecting the OS, on simulated systems."""
    import ctypes
    from c_misc import System
    chk, rng = lab.chk, lab.rng
    s = System(rng)
    before = tree(s.root)

    def prepare():
        for m in [m for m in sys.modules if m.split('.')[0] == 'xylem']:
            del sys.modules[m]
        os.environ['PATH'] = os.path.join(s.root, 'path')
        ctypes.CDLL(os.environ['XV_SHIM']).xvr_root(os.fsencode(s.root))
        import xylem.os_support

    def fn():
        from xylem.os_support import OSSupport, os_detect

        def current():
            c = OSSupport()
            c.detect_os()
            return c.current_os.get_tuple()
        res = [repr(observe(current))[:60]]
        for name, d in os_detect.OsDetect().default_os_list:
            res.append((name, [repr(observe(f))[:60] for f in (
                d.is_os, d.get_version, d.get_codename)]))
        return res
    fn.prepare = prepare
    lab.each('detection of ' + s.kind, fn, False, lambda: None,
             lambda r, where: None, k=5)
    # interrupted in a command that tells the version
    names = [os.path.join(d, f) for d, _, fs in os.walk(s.root) for f in fs
             if os.access(os.path.join(d, f), os.X_OK)]
    for p in rng.sample(names, min(2, len(names))):
        body = read(p)
        write(p, b'#!/bin/sh\n: > %s/called\nkill -2 $PPID\nsleep 1\n'
              % os.fsencode(lab.holder['flags']) + body)
        flag = os.path.join(lab.holder['flags'], 'called')
        if os.path.exists(flag):
            os.remove(flag)
        r = run_at(fn, 0)
        if lab.judge('detection of %s, interrupted in %s' % (
                s.kind, os.path.basename(p)), r, False,
                lambda r, w: os.path.exists(flag)):
            chk.count('in_detection')
        write(p, body)
    chk.equal(tree(s.root), before, 'query-writes', 'files of the system')
    chk.count('detections')
    shutil.rmtree(s.root, True)


def interrupted_process(lab):
    """Real signals to the real tool at any time."""
    chk, rng = lab.chk, lab.rng
    env = Env('intproc')
    names = ['r%d.yaml' % i for i in range(4)]
    for n in names:
        env.write_rules(n, model.gen_rules(rng, model.Tags()))
    env.write_sources('s.yaml', [env.url(n) for n in names])
    quiet(env.updated)
    cdir = env.context().cache_dir
    old = {f: loaded(os.path.join(cdir, f))
           for f in os.listdir(cdir)}
    raw = {f: read(os.path.join(cdir, f)) for f in old}
    for n in names:
        env.write_rules(n, model.gen_rules(rng, model.Tags()))
    keep = os.path.join(env.root, 'keep')
    shutil.copytree(cdir, keep)
    argv = [PY, '-W', 'ignore', '-c', DRIVER % REPO, '--sources-dir',
            env.sources, '--cache-dir', env.cache, '--xylem-dir', env.root,
            'update']
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)

    def start():
        return subprocess.Popen(
            argv, stdin=subprocess.DEVNULL, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, preexec_fn=ready)
    t = time.time()
    p = start()
    p.communicate()
    total = time.time() - t
    chk.check(p.returncode == 0, 'reference', 'update: %r' % p.returncode)
    new = {f: loaded(os.path.join(cdir, f))
           for f in os.listdir(cdir)}
    for i in range(4):
        shutil.rmtree(cdir)
        shutil.copytree(keep, cdir)
        p = start()
        time.sleep(total * rng.uniform(.4, 1.05))
        running = p.poll() is None
        p.send_signal(signal.SIGINT)
        out, err = p.communicate()
        now = {f: loaded(os.path.join(cdir, f))
               for f in os.listdir(cdir) if f in new or f in old}
        chk.equal(sorted(os.listdir(cdir)), sorted(new), 'stray-files',
                  'cache files after SIGINT')
        done = 0
        for f in now:
            if same_data(now[f], new[f]):
                done += 1
            else:
                chk.check(read(os.path.join(cdir, f)) == raw.get(f),
                          'partial-cache', 'cache file after SIGINT is '
                          'neither the old nor the new one')
        if p.returncode == 0:
            chk.equal(done, len(new), 'swallowed-by-tool', 'up-to-date '
                      'sources after an update with exit status 0')
        else:
            chk.count('processes_interrupted')
        chk.count('processes')
        chk.case(('process', done, p.returncode == 0))
    shutil.rmtree(env.root, True)


def p40(chk):
    from c_net import Server, Handler
    rng = chk.rng
    Stub = make_stub_class()
    holder = {'style': {n: 'each' for n in INST}, 'broken': {}}

    def plugin(name):
        def init(self):
            Stub.__init__(self, holder['machine'], name, False,
                          holder['style'][name])
            self.broken = dict(holder['broken'].get(name, {}))
        return type(str('P40' + name), (Stub,), {'__init__': init})
    mod = types.ModuleType('xvp40')
    for n in INST:
        setattr(mod, n, dict(plugin_name=n, description='stub',
                             installer=plugin(n)))
    dist = add_dist('xvp40', {'xylem.installers': [
        (n, 'xvp40:' + n) for n in INST]}, {'xvp40': mod})
    server = Server(('127.0.0.1', 0), Handler)
    server.scripts = {}
    holder['flags'] = fresh_dir('flags')
    threading.Thread(target=server.serve_forever, daemon=True).start()
    lab = Lab(chk, holder)
    try:
        for i in chk.loop(32, 800):
            k = i % 8
            if k in (0, 4):
                interrupted_update(lab)
            elif k == 1:
                interrupted_query(lab)
            elif k in (2, 5):
                interrupted_install(lab)
            elif k == 3:
                interrupted_compaction(lab)
            elif k == 6:
                interrupted_detection(lab)
            else:
                for _ in range(3):
                    interrupted_download(lab, server, None)
            if i % 16 == 0:
                interrupted_process(lab)
    finally:
        server.shutdown()
        remove_dist(dist, 'xvp40')
