"""P41: operations leave nothing behind in the process.

Every operation is run, with and without failures, in a forked process
whose state is compared before and after it.
"""
import ctypes
import gc
import locale
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import types

import yaml

import faults
import model
from c_cli import INST, CliWorld, PluginWorld
from c_config import load_xylem
from common import (deepcopy, fresh_dir, observe, quiet, same_data, tree,
                    write)
from plugdist import add_dist, remove_dist
from rules_common import Env, cli, dump
from stubs import Machine, STYLES, make_stub_class


def children():
    res = []
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % t) as f:
                res += f.read().split()
        except OSError:
            pass
    return sorted(res)


def fds():
    res = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            res[f] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass        # the directory that is listed
    return res


def have_children():
    try:
        return os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        return None


def snapshot():
    """What of the process state must not change."""
    mask = os.umask(0)
    os.umask(mask)
    handlers = {}
    for s in range(1, signal.NSIG):
        try:
            handlers[s] = repr(signal.getsignal(s))
        except ValueError:
            pass
    import xylem.config
    return {
        'file descriptors': fds(),
        'threads': sorted(t.name for t in threading.enumerate()),
        'tasks': len(os.listdir('/proc/self/task')),
        'children': (children(), have_children()),
        'temporary files': tree(tempfile.gettempdir()),
        'working directory': os.getcwd(),
        'umask': mask,
        'environment': dict(os.environ),
        'signal handlers': handlers,
        'signal mask': sorted(map(int, signal.pthread_sigmask(
            signal.SIG_BLOCK, []))),
        'timers': (signal.getitimer(signal.ITIMER_REAL),
                   signal.getitimer(signal.ITIMER_PROF)),
        'standard streams': [id(f) for f in (
            sys.stdin, sys.stdout, sys.stderr, sys.__stdout__,
            sys.__stderr__)],
        'module search path': list(sys.path),
        'arguments of the process': list(sys.argv),
        'socket timeout': socket.getdefaulttimeout(),
        'locale': locale.setlocale(locale.LC_ALL),
        'hooks': [id(h) for h in (sys.excepthook, sys.displayhook,
                                  sys.unraisablehook,
                                  threading.excepthook)],
        'tracing': (sys.gettrace(), sys.getprofile()),
        'recursion limit': sys.getrecursionlimit(),
        'garbage collection': (gc.isenabled(), gc.get_threshold()),
        'process group': (os.getpgrp(), os.getsid(0)),
        'user': (os.getresuid(), os.getresgid()),
        'tempdir setting': tempfile.tempdir,
        'YAML loading': repr([yaml.safe_load(t) for t in (
            'a: {b: [1, 2.5, yes, null, 2001-01-01, text, !!str 7]}',)]),
        'YAML dumping': yaml.safe_dump(
            {'b': ['x', 1, None], 'a': {'t': True}}),
        'global configuration': repr(xylem.config.get_config()),
    }


def tried(fn):
    """In the forked process: the outcome and the changes."""
    unraisable = []
    hook = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append(
        '%r in %r' % (u.exc_value, u.object))
    try:
        fn_ = fn
        for n in range(2):
            # the first time may import modules
            gc.collect()
            before = snapshot()
            o = quiet(fn_)
            outcome = repr(o.value)[:300] if o.ok else '%s: %s' % (
                type(o.exc).__name__, str(o.exc)[:300])
            ok = o.ok
            del o
            gc.collect()
            after = snapshot()
            changes = {k: (short_(before[k], after[k]),
                           short_(after[k], before[k]))
                       for k in before if before[k] != after[k]}
            if changes:
                break
    finally:
        sys.unraisablehook = hook
    return ok, outcome, changes, unraisable, n


def short_(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        a = {k: v for k, v in a.items() if k not in b or b[k] != v}
    return repr(a)[:700]


class Workshop(object):
    """Operations of all kinds, as functions."""

    def __init__(self, chk, holder, server):
        self.chk, self.rng = chk, chk.rng
        self.holder, self.server = holder, server

    # each returns (description, function)

    def download(self):
        from c_net import Script, fatal_step, ok_step, retry_step
        from xylem.load_url import load_url
        rng = self.rng
        name = 'left%d' % rng.randrange(1 << 40)
        steps = [retry_step(rng) for _ in range(rng.randint(0, 2))]
        steps.append(ok_step(rng)[0] if rng.random() < .5
                     else fatal_step(rng))
        self.server.scripts[name] = Script(steps)
        url = 'http://127.0.0.1:%d/%s/x' % (self.server.server_address[1],
                                            name)
        if rng.random() < .25:
            path = write(os.path.join(fresh_dir('file'), 'f'), 'text')
            url = rng.choice(['file://' + path, 'file:///nosuch',
                              'nosuch://x', 'http://127.0.0.1:1/', 'x',
                              'file://' + os.path.dirname(path)])
        retry = rng.randint(0, 2)
        return 'download of %s' % [s[0] for s in steps], lambda: load_url(
            url, retry=retry, timeout=.15, retry_period=.01)

    def env(self):
        rng = self.rng
        env = Env('left')
        names = ['r%d.yaml' % i for i in range(rng.randint(1, 3))]
        for n in names:
            env.write_rules(n, model.gen_rules(rng, model.Tags()))
        urls = [env.url(n) for n in names]
        bad = rng.random()
        if bad < .2:
            urls.append(env.url('missing.yaml'))
        elif bad < .4:
            env.write_rules('bad.yaml', None, rng.choice(
                ['x: [', 'x: 3\n', '\xff', 'x: {ubuntu: 7}\n']))
            urls.append(env.url('bad.yaml'))
        rng.shuffle(urls)
        env.write_sources('s.yaml', urls)
        if rng.random() < .15:
            write(os.path.join(env.sources, 't.yaml'), rng.choice(
                ['x: [', '- 3\n', '- nosuch: x\n', '- rules: [1]\n']))
        return env

    def update(self):
        rng = self.rng
        env = self.env()
        if rng.random() < .5:
            quiet(env.updated)
        from xylem.update import update
        dry = rng.random() < .3

        def lib():
            update(dry_run=dry, config=env.config())

        def raising():
            db = env.database()
            db.raise_on_error = True
            env.context().ensure_cache_dir()
            db.update()
        fn = rng.choice([lib, raising])
        fault = None
        if rng.random() < .6:
            fault = faults.Fault(env.root, rng.choice(
                [faults.FAIL, faults.STICKY]), rng.randint(1, 14),
                rng.choice(['ENOSPC', 'EIO', 'EACCES']))
        return 'update (%s%s)' % (fn.__name__, ', %r' % fault if fault
                                  else ''), fn, fault

    def read_cache(self):
        rng = self.rng
        env = self.env()
        quiet(env.updated)
        files = [os.path.join(d, f) for d, _, fs in os.walk(env.cache)
                 for f in fs]
        for p in files:
            if rng.random() < .3:
                data = open(p, 'rb').read()
                write(p, data[:rng.randrange(len(data))])

        def fn():
            from rules_common import ctx
            db = env.database()
            db.raise_on_error = rng.random() < .5
            db.load_from_cache()
            c = ctx('ubuntu', 'trusty')
            return [db.lookup(k, c) for k in db.keys(c)]
        return 'reading the cache', fn

    def configuration(self):
        rng = self.rng
        d = fresh_dir('leftcfg')
        p = os.path.join(d, 'config.yaml')
        write(p, rng.choice([
            'core_installers: [apt]\n', 'x: [', 'os_override: [1]\n', '',
            'install_from: {apt: [x]}\n', '- 1\n', 'cache_dir: ~/x\n']))
        if rng.random() < .2:
            os.remove(p)
        flat = ['--xylem-dir', d]
        if rng.random() < .3:
            flat += ['--os', 'ubuntu:trusty']
        return 'configuration', lambda: load_xylem(flat)

    def queries(self):
        rng = self.rng
        w = CliWorld(rng, self.chk)
        holder = self.holder
        holder['machine'] = Machine(INST)
        holder['style'] = {n: rng.choice(STYLES) for n in INST}
        holder['broken'] = {}
        if rng.random() < .3:
            from xylem.installers import InstallerError
            holder['broken'][rng.choice(INST)] = {rng.choice(
                ['filter', 'verify', 'compose', 'general', 'install']):
                rng.choice([InstallerError, RuntimeError])}
        quiet(w.env.updated)
        w.env.write_sources('s.yaml', [w.env.url('r.yaml')])
        flat = [a for c in w.options() for a in c]
        for e in w.rules.values():
            for o_ in e.values():
                for v in o_.values():
                    for i in (v.values() if isinstance(v, dict) else ()):
                        for p in i.get('packages', ()):
                            if rng.random() < .08:
                                holder['machine'].mark(
                                    rng.choice(['fail', 'kill', 'lie']), p,
                                    '3')
        keys = rng.sample(sorted(w.rules), rng.randint(1, len(w.rules)))
        if rng.random() < .1:
            keys.append('undefined')
        kw = dict(all_keys=rng.random() < .1, reinstall=rng.random() < .3,
                  simulate=rng.random() < .2,
                  continue_on_error=rng.random() < .5,
                  fix_prerequisites=rng.random() < .3)
        what = rng.choice(['lookup', 'resolve', 'install', 'install',
                           'tool'])
        if what == 'tool':
            argv = flat + [rng.choice(['lookup', 'resolve', 'install'])
                           ] + keys
            if rng.random() < .2:
                argv = rng.choice([['nosuch'], flat + ['lookup'],
                                   flat + ['--help'], ['--version'],
                                   flat + ['lookup', '-h']])
            if rng.random() < .3:
                argv = flat + ['update']
            return 'tool', lambda: repr(cli(argv))
        if what == 'lookup':
            from xylem.lookup import lookup
            return what, lambda: lookup(keys[0], config=load_xylem(flat))
        if what == 'resolve':
            from xylem.resolve import resolve
            return what, lambda: repr(resolve(keys, config=load_xylem(flat)))
        from xylem.install import install
        return what, lambda: repr(install(keys, config=load_xylem(flat),
                                          **kw))

    def compaction(self):
        from c_rules import KNOWN_OS
        rng = self.rng
        d = fresh_dir('leftcompact')
        p = os.path.join(d, 'rules.yaml')
        rules = model.gen_rules(rng, model.Tags(), oss=list(KNOWN_OS),
                                versions=dict(KNOWN_OS))
        write(p, rng.choice([dump(rules)] * 4 + ['x: [', 'foo: 3\n']))
        argv = ['--xylem-dir', os.path.join(d, 'home'),
                '_compact_rules_file', p] + rng.choice([[], ['-w']])
        fault = None
        if rng.random() < .5:
            fault = faults.Fault(d, rng.choice(
                [faults.FAIL, faults.STICKY]), rng.randint(1, 6), 'ENOSPC')
        return 'compaction', lambda: repr(cli(argv)), fault

    def programs(self):
        from xylem import util
        rng = self.rng
        d = fresh_dir('leftprog')
        p = os.path.join(d, 'prog')
        write(p, rng.choice(['#!/bin/sh\necho out\necho err >&2\n',
                             '#!/bin/sh\nexit 3\n', '#!/nosuch\n',
                             '#!/bin/sh\nkill -9 $$\n', '']))
        if rng.random() < .9:
            os.chmod(p, 0o755)
        fn = rng.choice(['read_stdout', 'read_stdout_err',
                         'is_program_installed'])
        if rng.random() < .2:
            p = os.path.join(d, 'nosuch')
        if fn == 'is_program_installed':
            return fn, lambda: util.is_program_installed(p)
        return fn, lambda: getattr(util, fn)([p, 'x'])

    def system(self):
        from c_misc import System, seen_by_detectors
        s = System(self.rng)

        def fn():
            ctypes.CDLL(os.environ['XV_SHIM']).xvr_root(os.fsencode(s.root))
            try:
                from xylem.os_support import OSSupport
                return seen_by_detectors(), observe(
                    lambda: OSSupport().current_os)
            finally:
                ctypes.CDLL(os.environ['XV_SHIM']).xvr_root(b'')
        return 'OS detection on %s' % s.kind, fn

    def plugins(self):
        from xylem.installers import Installer, InstallerBase
        from xylem.plugin_utils import PluginBase, load_plugins
        rng = self.rng
        self.holder['serial'] = self.holder.get('serial', 0) + 1
        from xylem.os_support.impl import load_os_plugins
        from xylem.installers.impl import load_installer_plugins
        return rng.choice([('OS plugins', load_os_plugins),
                           ('installer plugins', load_installer_plugins)])

    def packages(self):
        """The built-in package managers, with scripted programs."""
        from c_installers import builtin
        rng = self.rng
        name = rng.choice(['pip', 'apt', 'homebrew', 'macports', 'fake'])
        inst = builtin(name)
        d = fresh_dir('leftbin')
        for n in ('pip', 'brew', 'port', 'apt-get', 'dpkg-query', 'dpkg',
                  'python', 'sudo'):
            if rng.random() < .7:
                p = write(os.path.join(d, n), rng.choice([
                    '#!/bin/sh\necho foo==1.0\n', '#!/bin/sh\nexit 2\n',
                    '#!/nosuch\n', '#!/bin/sh\necho "{}" >&2; exit 1\n',
                    '#!/bin/sh\necho "[]"\n']))
                os.chmod(p, 0o755)
        if name == 'fake':
            inst.options = {'install_dir': d}
        rs = inst.resolve({'packages': ['foo', 'bar']})
        method = rng.choice([
            lambda: inst.filter_uninstalled(rs),
            lambda: inst.is_installed(rs[0]),
            lambda: inst.get_install_commands(rs),
            lambda: inst.check_general_prerequisites(('osx', 'lion')),
            lambda: inst.check_install_prerequisites(rs, ('osx', 'lion'))])

        def fn():
            path = os.environ['PATH']
            os.environ['PATH'] = d
            try:
                return method()
            finally:
                os.environ['PATH'] = path
        return 'installer ' + name, fn


def p41(chk):
    from c_net import Server, Handler
    rng = chk.rng
    Stub = make_stub_class()
    holder = {'style': {n: 'each' for n in INST}, 'broken': {},
              'machine': None}

    def plugin(name):
        def init(self):
            Stub.__init__(self, holder['machine'], name, False,
                          holder['style'][name])
            self.broken = dict(holder['broken'].get(name, {}))
        return type(str('P41' + name), (Stub,), {'__init__': init})
    mod = types.ModuleType('xvp41')
    for n in INST:
        setattr(mod, n, dict(plugin_name=n, description='stub',
                             installer=plugin(n)))
    dist = add_dist('xvp41', {'xylem.installers': [
        (n, 'xvp41:' + n) for n in INST]}, {'xvp41': mod})
    server = Server(('127.0.0.1', 0), Handler)
    server.scripts = {}
    threading.Thread(target=server.serve_forever, daemon=True).start()
    shop = Workshop(chk, holder, server)
    kinds = ['download', 'download', 'update', 'update', 'read_cache',
             'configuration', 'queries', 'queries', 'queries', 'compaction',
             'programs', 'system', 'plugins', 'packages', 'packages']
    try:
        for i in chk.loop(330, 9000):
            kind = kinds[i % len(kinds)]
            holder['machine'] = holder['machine'] or Machine(INST)
            made = getattr(shop, kind)()
            what, fn = made[:2]
            fault = made[2] if len(made) > 2 else None
            r = faults.run(tried, fn, fault=fault)
            if not chk.check(r.status == 'ok', 'lost', '%s: %r' % (what, r)):
                continue
            ok, outcome, changes, unraisable, n = r.value
            for k in sorted(changes):
                chk.violate('left-' + k.replace(' ', '-'), '%s (%s) changes '
                            'the %s from %s to %s' % (
                                what, outcome, k, changes[k][0],
                                changes[k][1]))
            chk.check(not unraisable, 'left-unraisable', '%s: errors that '
                      'nobody can catch: %s' % (what, unraisable))
            chk.count('operations')
            chk.count('kind_' + kind)
            if not ok or 'exit 1' in outcome or (fault and r.injected):
                chk.count('failing')
            if fault and r.injected:
                chk.count('io_errors')
            chk.case((what, outcome), sample=(what, outcome),
                     nontrivial=not ok)
    finally:
        server.shutdown()
        remove_dist(dist, 'xvp41')
