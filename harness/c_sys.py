"""P45, P46: the whole tool, run again and again."""
import http.server
import importlib
import io
import os
import pickle
import re
import shutil
import sys
import threading
import types

import yaml

import faults
import model
from common import SCRATCH, fresh_dir, quiet, same_data, write
from plugdist import add_dist, remove_dist
from rules_common import cli
from stubs import Machine, STYLES, make_stub_class, plain

INST = ['insta', 'instb', 'instc']
KEYS = ['k%d' % i for i in range(7)]
OSV = {'ubuntu': ['precise', 'trusty'], 'debian': ['wheezy', 'jessie']}
HOLDER = {}


def register():
    """The stub installers as plugins of another distribution."""
    from xylem.installers import InstallerError
    Stub = make_stub_class()

    def plugin(name):
        def init(self):
            s = HOLDER['system']
            Stub.__init__(self, s.machine, name, name == 'instc',
                          s.styles[name])
            self.broken = {op: s.failure or InstallerError
                           for op in s.broken.get(name, ())}
        return type(str('Sys' + name), (Stub,), {'__init__': init})
    mod = types.ModuleType('xvsys')
    for n in INST:
        setattr(mod, n, dict(plugin_name=n, description='stub',
                             installer=plugin(n)))
    return add_dist('xvsys', {'xylem.installers': [
        (n, 'xvsys:' + n) for n in INST]}, {'xvsys': mod})


class Result(object):

    def __init__(self, status, out, err, exc, commands):
        self.status, self.out, self.err = status, out, err
        self.exc, self.commands = exc, commands

    def __repr__(self):
        return 'exit %r (%r), out %r, err %r, executed %r' % (
            self.status, self.exc, self.out[-700:], self.err[-700:],
            self.commands)


class Files(http.server.BaseHTTPRequestHandler):
    """Serves the files of the scratch directory."""

    def log_message(self, *a):
        pass

    def do_GET(self):
        try:
            if not self.path.startswith(SCRATCH):
                raise IOError
            with open(self.path, 'rb') as f:
                body = f.read()
        except IOError:
            self.send_response(404)
            self.end_headers()
            return
        self.send_response(200)
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)


SERVER = []


def web_server():
    """The address of a server process that ends with this one."""
    if not SERVER:
        os.environ['no_proxy'] = os.environ['NO_PROXY'] = '*'
        s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Files)
        s.daemon_threads = True
        r, w = os.pipe()
        if os.fork() == 0:
            os.close(w)
            threading.Thread(target=s.serve_forever, daemon=True).start()
            try:
                os.read(r, 1)
            finally:
                os._exit(0)
        os.close(r)
        s.socket.close()
        SERVER.append((s.server_port, w))
    return 'http://127.0.0.1:%d' % SERVER[0][0]


class System(object):
    """A configuration directory, rules and a machine."""

    def __init__(self, styles, broken, web=()):
        self.web = web          # numbers of rules that are downloaded
        self.root = fresh_dir('system')
        self.dir = os.path.join(self.root, 'etc')
        self.rules = os.path.join(self.root, 'rules')
        self.sources = os.path.join(self.dir, 'sources.d')
        for d in (self.dir, self.rules, self.sources):
            os.makedirs(d)
        self.machine = Machine(INST)
        self.styles, self.broken = styles, broken
        self.failure = None

    def remove(self):
        shutil.rmtree(self.root, True)
        shutil.rmtree(self.machine.base, True)

    def url(self, n):
        return '%s%s/r%d.yaml' % (
            web_server() if n in self.web else 'file://', self.rules, n)

    def put_rules(self, n, rules):
        """``rules`` may be text, or None for a missing file."""
        path = os.path.join(self.rules, 'r%d.yaml' % n)
        if rules is None:
            if os.path.exists(path):
                os.remove(path)
            return
        write(path, rules if isinstance(rules, str) else
              yaml.safe_dump(rules, default_flow_style=False))

    def put_sources(self, files):
        for f in os.listdir(self.sources):
            os.remove(os.path.join(self.sources, f))
        for f, ns in files.items():
            write(os.path.join(self.sources, f), yaml.safe_dump(
                [{'rules': self.url(n)} for n in ns]))

    def put_config(self, config):
        path = os.path.join(self.dir, 'config.yaml')
        if config is None:
            if os.path.exists(path):
                os.remove(path)
            return
        write(path, yaml.safe_dump(config))

    def put_machine(self, done, marks):
        base = self.machine.base
        for d in ('done', 'fail', 'lie'):
            for f in os.listdir(os.path.join(base, d)):
                os.remove(os.path.join(base, d, f))
        for f in done:
            write(os.path.join(base, 'done', f), '')
        for (what, package), text in marks.items():
            self.machine.mark(what, package, text)

    def done(self):
        return sorted(os.listdir(os.path.join(self.machine.base, 'done')))

    def child(self, argv, env, fault=None, program=None):
        return faults.Child(self._run, (argv, env, program), fault)

    def _run(self, argv, env, program=None):
        HOLDER['system'] = self
        os.environ.update(env)
        for k in [k for k in os.environ if k.startswith('XYLEM_')]:
            if k not in env:
                del os.environ[k]
        if env.get('XYLEM_DIR', '/') == '.':
            os.chdir(self.dir)
        sys.stdin = io.StringIO('')
        if program:
            main = importlib.import_module('xylem.commands.' + program).main
            r = cli(['xylem-' + program] + argv, main)
        else:
            sys.argv = ['xylem']
            r = cli(argv)
        return (r.status, r.out, r.err, r.exc and repr(r.exc))

    def place(self, rng):
        """A random way to tell the tool its directory."""
        r = rng.random()
        if r < .5:
            return ['--xylem-dir', self.dir], {}
        if r < .8:
            return [], {'XYLEM_DIR': self.dir}
        return [], {'XYLEM_DIR': '.'}

    def tool(self, argv, where, env={}, program=None):
        """Run the tool, or a program, in a process of its own."""
        before = len(self.machine.executed())
        opts, e = where
        r = self.child(opts + argv, dict(env, **e), program=program).wait()
        if r.status != 'ok':
            return Result(r.status, r.out, r.err, r.error, [])
        cmds = [[os.path.basename(c[0])] + c[1:]
                for c in self.machine.executed()[before:]]
        status, out, err, exc = r.value
        return Result(status, out, err, exc, cmds)

    def clean(self, text):
        """Without colors and what differs between copies."""
        text = plain(text).replace(self.root, 'ROOT').replace(
            self.machine.base, 'MACHINE')
        return addresses(re.sub('[0-9a-f]{40}', 'HASH', text))

    def cached(self):
        """What is cached of each source: rules, or None."""
        from xylem.config import ensure_config
        from xylem.sources import RulesDatabase, SourcesContext
        config = ensure_config(dict(
            sources_dir=self.sources,
            cache_dir=os.path.join(self.dir, 'cache')))
        res = []
        for s in quiet(RulesDatabase, SourcesContext(config)).value.sources:
            o = quiet(s.load_from_cache)
            res.append(s.data if o.ok else None)
        return res


class World(object):
    """Random data, and what must be cached."""

    def __init__(self, rng):
        self.rng = rng
        styles = {n: rng.choice(STYLES) for n in INST}
        broken = {}
        if rng.random() < .2:
            broken[rng.choice(INST)] = [rng.choice(
                ['filter', 'verify', 'compose', 'general', 'install'])]
        web = rng.choice([(), (), (0, 1), (0, 1, 2, 3)])
        self.system = System(styles, broken, web)
        self.version = 0
        self.now = {}           # number -> rules or broken text or None
        self.kept = {}          # number -> rules as of the last update
        self.files = {}
        self.config = None
        self.marks = {}
        for n in range(rng.randint(1, 4)):
            self.new_rules(n)
        self.new_sources()
        self.new_config()

    def gen(self):
        rng = self.rng
        self.version += 1
        rules = {}
        for k in rng.sample(KEYS, rng.randint(1, 5)):
            entry = {}
            for i in sorted(set(rng.sample(INST + INST[:2] + ['other'],
                                    rng.randint(1, 4)))):
                rule = {'packages': [
                    '%s-%s-%d%s' % (k, i, rng.choice([0, self.version]), x)
                    for x in ('', 'b', 'c')[:rng.randint(1, 3)]]}
                if rng.random() < .25:
                    rule['depends'] = rng.sample(
                        sorted(rules) or KEYS, 1) if rng.random() < .8 \
                        else [rng.choice(KEYS)]
                entry[i] = rule
            rules[k] = {}
            for os_ in rng.choice([['any_os']] * 3 + [['ubuntu']] * 2 + [
                    ['debian'], ['any_os', 'ubuntu'], ['debian', 'ubuntu']]):
                v = 'any_version' if os_ == 'any_os' or rng.random() < .6 \
                    else rng.choice(OSV[os_])
                rules[k][os_] = {v: {
                    i: dict(r, packages=[p + os_[:2] for p in r['packages']])
                    for i, r in entry.items()}}
        return rules

    def new_rules(self, n):
        rng = self.rng
        self.now[n] = self.gen() if rng.random() < .92 else rng.choice(
            [None, '[1, 2', '- 1\n', 'k1: 3\n', 'a b: {any_os: {x: [y]}}\n'])
        self.system.put_rules(n, self.now[n])

    def new_sources(self):
        rng = self.rng
        ns = sorted(self.now)
        rng.shuffle(ns)
        ns = ns[:rng.randint(1, len(ns))]
        k = rng.randint(0, len(ns))
        self.files = {f: x for f, x in (('10.yaml', ns[:k]),
                                        ('20.yaml', ns[k:])) if x}
        self.system.put_sources(self.files)

    def current(self):
        return [n for f in sorted(self.files) for n in self.files[f]]

    def new_config(self):
        rng = self.rng
        n = rng.choice([1, 2, 2, 3, 3])
        c = {'os_override': rng.choice([
            'ubuntu:trusty', 'ubuntu:trusty', 'ubuntu:precise',
            'debian:wheezy', 'debian:jessie']),
            'core_installers': rng.sample(INST, n)}
        if rng.random() < .3:
            c['use_additional_installers'] = rng.random() < .5
        if rng.random() < .4:
            c['install_from'] = {rng.choice(INST): rng.sample(KEYS, 2)}
        if rng.random() < .15:
            c['disabled_plugins'] = {'installer': [rng.choice(INST)]}
        if rng.random() < .3:
            c['installer_options'] = {'insta': {'stub_option':
                                                rng.randint(0, 3)}}
        self.config = c
        self.system.put_config(c)

    def new_marks(self):
        rng = self.rng
        often = rng.random() < .6
        packages = sorted({
            p for r in list(self.kept.values()) + list(self.now.values())
            if isinstance(r, dict) for e in r.values() for o in e.values()
            for v in o.values() for i in v.values() for p in i['packages']})
        self.marks = {}
        for p in packages:
            if often:
                continue
            if rng.random() < .07:
                self.marks['fail', p] = '3'
            elif rng.random() < .05:
                self.marks['lie', p] = ''
        done = self.system.done()
        for p in packages:
            if rng.random() < .06:
                done.append('%s %%%s' % (rng.choice(INST), p))
        self.system.put_machine([d for d in done if rng.random() < .7],
                                self.marks)

    def good(self, n):
        return isinstance(self.now[n], dict)

    def updated(self):
        for n in self.current():
            if self.good(n):
                self.kept[n] = self.now[n]

    def query(self):
        """Arguments of a random request."""
        rng = self.rng
        known = sorted({k for n in self.current()
                        for k in self.kept.get(n) or ()})
        if not known or rng.random() < .25:
            known = KEYS
        keys = rng.sample(known, min(rng.choice([1, 1, 2, 4]), len(known)))
        if rng.random() < .05:
            keys.append('undefined')
        op = rng.choice(['lookup', 'resolve', 'resolve', 'install',
                         'install', 'install'])
        argv = [op] + keys
        if op != 'lookup' and rng.random() < .2:
            argv.append('--all')
        if op == 'resolve' and rng.random() < .3:
            argv.append('--show-default-installer')
        if op == 'install':
            for flag, p in (('--reinstall', .25), ('--dry-run', .25),
                            ('--continue-on-error', .4),
                            ('--fix-prerequisites', .3)):
                if rng.random() < p:
                    argv.append(flag)
        # options on top of the configuration file
        if rng.random() < .2:
            argv += rng.choice([
                ['--os', 'debian:wheezy'], ['--os', 'ubuntu:precise'],
                ['--core-installers', 'instb,insta'],
                ['--use-additional-installers', 'yes'],
                ['--install-from', '%s: [k1, k2]' % rng.choice(INST)]])
        return argv

    def replica(self):
        """A new system in the same state, without the history."""
        s = System(self.system.styles, self.system.broken, self.system.web)
        for n in self.current():
            s.put_rules(n, self.kept.get(n))
        s.put_sources(self.files)
        s.put_config(self.config)
        s.put_machine(self.system.done(), self.marks)
        return s

    def close(self):
        self.system.remove()


# --- P46 --------------------------------------------------------------

def p46(chk):
    d = register()
    try:
        for i in chk.loop(14, 500):
            w = World(chk.rng)
            try:
                history(chk, chk.rng, w)
            finally:
                w.close()
    finally:
        remove_dist(d, 'xvsys')


def history(chk, rng, w):
    s = w.system
    said = []
    for step in range(rng.randint(12, 22)):
        op = rng.choice(['rules', 'rules', 'sources', 'config', 'machine',
                         'update', 'update', 'update', 'dry', 'killed',
                         'twice', 'query', 'query', 'query', 'query',
                         'query', 'query', 'again', 'again', 'removed'])
        if step == 0 or op == 'removed' and rng.random() < .8:
            op = 'update'
        said.append(op)
        wit = dict(history=said[-10:], sources=w.files, config=w.config,
                   kept=w.kept, current=w.now, marks=w.marks)
        chk.count('op_' + op)
        if op == 'rules':
            w.new_rules(rng.randint(0, 3))
        elif op == 'sources':
            w.new_sources()
        elif op == 'config':
            w.new_config()
        elif op == 'machine':
            w.new_marks()
        elif op == 'removed':
            shutil.rmtree(os.path.join(s.dir, 'cache'), True)
            w.kept.clear()
        elif op in ('update', 'dry'):
            argv = ['update'] + (['--dry-run'] if op == 'dry' else [])
            r = s.tool(argv, s.place(rng))
            chk.check(r.status == 0 and r.exc is None, 'update', '%r: %r' % (
                argv, r), **wit)
            for n in w.current():
                if not w.good(n):
                    chk.check(s.url(n) in plain(r.err), 'update', 'failing '
                              'source %d is not reported: %r' % (n, r),
                              **wit)
                    chk.count('failed_sources')
            if op == 'update':
                w.updated()
            chk.equal(r.commands, [], 'update', 'commands of ' + op)
            cached(chk, w, op, wit)
        elif op == 'killed':
            f = faults.Fault(s.dir, faults.KILL, rng.randint(1, 25))
            opts, env = ['--xylem-dir', s.dir], {}
            r = s.child(opts + ['update'], env, f).wait()
            chk.check(r.status in ('killed', 'ok'), 'update', 'killed '
                      'update: %r' % r, **wit)
            chk.count('kills', r.status == 'killed')
            # every source is as before or as it would be
            got = s.cached()
            for n, data in zip(w.current(), got):
                old = w.kept.get(n)
                new = w.now[n] if w.good(n) else old
                if data is not None and data == new:
                    w.kept[n] = new
                else:
                    chk.check(data == old, 'killed', 'source %d after a '
                              'killed update: %r, before: %r, new: %r' % (
                                  n, data, old, new), **wit)
        elif op == 'twice':
            opts = ['--xylem-dir', s.dir]
            children = [s.child(opts + ['update'], {}) for _ in 'ab']
            for c in children:
                r = c.wait()
                chk.check(r.status == 'ok' and r.value[0] == 0, 'update',
                          'concurrent update: %r' % r, **wit)
            w.updated()
            cached(chk, w, op, wit)
        else:
            argv = w.query()
            if op == 'again':
                # what was just installed is installed
                argv = [a for a in argv if a not in (
                    '--dry-run', '--reinstall', '--continue-on-error')]
                argv[0] = 'install'
                if '--show-default-installer' in argv:
                    argv.remove('--show-default-installer')
            compare(chk, rng, w, argv, said, wit)
            if op == 'again' and not w.marks:
                r = s.tool(argv, s.place(rng))
                if r.status == 0 and r.exc is None:
                    r2 = s.tool(argv, s.place(rng))
                    real = [c for c in r2.commands
                            if any(a.startswith('k') for a in c[1:])]
                    chk.check(r2.status == 0 and not real, 'again',
                              '%r after succeeding: %r' % (argv, r2), **wit)
                    chk.count('again')


def cached(chk, w, op, wit):
    got = w.system.cached()
    want = [w.kept.get(n) for n in w.current()]
    chk.check(same_data(got, want), 'cached', 'cached after %s: %r, '
              'expected %r' % (op, got, want), **wit)
    chk.count('cache_states')


def compare(chk, rng, w, argv, said, wit):
    """The same request on a system without the history."""
    s, other = w.system, w.replica()
    try:
        u = other.tool(['update'], other.place(rng))
        chk.check(u.status == 0, 'update', 'update of a new system: %r' % u,
                  **wit)
        b = other.tool(argv, other.place(rng))
        a = s.tool(argv, s.place(rng))
        for what, x, y in (
                ('status', a.status, b.status),
                ('exception', bool(a.exc), bool(b.exc)),
                ('commands', a.commands, b.commands),
                ('output', s.clean(a.out), other.clean(b.out)),
                ('errors', s.clean(a.err), other.clean(b.err)),
                ('installed', s.done(), other.done())):
            chk.check(same_data(x, y), what, '%s of %r depends on what '
                      'happened before (%s): %r; without: %r' % (
                          what, argv, ', '.join(said[:-1]), x, y), **wit)
        chk.check(a.exc is None or 'Error' in a.exc, 'status',
                  '%r: %r' % (argv, a), **wit)
        chk.count('compared')
        chk.count('compared_' + argv[0])
        chk.count('statuses_%s' % (a.status,))
        if a.commands:
            chk.count('executing')
        missing = any(n not in w.kept for n in w.current())
        if missing:
            chk.count('without_data')
            chk.check(a.status == 1 and not a.commands, 'status', '%r '
                      'without data of all sources: %r' % (argv, a), **wit)
        chk.case((argv, w.files, w.version, len(said)), sample=argv,
                 nontrivial=not missing)
    finally:
        other.remove()


# --- P45 --------------------------------------------------------------

def p45(chk):
    d = register()
    try:
        for i in chk.loop(16, 600):
            w = World(chk.rng)
            try:
                diagnosed(chk, chk.rng, w)
            finally:
                w.close()
    finally:
        remove_dist(d, 'xvsys')


def variant(rng):
    """(options, environment, debugging, colorless, verbose)"""
    opts, env = [], {}
    debug = color = verbose = False
    while not (debug or color or verbose):
        if rng.random() < .5:
            opts.append(rng.choice(['-v', '--verbose']))
            verbose = True
        if rng.random() < .4:
            debug = True
            r = rng.random()
            if r < .6:
                opts.append(rng.choice(['-d', '--debug']))
            if r > .4:
                env['XYLEM_DEBUG'] = rng.choice(['1', '', '0'])
        if rng.random() < .35:
            color = True
            opts.append('--no-color')
    rng.shuffle(opts)
    return opts, env, debug, color, verbose


def addresses(text):
    return re.sub('0x[0-9a-f]+', 'ADDRESS', text)


def lines(text):
    return [x.rstrip() for x in addresses(plain(text)).split('\n')
            if x.strip()]


def within(part, whole):
    """Whether the lines occur in this order."""
    it = iter(whole)
    for p in part:
        for x in it:
            if x == p:
                break
        else:
            return p
    return None


def diagnosed(chk, rng, w):
    s = w.system
    for step in range(rng.randint(8, 14)):
        if rng.random() < .3:
            w.new_rules(rng.randint(0, 3))
        if rng.random() < .15:
            w.new_sources()
        if rng.random() < .2:
            w.new_config()
        if rng.random() < .3:
            w.new_marks()
        if step == 0 or rng.random() < .25:
            argv = ['update'] + (['-n'] if rng.random() < .2 else [])
        elif rng.random() < .12:
            argv = rng.choice([
                ['lookup', 'k1', '--os', 'nosuch:1'], ['lookup'],
                ['resolve', 'k1', '--os', 'ubuntu:nosuch'],
                ['install', '--nosuch', 'k1'], ['nosuchcommand'],
                ['resolve', 'k1', '--core-installers', '[1]']])
        else:
            argv = w.query()
        opts, env, debug, color, verbose = variant(rng)
        cut = rng.randint(0, len(opts))
        done = s.done()
        saved = os.path.join(s.root, 'saved')
        cache = os.path.join(s.dir, 'cache')
        if os.path.isdir(cache):
            shutil.copytree(cache, saved)
        where = s.place(rng)
        a = s.tool(argv, where)
        states = [(s.done(), s.cached())]
        # and once more from the same state
        shutil.rmtree(cache, True)
        if os.path.isdir(saved):
            os.rename(saved, cache)
        s.put_machine(done, w.marks)
        b = s.tool(opts[:cut] + argv + opts[cut:], where, env)
        states.append((s.done(), s.cached()))
        what = '%r with %r' % (argv, [opts[:cut], opts[cut:], env])
        wit = dict(config=w.config, sources=w.files, rules=w.now)
        for name, x, y in (('status', a.status, b.status),
                           ('exception', a.exc, b.exc),
                           ('commands', a.commands, b.commands),
                           ('installed', states[0][0], states[1][0]),
                           ('cache', states[0][1], states[1][1])):
            chk.check(same_data(x, y), name, '%s of %s: %r, without: %r; '
                      'errors %r, without: %r' % (
                          name, what, y, x, b.err[-800:], a.err[-800:]),
                      **wit)
        if color:
            chk.check('\x1b' not in b.out + b.err, 'color', 'escape '
                      'sequences of %s: %r' % (what, b), **wit)
            chk.count('colorless')
            if not verbose and not debug:
                chk.check(addresses(plain(a.out)) == addresses(b.out) and
                          addresses(plain(a.err)) == addresses(b.err),
                          'color', 'text of %s: %r, without: %r' % (
                              what, b, a), **wit)
        lost = within(lines(a.out), lines(b.out))
        chk.check(lost is None, 'output', '%s loses %r: %r, without: %r' % (
            what, lost, b.out, a.out), **wit)
        if not debug or 'Traceback' not in b.err:
            lost = within(lines(a.err), lines(b.err))
            chk.check(lost is None, 'errors', '%s loses %r: %r, without: %r'
                      % (what, lost, b.err, a.err), **wit)
        else:
            # the message is part of the traceback
            text = ' '.join(lines(b.err))
            for x in lines(a.err):
                if x.strip().startswith('---'):
                    continue
                x = re.sub('^[^ ]*Error: |^\\[|\\]$', '', x.strip())
                chk.check(x in text, 'errors', '%s loses %r: %r' % (
                    what, x, b.err), **wit)
            chk.check(a.status != 0, 'errors', 'traceback of %s: %r' % (
                what, b), **wit)
            chk.count('tracebacks')
        chk.check('Traceback' not in a.err + a.out, 'errors',
                  'traceback of %r: %r' % (argv, a), **wit)
        chk.count('runs')
        chk.count('runs_' + argv[0])
        chk.count('failing', a.status != 0)
        chk.count('executing', bool(a.commands))
        for k, v in (('verbose', verbose), ('debug', debug)):
            chk.count(k, v)
        if len(lines(b.out + b.err)) > len(lines(a.out + a.err)):
            chk.count('saying_more')
        if a.status == 0 and argv == ['update']:
            w.updated()
        chk.case((argv, opts, cut, sorted(env), w.files, w.version),
                 sample=what, nontrivial=a.status == 0)


# --- P48 --------------------------------------------------------------

def p48(chk):
    d = register()
    try:
        for i in chk.loop(16, 600):
            w = World(chk.rng)
            try:
                programs(chk, chk.rng, w)
            finally:
                w.close()
    finally:
        remove_dist(d, 'xvsys')


def request(rng, w, step):
    """Arguments of a request, possibly wrong ones."""
    r = rng.random()
    if step == 0 or r < .25:
        argv = ['update'] + (['-n'] if rng.random() < .2 else [])
    elif r < .4:
        cmd = rng.choice(['update', 'lookup', 'resolve', 'install',
                          '_compact_rules_file'])
        argv = [cmd] + rng.choice([
            [], ['--nosuch'], ['k1', '--os', 'nosuch:1'], ['-h'],
            ['k1', '--os', 'ubuntu:nosuch'], ['--version'],
            ['k1', '--core-installers', '[1]'], ['--os', 'x:y:[', 'k1'],
            ['--print-config'], ['--print-config', 'k1'], ['--prefix'],
            ['k1', '--prefix', '/x'], ['--all', '--all'], ['-n', 'k1']])
    elif r < .5:
        argv = ['_compact_rules_file', os.path.join(
            w.system.rules, 'r%d.yaml' % rng.randint(0, 4))]
        if rng.random() < .4:
            argv.append('-w')
    else:
        argv = w.query()
    if rng.random() < .3:
        argv = argv + rng.choice([['-d'], ['-v'], ['--no-color'],
                                  ['-v', '-d'], ['-d', '--no-color']])
    return argv


def programs(chk, rng, w):
    """Commands as programs of their own, and as subcommands."""
    s = w.system
    if rng.random() < .4:
        s.broken.setdefault(rng.choice(INST), [rng.choice(
            ['filter', 'verify', 'compose', 'install'])])
        s.failure = rng.choice([None, KeyboardInterrupt, EOFError, OSError,
                                RuntimeError])
    for step in range(rng.randint(8, 14)):
        if rng.random() < .3:
            w.new_rules(rng.randint(0, 3))
        if rng.random() < .15:
            w.new_sources()
        if rng.random() < .2:
            w.new_config()
        if rng.random() < .3:
            w.new_marks()
        bad = None
        if rng.random() < .12:
            # broken files
            bad = rng.choice(['config.yaml', 'sources.d/15.yaml',
                              'sources.d/05.yaml'])
            write(os.path.join(s.dir, bad), rng.choice(
                ['x: [1', '- [', '\xff', b'\xff\xfe\xff', '3', '- 1\n',
                 'core_installers: 3', 'unknown: 1', '- nosuch: 1\n',
                 'os_override: [1]']))
        argv = request(rng, w, step)
        if rng.random() < .25:
            short = [shortened(rng, x) for x in argv]
            chk.count('shortened', short != argv)
            argv = short
        where = s.place(rng)
        done = s.done()
        saved = os.path.join(s.root, 'saved')
        kept = ('etc', 'rules')
        for k in kept:
            shutil.copytree(os.path.join(s.root, k),
                            os.path.join(saved, k))
        a = s.tool(argv, where)
        states = [(s.done(), tree(s.dir, s.rules))]
        # and once more from the same state
        for k in kept:
            shutil.rmtree(os.path.join(s.root, k))
            os.rename(os.path.join(saved, k), os.path.join(s.root, k))
        s.put_machine(done, w.marks)
        b = s.tool(argv[1:], where, program=argv[0])
        states.append((s.done(), tree(s.dir, s.rules)))
        wit = dict(config=w.config, sources=w.files, rules=w.now, bad=bad)
        for name, x, y in (('status', a.status, b.status),
                           ('exception', a.exc and addresses(a.exc),
                            b.exc and addresses(b.exc)),
                           ('commands', a.commands, b.commands),
                           ('output', words(s, argv, a.out),
                            words(s, argv, b.out)),
                           ('errors', words(s, argv, a.err),
                            words(s, argv, b.err)),
                           ('installed', states[0][0], states[1][0]),
                           ('files', states[0][1], states[1][1])):
            chk.check(same_data(x, y), name, '%s of the program %r: %r, as '
                      'subcommand: %r' % (name, argv, y, x), **wit)
        chk.count('runs')
        chk.count('runs_' + argv[0])
        chk.count('statuses_%s' % (a.status,))
        chk.count('executing', bool(a.commands))
        chk.count('broken_files', bad is not None)
        if a.status == 0 and argv[:1] == ['update']:
            w.updated()
        chk.case((argv, w.files, w.version, bad, step), sample=argv,
                 nontrivial=a.status == 0)
        if bad == 'config.yaml':
            w.new_config()
        elif bad:
            os.remove(os.path.join(s.dir, bad))


def shortened(rng, word):
    """An option with only the beginning of its name."""
    name, eq, value = word.partition('=')
    if name.startswith('--') and len(name) > 5 and ' ' not in name:
        name = name[:rng.randint(max(4, len(name) - 4), len(name) - 1)]
    return name + eq + value


def tree(*dirs):
    """Files and their contents; of cached data only the rules."""
    res = {}
    for d in dirs:
        for base, _, files in os.walk(d):
            for f in files:
                p = os.path.join(base, f)
                with open(p, 'rb') as h:
                    data = h.read()
                if os.sep + 'cache' + os.sep in p:
                    try:
                        data = pickle.loads(data)
                        data.pop('time_data_loaded', None)
                    except Exception:
                        pass
                res[os.path.relpath(p, d)] = data
    return res


def words(s, argv, text):
    text = s.clean(text)
    if 'Traceback' in text:
        text = re.sub('(?m)^ .*\n', '', text)
    if text.startswith('usage: ') and ' error: ' in text:
        # the usage of the tool or of the command
        text = text[text.rindex(' error: '):]
    return text.replace('xylem ' + argv[0], 'xylem-' + argv[0]).split()
