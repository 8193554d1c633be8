"""P37 - P41: helper programs, help, OS detection, interruptions, leftovers."""
import ctypes
import os
import re
import sys
from unittest import mock

import faults
from common import fresh_dir, observe, quiet, write
from rules_common import Env, cli
from stubs import plain

# --- P39 --------------------------------------------------------------

OSX_NAMES = ['tiger', 'leopard', 'snow', 'lion', 'mountain lion',
             'mavericks', 'yosemite']


def script(path, body):
    write(path, '#!/bin/sh\n' + body)
    os.chmod(path, 0o755)


def uname(path, name, release):
    script(path, 'case "$1" in -r) echo "%s";; -m) echo x86_64;; '
           '*) echo "%s";; esac\n' % (release, name))


class System(object):
    """A directory with the files that tell which OS this is."""

    KINDS = ['debian', 'ubuntu', 'xubuntu', 'mint', 'fedora', 'rhel',
             'opensuse', 'gentoo', 'arch', 'osx', 'freebsd', 'qnx', 'cygwin',
             'other', 'nothing']

    def __init__(self, rng):
        self.rng = rng
        self.root = fresh_dir('sysroot')
        self.kind = rng.choice(self.KINDS + ['debian', 'ubuntu', 'ubuntu',
                                             'xubuntu', 'osx', 'osx'])
        self.version = self.codename = ''
        self.name = self.kind       # as the detectors are called
        self.uncertain = False
        self.at('etc', directory=True)
        getattr(self, 'make_' + {
            'ubuntu': 'debian', 'xubuntu': 'debian', 'mint': 'debian'}.get(
                self.kind, self.kind))()

    def at(self, *parts, **kw):
        p = os.path.join(self.root, *parts)
        os.makedirs(p if kw else os.path.dirname(p), exist_ok=True)
        return p

    def linux(self):
        release = '%d.%d.0-x' % (self.rng.randint(2, 6),
                                 self.rng.randint(0, 40))
        for p in ('bin', 'usr/bin', 'path'):
            if p == 'path' or self.rng.random() < .9:
                uname(self.at(p, 'uname'), 'Linux', release)

    def number(self):
        rng = self.rng
        return rng.choice(['%d.%02d' % (rng.randint(4, 26),
                                        rng.choice([4, 10])),
                           str(rng.randint(1, 40)),
                           '%d.%d' % (rng.randint(1, 20), rng.randint(0, 9))])

    def word(self):
        return ''.join(self.rng.choice('abcdefghijklmnopqrstuvwxyz')
                       for _ in range(self.rng.randint(3, 9)))

    def os_release(self, id_, version, codename, place=None):
        rng = self.rng

        def assign(key, value):
            forms = ['%s="%s"', '%s="%s"', "%s='%s'"]
            if value and all(c.isalnum() or c in '.-' for c in value):
                forms.append('%s=%s')
            return rng.choice(forms) % (key, value)
        lines = [assign('ID', id_)]
        if version is not None:
            lines.append(assign('VERSION_ID', version))
        if codename is not None:
            lines.append(assign('VERSION_CODENAME', codename))
        extra = [assign('NAME', 'Name of OS'),
                 assign('PRETTY_NAME', 'Name 1.0 (Some Name)'),
                 assign('VERSION', '9.9 (Other)'),
                 assign('ID_LIKE', rng.choice(['debian', 'ubuntu debian',
                                               'fedora'])),
                 assign('UBUNTU_CODENAME', 'othername'),
                 assign('VARIANT_ID', 'server'),
                 assign('HOME_URL', 'http://www.x.org/?a=b'),
                 '# ID=commented', '#VERSION_ID=0', '', '  ',
                 'BUG_REPORT_URL="http://bugs/#x"']
        lines += rng.sample(extra, rng.randint(0, len(extra)))
        rng.shuffle(lines)
        text = '\n'.join(lines) + rng.choice(['\n', '\n', '', '\n\n'])
        if rng.random() < .2:
            text = text.replace('Name of', 'N\u00e4me \u2713 of')
        if place is None:
            place = rng.choice(['etc', 'etc', 'usr/lib'])
            if place == 'etc' and rng.random() < .3:
                write(self.at('usr/lib/os-release'),
                      'ID=misleading\nVERSION_ID=0\nVERSION_CODENAME=no\n')
        write(self.at(place, 'os-release'), text)

    def make_debian(self):
        rng = self.rng
        self.linux()
        self.version = self.number()
        self.codename = rng.choice([
            'wheezy', 'jessie', 'bookworm', 'trusty', 'precise', 'noble',
            self.word()])
        self.os_release({'mint': 'linuxmint'}.get(self.kind, self.kind),
                        self.version, self.codename)
        if rng.random() < .5:
            write(self.at('etc/issue'), 'Ubuntu 3.1 \\n \\l\n\n')
        if rng.random() < .5:
            write(self.at('etc/debian_version'), 'stretch/sid\n')

    def make_fedora(self):
        rng = self.rng
        self.linux()
        self.version = str(rng.randint(4, 42))
        code = rng.choice(['Heisenbug', 'Lovelock', 'Twenty', 'Rawhide',
                           self.word().capitalize()])
        self.codename = code.lower()
        line = 'Fedora%s release %s (%s)\n' % (
            rng.choice(['', '', ' Core', ' Linux', ' Workstation Edition']),
            self.version, code)
        write(self.at('etc/redhat-release'), line)
        write(self.at('etc/issue'), line + 'Kernel \\r on an \\m (\\l)\n\n')
        if rng.random() < .5:
            self.os_release('fedora', self.version, None)

    def make_rhel(self):
        rng = self.rng
        self.linux()
        self.version = '%d.%d' % (rng.randint(4, 9), rng.randint(0, 11))
        code = rng.choice(['Santiago', 'Tikanga', 'Maipo', 'Ootpa'])
        self.codename = code.lower()
        line = 'Red Hat Enterprise Linux%s release %s (%s)\n' % (
            rng.choice([' Server', '', ' Workstation', ' Client']),
            self.version, code)
        write(self.at('etc/redhat-release'), line)
        if rng.random() < .5:
            write(self.at('etc/issue'), line)
        if rng.random() < .5:
            self.os_release('rhel', self.version, None)

    def make_opensuse(self):
        rng = self.rng
        self.linux()
        self.version = '%d.%d' % (rng.randint(10, 15), rng.randint(0, 4))
        self.codename = rng.choice(['Bottle', 'Harlequin', 'Dartmouth'])
        write(self.at('etc/SuSE-brand'), 'openSUSE\nVERSION = %s%s' % (
            self.version, rng.choice(['\n', ''])))
        write(self.at('etc/SuSE-release'), 'openSUSE %s (x86_64)\n'
              'VERSION = %s\nCODENAME = %s\n' % (
                  self.version, self.version, self.codename))
        if rng.random() < .5:
            self.os_release('opensuse', self.version, None)

    def make_gentoo(self):
        self.linux()
        self.version = '%d.%d' % (self.rng.randint(1, 2),
                                  self.rng.randint(0, 12))
        write(self.at('etc/gentoo-release'),
              'Gentoo Base System release %s\n' % self.version)

    def make_arch(self):
        self.linux()
        write(self.at('etc/arch-release'), self.rng.choice(
            ['', 'Arch Linux release\n']))
        if self.rng.random() < .5:
            self.os_release('arch', None, None)

    def make_osx(self):
        rng = self.rng
        minor = rng.choice([4, 5, 6, 7, 8, 9, 10, 10, 3, 11, 15])
        major = rng.choice([10] * 6 + [11, 9])
        self.version = '%d.%d' % (major, minor)
        if rng.random() < .7:
            self.version += '.%d' % rng.randint(0, 11)
        if rng.random() < .1:
            self.version = rng.choice(['', '10', 'x', '10.x', '10.10.10.10'])
            self.codename = None
        elif major != 10 or not 4 <= minor <= 10:
            self.codename = None
        else:
            self.codename = OSX_NAMES[minor - 4]
        script(self.at('usr/bin/sw_vers'),
               'if [ "$1" = -productVersion ]; then echo "%s"\n'
               'else echo "ProductName: Mac OS X"\n'
               'echo "ProductVersion: %s"; fi\n' % (self.version,
                                                    self.version))
        uname(self.at('usr/bin/uname'), 'Darwin', '13.0.0')
        uname(self.at('path/uname'), 'Darwin', '13.0.0')

    def make_freebsd(self):
        self.version = '%d.%d-RELEASE' % (self.rng.randint(7, 14),
                                          self.rng.randint(0, 4))
        uname(self.at('usr/bin/uname'), 'FreeBSD', self.version)

    def make_qnx(self):
        self.version = '6.%d.0' % self.rng.randint(0, 6)
        uname(self.at('bin/uname'), 'QNX', self.version)

    def make_cygwin(self):
        self.version = '1.7.%d(0.261/5/3)' % self.rng.randint(1, 20)
        write(self.at('usr/bin/cygwin1.dll'), 'MZ')
        for p in ('usr/bin', 'bin', 'path'):
            uname(self.at(p, 'uname'), 'CYGWIN_NT-6.1', self.version)

    def make_other(self):
        rng = self.rng
        self.linux()
        self.name = None
        what = rng.randrange(6)
        if what < 3:
            self.os_release(rng.choice(['alpine', 'centos', 'ubuntu2',
                                        'deb', 'nixos', 'debian-like']),
                            self.number(), self.word())
        if what == 2:
            write(self.at('etc/redhat-release'),
                  'CentOS release 6.5 (Final)\n')
        if what == 5:
            write(self.at('etc/redhat-release'),
                  'Red Hat Linux release 9 (Shrike)\n')
            uname(self.at('usr/bin/uname'), rng.choice(
                ['FreeBSDish', 'GNU/kFreeBSD', 'NotFreeBSD']), '9')
            uname(self.at('bin/uname'), rng.choice(['QNX4', 'AQNX']), '4')
        if what == 3:
            write(self.at('etc/SuSE-brand'), 'SLES\nVERSION = 12\n')
            write(self.at('etc/gentoo-release'), 'Funtoo Linux\n')
        if what == 4:
            # nothing of it can be used
            with open(self.at('etc/os-release'), 'wb') as f:
                f.write(rng.choice([b'', b'ID\n', b'ID="x\n', b"'\n",
                                    b'ID=\xff\xfe\n', b'=\n', b'\0\n',
                                    b'VERSION_ID=4\n', b'ID=\n']))

    def make_nothing(self):
        self.name = None
        self.linux()


def seen_by_detectors():
    """In a process of its own: what the detectors report."""
    from xylem.os_support import os_detect

    def value(fn, *args):
        o = observe(fn, *args)
        return ('ok', o.value) if o.ok else ('raised', type(o.exc).__name__,
                                             str(o.exc))
    seen = {}
    for name, d in os_detect.OsDetect().__dict__.get(
            '_os_list', os_detect.OsDetect.default_os_list):
        is_os = observe(d.is_os)
        seen[name] = (bool(is_os.value) if is_os.ok else repr(is_os),
                      value(d.get_version), value(d.get_codename))
    whole = value(lambda: tuple(os_detect.OsDetect().detect_os()))
    return seen, whole


def seen_by_plugins(env):
    """The same for OS plugins and the tool."""
    from xylem.os_support import OSSupport
    from xylem.os_support.impl import load_os_plugins
    plugins = {}
    for p in load_os_plugins():
        v = observe(p.get_version)
        plugins[p.name] = (
            bool(p.is_os()), ('ok', v.value) if v.ok else
            ('raised', type(v.exc).__name__), p.default_installer,
            p.get_core_installers('x', None))

    def current():
        c = OSSupport().current_os
        return c.name, c.get_tuple(), c.get_all_tuples(c.get_version())
    o = observe(current)
    r = cli(['--sources-dir', env.sources, '--cache-dir', env.cache,
             '--xylem-dir', os.path.join(env.root, 'none'), 'lookup', 'key'])
    return (plugins, ('ok', o.value) if o.ok else
            ('raised', type(o.exc).__name__, str(o.exc)),
            (r.status, plain(r.out), plain(r.err), repr(r.exc)))


def on_system(root, fn, *args):
    for m in [m for m in sys.modules if m.split('.')[0] == 'xylem']:
        del sys.modules[m]
    os.environ['PATH'] = os.path.join(root, 'path')
    lib = ctypes.CDLL(os.environ['XV_SHIM'])
    lib.xvr_root(os.fsencode(root))
    try:
        return fn(*args)
    finally:
        lib.xvr_root(b'')


def p39(chk):
    rng = chk.rng
    env = Env('p39')
    codes = ['wheezy', 'jessie', 'trusty', 'precise', 'noble', 'lion']
    env.write_rules('r.yaml', {'key': dict(
        (o, dict((v, {'apt': ['%s-%s' % (o, v)]}) for v in codes))
        for o in ('debian', 'ubuntu', 'xubuntu', 'osx'))})
    env.write_sources('s.yaml', [env.url('r.yaml')])
    env.updated()
    for i in chk.loop(220, 6000):
        s = System(rng)
        facts = dict(system=s.kind, files=dict(
            (os.path.join(r, f)[len(s.root):],
             open(os.path.join(r, f), errors='replace').read())
            for r, _, fs in os.walk(s.root) for f in fs))
        o = faults.run(on_system, s.root, seen_by_detectors)
        if not chk.check(o.status == 'ok', 'detectors', lambda:
                         'detectors on %s: %r' % (s.kind, o), **facts):
            continue
        seen, whole = o.value
        for name, (is_os, version, codename) in sorted(seen.items()):
            want = name == s.name
            chk.equal(is_os, want, 'is-os', 'whether %s is %s' % (
                s.kind, name), **facts)
            if not want:
                for v in (version, codename):
                    chk.check(v[0] == 'raised' and v[1] == 'OsNotDetected',
                              'not-this-os', lambda: 'version of %s on %s '
                              'is %r' % (name, s.kind, v), **facts)
                continue
            chk.equal(version, ('ok', s.version), 'version', 'version of %s'
                      % s.kind, **facts)
            if s.codename is None:
                chk.check(codename[:2] == ('raised', 'OsNotDetected'),
                          'codename', lambda: 'code name of %s %s is %r' % (
                              s.kind, s.version, codename), **facts)
            else:
                chk.equal(codename, ('ok', s.codename), 'codename',
                          'code name of %s' % s.kind, **facts)
        if s.name is None:
            chk.equal(whole[:2], ('raised', 'OsNotDetected'), 'whole',
                      'OS detected on %s' % s.kind, **facts)
        elif s.codename is not None:
            chk.equal(whole, ('ok', (s.name, s.version, s.codename)),
                      'whole', 'OS detected on %s' % s.kind, **facts)
        chk.count('systems')
        chk.case(sorted(facts["files"].items()), sample=facts,
                 nontrivial=s.name is not None)
        if i % 2 == 0:
            plugins_on(chk, s, env, facts)
        if i % 4 == 0:
            detect_model(chk)


def plugins_on(chk, s, env, facts):
    o = faults.run(on_system, s.root, seen_by_plugins, env)
    if not chk.check(o.status == 'ok', 'plugins', lambda:
                     'plugins on %s: %r' % (s.kind, o), **facts):
        return
    plugins, current, tool = o.value
    chk.count('plugins_asked')
    for name, (is_os, version, default, core) in plugins.items():
        chk.equal(is_os, name == s.name, 'plugin-is-os',
                  'whether %s is %s' % (s.kind, name), **facts)
        if name == s.name and s.codename is not None:
            chk.equal(version, ('ok', s.codename), 'plugin-version',
                      'version of plugin %s' % name, **facts)
        else:
            chk.equal(version, ('raised', 'UnsupportedOSVersionError'),
                      'plugin-version', 'version of plugin %s on %s %s' % (
                          name, s.kind, s.version), **facts)
        want = {'osx': ('homebrew', ['homebrew', 'pip', 'gem'])}.get(
            name, ('apt', ['apt']))
        chk.equal((default, list(core)), want, 'plugin-installers',
                  'installers of %s' % name)
    status, out, err, exc = tool
    chk.check('Traceback' not in err and exc == 'None', 'tool', lambda:
              'lookup on %s: %r' % (s.kind, tool), **facts)
    if s.name not in plugins:
        chk.equal(current[:2], ('raised', 'UnsupportedOSError'), 'current',
                  'current OS on %s' % s.kind, **facts)
        chk.equal(status, 1, 'tool', 'status of lookup on %s' % s.kind,
                  err=err, **facts)
        return
    if s.codename is None:
        chk.equal(current[:2], ('raised', 'UnsupportedOSVersionError'),
                  'current', 'current OS on %s %s' % (s.kind, s.version),
                  **facts)
        chk.equal(status, 1, 'tool', 'status of lookup on %s' % s.kind,
                  err=err, **facts)
        return
    c = s.codename
    want = {'debian': [('debian', c)],
            'ubuntu': [('ubuntu', c), ('debian', None)],
            'xubuntu': [('xubuntu', c), ('ubuntu', c), ('debian', None)],
            'osx': [('osx', c)]}[s.name]
    chk.equal(current, ('ok', (s.name, (s.name, c), want)), 'current',
              'current OS on %s' % s.kind, **facts)
    codes = ['wheezy', 'jessie', 'trusty', 'precise', 'noble', 'lion']
    if c in codes:
        chk.check(status == 0 and "'%s:%s'" % (s.name, c) in out and
                  '[%s-%s]' % (s.name, c) in out, 'tool', lambda:
                  'lookup on %s %s: %r' % (s.kind, c, tool), **facts)
        chk.count('lookups')
    chk.count('plugins_detected')


def detect_model(chk):
    """Precedence of detectors and the override."""
    from xylem.os_support.os_detect import (OsDetect, OsDetector,
                                            OsNotDetected)
    rng = chk.rng

    class Fake(OsDetector):
        def __init__(self, tag):
            self.tag, self.here = tag, rng.random() < .4

        def is_os(self):
            return self.here

        def get_version(self):
            if not self.here:
                raise OsNotDetected('no')
            return 'v' + self.tag

        def get_codename(self):
            if not self.here:
                raise OsNotDetected('no')
            return 'c' + self.tag
    saved = OsDetect.default_os_list
    try:
        default = [(rng.choice('abcd'), Fake(str(n)))
                   for n in range(rng.randint(0, 3))]
        OsDetect.default_os_list = list(default)
        objects = []        # (object, its list)
        history = []
        for step in range(rng.randint(3, 12)):
            op = rng.choice(['new', 'new', 'register', 'add', 'add', 'ask',
                             'ask'])
            name = rng.choice('abcd')
            f = Fake('%d' % (100 + step))
            if op == 'new' or not objects:
                if rng.random() < .3:
                    own = [(rng.choice('abcd'), Fake('own%d' % n))
                           for n in range(rng.randint(0, 2))]
                    given = list(own)
                    objects.append((OsDetect(given), own, given))
                else:
                    objects.append((OsDetect(), list(default), None))
                history.append('new')
            elif op == 'register':
                OsDetect.register_default(name, f)
                default.insert(0, (name, f))
                history.append(('register', name))
            elif op == 'add':
                n = rng.randrange(len(objects))
                objects[n][0].add_detector(name, f)
                objects[n][1].insert(0, (name, f))
                history.append(('add', n, name, f.here))
            elif any(d.here for _, d in objects[-1][1]):
                observe(objects[-1][0].detect_os, {})
                history.append(('ask', len(objects) - 1))
                chk.count('asked_before')
        chk.equal([d for _, d in OsDetect.default_os_list],
                  [d for _, d in default], 'defaults',
                  'default detectors', history=history)
        for n, (o, mine, given) in enumerate(objects):
            here = [(k, d) for k, d in mine if d.here]
            if rng.random() < .3:
                env = rng.choice([
                    ('x', ('x', '', '')), ('x:1', ('x', '1', '')),
                    ('x:1:c', ('x', '1', 'c')), ('a:', ('a', '', '')),
                    ('x:1:c:d', ('x', '1', 'c')),
                    ('a::c', ('a', '', 'c'))])
                if rng.random() < .5:
                    got = o.detect_os({'ROS_OS_OVERRIDE': env[0]})
                else:
                    with mock.patch.dict(os.environ,
                                         {'ROS_OS_OVERRIDE': env[0]}):
                        got = o.detect_os()
                chk.equal(tuple(got), env[1], 'override',
                          'OS with override %r' % (env,))
                if all(env[1]):
                    chk.equal((o.get_name(), o.get_version(),
                               o.get_codename()), env[1], 'override',
                              'asked with override %r' % (env,))
                chk.count('overrides')
                continue
            if rng.random() < .5 and ('ask', n) not in history:
                # asked without detecting first
                ask = rng.choice(['detector', 'name', 'version', 'codename'])
                with mock.patch.dict(os.environ):
                    os.environ.pop('ROS_OS_OVERRIDE', None)
                    q = observe(getattr(o, 'get_' + ask))
                if not here:
                    chk.raises(q, (OsNotDetected,), 'no-detector',
                               'get_%s without detector' % ask)
                elif len(set(k for k, _ in here)) == 1:
                    k, d = here[0]
                    chk.check(q.ok and q.value == dict(
                        detector=d, name=k, version=d.get_version(),
                        codename=d.get_codename())[ask], 'precedence',
                        lambda: 'get_%s of object %d gives %r instead of '
                        'that of %r' % (ask, n, q, (k, d.tag)),
                        history=history)
                chk.count('asked_first')
            r = observe(o.detect_os, {})
            if not here:
                chk.raises(r, (OsNotDetected,), 'no-detector',
                           'detection without detector')
            elif len(set(k for k, _ in here)) == 1:
                k, d = here[0]
                chk.check(r.ok and tuple(r.value) == (
                    k, d.get_version(), d.get_codename()), 'precedence',
                    lambda: 'object %d detects %r instead of %r' % (
                        n, r, (k, d.tag)), history=history)
                chk.check(observe(o.get_detector).value is d and
                          o.get_name() == k and
                          o.get_version() == d.get_version() and
                          o.get_codename() == d.get_codename(),
                          'precedence', 'detector of object %d is %r' % (
                              n, observe(o.get_detector)), history=history)
                chk.count('contested' if len(here) > 1 else 'single')
            else:
                chk.check(r.ok and tuple(r.value) in [
                    (k, d.get_version(), d.get_codename())
                    for k, d in here], 'precedence',
                    lambda: 'object %d detects %r' % (n, r), history=history)
            for k in 'abcd':
                first = [d for k2, d in mine if k2 == k]
                r = observe(o.get_detector, k)
                if first:
                    chk.check(r.ok and r.value is first[0], 'detector',
                              lambda: 'detector for %s of object %d is %r '
                              'instead of %r' % (k, n, r, first[0].tag),
                              history=history)
                else:
                    chk.raises(r, (KeyError,), 'detector',
                               'detector for unknown name')
        chk.count('models')
    finally:
        OsDetect.default_os_list = saved


# --- P37 --------------------------------------------------------------

PROGRAM = r'''#!%(py)s -ESsB
import os, sys, signal, threading
here = %(here)r
n = len(os.listdir(here))
with open(os.path.join(here, 'call%%d' %% n), 'wb') as f:
    f.write(b'\0'.join(os.fsencode(a) for a in [
        os.getcwd(), os.environ.get('XV_MARK', '-')] + sys.argv[1:]))
plan = open(%(plan)r, 'rb').read()
code, _, rest = plan.partition(b'\n')
for piece in rest.split(b'\x1e')[:-1]:
    fd, data = int(piece[:1]), piece[1:]
    count, _, data = data.partition(b':')
    data = data * int(count)
    while data:
        k = os.write(fd, data)
        data = data[k:]
code = int(code)
if code < 0:
    os.kill(os.getpid(), -code)
os._exit(code)
'''


class Program(object):
    """An executable that records how it is called and does as planned."""

    def __init__(self, name, directory):
        from common import PY
        self.base = fresh_dir('program')
        self.calls_dir = os.path.join(self.base, 'calls')
        os.makedirs(self.calls_dir)
        self.plan = os.path.join(self.base, 'plan')
        self.path = os.path.join(directory, name)
        write(self.path, PROGRAM % dict(py=PY, here=self.calls_dir,
                                        plan=self.plan))
        os.chmod(self.path, 0o755)

    def set(self, code, pieces):
        with open(self.plan, 'wb') as f:
            f.write(b'%d\n' % code)
            for fd, count, data in pieces:
                f.write(b'%d%d:%s\x1e' % (fd, count, data))

    def calls(self):
        res = []
        for n in range(len(os.listdir(self.calls_dir))):
            p = os.path.join(self.calls_dir, 'call%d' % n)
            with open(p, 'rb') as f:
                res.append([os.fsdecode(x) for x in f.read().split(b'\0')])
            os.remove(p)
        return res


ARGS = ['', ' ', 'a b', '$HOME', '`id`', '$(id)', '*', '~', '--', '-x', '"',
        "'", '\\', '\\n', 'a\nb', ';', '| cat', '> f', '&', '%s', '{0}',
        '\u00e4\u2713', '\U0001f600', 'a=b', '#', '!x', 'x' * 5000, '\t']


def output(rng):
    """Random bytes, and the text they stand for."""
    pieces = [b'hello\n', b'', b'a\r\nb\r', b'no newline', b'\n\n',
              '\u00e4\u2713 \U0001f600\n'.encode('utf-8'), b'\xff\xfe bad',
              b'\xc3', b'\x80\x81', b'\0', b'\x1b[0m', b'\xed\xa0\x80',
              b'\xef\xbb\xbfbom', b' \t ', b'\xf4\x90\x80\x80', b'=='
              ] + [b'pkg%d==1.%d\n' % (rng.randrange(9), rng.randrange(9))]
    return rng.choice(pieces)


def open_fds():
    return sorted(os.readlink('/proc/self/fd/' + f)
                  for f in os.listdir('/proc/self/fd')
                  if os.path.exists('/proc/self/fd/' + f))


def p37(chk):
    import threading
    from xylem import util
    rng = chk.rng
    directory = os.path.join(fresh_dir('p37'), 'bin')
    os.makedirs(directory)
    prog = Program('prog', directory)
    odd = Program('a prog \u00e4', directory)
    os.makedirs(os.path.join(directory, 'adir'))
    write(os.path.join(directory, 'notexec'), '#!/bin/sh\n')
    write(os.path.join(directory, 'nointerp'), '#!/no/such/interpreter\n')
    os.chmod(os.path.join(directory, 'nointerp'), 0o755)
    os.symlink('nosuch', os.path.join(directory, 'dangling'))
    os.symlink('prog', os.path.join(directory, 'alias'))
    path = os.environ['PATH']

    def call(fn, *args):
        """Run with a watchdog; a hang is an observation too."""
        box = []
        t = threading.Thread(target=lambda: box.append(quiet(fn, *args)))
        t.daemon = True
        t.start()
        t.join(40)
        if not box:
            chk.violate('hangs', '%s%r does not return' % (
                fn.__name__, args))
            return None
        return box[0]
    try:
        os.environ['PATH'] = directory + os.pathsep + path
        cwd = os.getcwd()
        for i in chk.loop(90, 3000):
            p = rng.choice([prog, prog, odd])
            pieces = []
            for _ in range(rng.randint(0, 6)):
                pieces.append((rng.choice([1, 1, 2]), rng.choice(
                    [1, 1, 1, 2, 30]), output(rng)))
            big = rng.random() < .25
            if big:
                # more than fits into a pipe, in turn
                for _ in range(rng.randint(1, 6)):
                    pieces.append((rng.choice([1, 2]), rng.randint(
                        1000, 20000), rng.choice([b'0123456789abcdef\n',
                                                  b'\xc3\xa4'])))
                    chk.count('large_outputs')
                rng.shuffle(pieces)
            code = rng.choice([0, 0, 0, 1, 2, 127, 255, -9, -15])
            p.set(code, pieces)
            want = [b''.join(d * c for fd2, c, d in pieces if fd2 == fd)
                    for fd in (1, 2)]
            text = [w.decode('utf-8', 'replace') for w in want]
            args = [rng.choice(ARGS) for _ in range(rng.randint(0, 5))]
            name = rng.choice([os.path.basename(p.path), p.path])
            if p is prog and rng.random() < .1:
                name = 'alias'
            mark = rng.choice(ARGS[1:24])
            os.environ['XV_MARK'] = mark
            fds = open_fds()
            fn = rng.choice(['read_stdout', 'read_stdout_err',
                             'is_program_installed'])
            if fn == 'is_program_installed':
                args = []
                o = call(util.is_program_installed, name)
            else:
                o = call(getattr(util, fn), [name] + args)
            if o is None:
                break
            facts = dict(function=fn, argv=[name] + args, code=code,
                         pieces=pieces)
            if not chk.returns(o, 'raises', '%s(%r)' % (fn, [name] + args),
                               **facts):
                continue
            expect = {'read_stdout': text[0], 'is_program_installed': True,
                      'read_stdout_err': (text[0], text[1], code)}[fn]
            got = o.value
            if fn == 'read_stdout_err' and isinstance(got, list):
                got = tuple(got)
            chk.check(got == expect and type(got) is type(expect), 'result',
                      lambda: '%s gives %r instead of %r' % (
                          fn, got, expect), **facts)
            chk.equal(o.out + o.err, '', 'result', 'printed by %s' % fn,
                      **facts)
            chk.equal(p.calls(), [[cwd, mark] + args], 'called',
                      'calls of %s' % name, **facts)
            chk.equal(open_fds(), fds, 'descriptors',
                      'open files after %s' % fn, **facts)
            try:
                pid = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pass
            else:
                chk.violate('child', 'a child process is left: %r' % (pid,),
                            **facts)
            chk.count('calls')
            chk.case((fn, name, args, code, pieces), sample=facts,
                     nontrivial=big or code != 0 or bool(want[1]))
            if i % 2 == 0:
                missing(chk, util, directory, call)
            if i % 3 == 0:
                small_helpers(chk, util)
    finally:
        os.environ['PATH'] = path
        os.environ.pop('XV_MARK', None)


def missing(chk, util, directory, call):
    rng = chk.rng
    name = rng.choice(['nosuchprogram', 'notexec', 'nointerp', 'adir',
                       'dangling', 'no such', 'prog nosuch', 'prog;',
                       'nosuch/prog', 'prog\nx'])
    if rng.random() < .4:
        name = os.path.join(directory, name)
    o = call(util.is_program_installed, name)
    if o is None:
        return
    chk.check(o.ok and o.value is False, 'not-installed', lambda:
              'is_program_installed(%r) %r' % (name, o))
    chk.equal(o.out + o.err, '', 'not-installed', 'printed')
    fn = rng.choice([util.read_stdout, util.read_stdout_err])
    o = call(fn, [name, 'x'])
    chk.raises(o, (OSError,), 'not-installed', '%s of %r' % (
        fn.__name__, name))
    chk.count('missing')


def small_helpers(chk, util):
    """remove_duplicates and indent."""
    rng = chk.rng
    pool = ['a', 'b', 'A', '', ' a', 1, 1.0, True, 0, False, None, 'True',
            (1, 2), ('a',), '\u00e4', 'a\u0308']
    seq = [rng.choice(pool) for _ in range(rng.randint(0, 12))]
    want = []
    for x in seq:
        if not any(x == y for y in want):
            want.append(x)
    given = rng.choice([list, tuple, iter])
    o = observe(util.remove_duplicates, given(list(seq)))
    chk.check(o.ok and [repr(x) for x in o.value] == [repr(x) for x in want],
              'duplicates', lambda: 'remove_duplicates(%r) %r' % (seq, o))
    lines = [rng.choice(['', 'a', '  b', 'c\td', '\u00e4', ' ', 'x\r'])
             for _ in range(rng.randint(1, 5))]
    width = rng.randint(0, 6)
    first = rng.random() < .5
    char = rng.choice([' ', ' ', '\t', '> '])
    kw = {} if char == ' ' else {'character': char}
    o = observe(util.indent, '\n'.join(lines), width, exclude_first=first,
                **kw)
    chk.check(o.ok and o.value == '\n'.join(
        ('' if first and n == 0 else char * width) + l
        for n, l in enumerate(lines)), 'indent', lambda:
        'indent(%r, %r, %r, %r) %r' % (lines, width, char, first, o))
    chk.count('helpers')


# --- P38 --------------------------------------------------------------

WORDS = ['a', 'the', 'option', 'of', 'configuration', '`x`', '(see', 'y)',
         '\u00fcber', 'x' * 25, "'quoted'", '--flag', 'well-known', 'e.g.',
         'http://host/path-to/x', '1', '*', '/a/b', '{}', '%', 'R|', '|']


class HelpText(object):
    """A help text and the lines it is to be shown as."""

    def __init__(self, rng, serial, percent, open_end=False):
        self.first, self.last = 'q%dq' % serial, 'z%dz' % serial
        self.rng = rng
        self.paragraphs = []
        n = rng.randint(1, 4)
        text = []
        for k in range(n):
            raw = k > 0 and rng.random() < .3 and not (
                open_end and k == n - 1)
            if raw:
                lines = ['%s%s' % (' ' * rng.randint(0, 9), rng.choice(
                    [' '] * 5 + ['  ', '\t']).join(
                        rng.choice(WORDS[:-3] * 2 + ['R|', '|'])
                        for _ in range(rng.randint(1, 9))))
                    for _ in range(rng.randint(1, 4))]
                base = ' ' * rng.randint(0, 4)
                if len(lines) > 1 and rng.random() < .4:
                    lines.insert(rng.randint(1, len(lines) - 1), '')
                if k == n - 1:
                    lines.append(self.last)
                lines = [base + l for l in lines]
                lead = rng.choice(['R|', ' R|', '    R|'])
                if rng.random() < .5:
                    shown = [' ' * len(lead) + lines[0]] + lines[1:]
                    text.append(lead + '\n'.join(lines))
                else:
                    shown = list(lines)
                    text.append(lead + '\n' + '\n'.join(lines))
                cut = min(len(l) - len(l.lstrip(' ')) for l in shown
                          if l.strip())
                self.paragraphs.append(('raw', [l[cut:] for l in shown]))
                continue
            blocks = []
            for b in range(rng.randint(1, 3)):
                words = [rng.choice(WORDS)
                         for _ in range(rng.randint(1, 30))]
                while words[0] == 'R|':
                    words[0] = 'w'
                if k == 0 and b == 0:
                    words.insert(0, self.first)
                blocks.append(words)
            if k == n - 1:
                blocks[-1].append(self.last)
            self.paragraphs.append(('text', blocks))
            text.append('\n\n'.join(''.join(
                w if not j else rng.choice([' '] * 5 + [
                    '  ', '\n', '\n      ', ' \n ', '\t']) + w
                for j, w in enumerate(ws)) for ws in blocks))
        joints = [rng.choice(['\n\n\n', '\n\n\n', '\n\n\n\n', '\n' * 5])
                  for _ in text]
        self.text = text[0] + ''.join(
            j + t for j, t in zip(joints, text[1:]))
        if percent:
            self.text = self.text.replace('%', '%%')

    def lines(self, width):
        import textwrap
        res = []
        for kind, content in self.paragraphs:
            if kind == 'raw':
                res += content
            else:
                for words in content:
                    res += textwrap.wrap(' '.join(words), width)
            res.append('')
        return [l.rstrip() for l in res[:-1]]


def shown_lines(out, first, last):
    """The lines from ``first`` to ``last``, without their indentation."""
    lines = out.split('\n')
    start = [n for n, l in enumerate(lines) if first in l]
    end = [n for n, l in enumerate(lines) if last in l]
    if len(start) != 1 or len(end) != 1:
        return None, 0
    col = lines[start[0]].index(first)
    part = lines[start[0]:end[0] + 1]
    res = [part[0][col:].rstrip()]
    for l in part[1:]:
        if l[:col].strip():
            return None, col
        res.append(l[col:].rstrip())
    return res, col


def p38(chk):
    import argparse
    from xylem import config_utils as cu
    rng = chk.rng
    saved = os.environ.get('COLUMNS')
    serial = 0
    try:
        for i in chk.loop(150, 5000):
            columns = rng.choice([40, 60, 72, 80, 80, 100, 132, 200,
                                  rng.randint(30, 220)])
            os.environ['COLUMNS'] = str(columns)
            texts = []

            def new(percent, open_end=False):
                texts.append(HelpText(rng, serial * 50 + len(texts),
                                      percent, open_end))
                return texts[-1].text
            serial += 1
            parser = argparse.ArgumentParser(
                prog='tool', description=new(False),
                epilog=new(False) if rng.random() < .3 else None,
                formatter_class=cu.ConfigHelpFormatter)
            for n in range(rng.randint(0, 3)):
                parser.add_argument(
                    '--' + rng.choice(['x', 'option', 'long-option-' * 3]) +
                    str(n), metavar=rng.choice(['X', 'VALUE', 'LIST']),
                    help=new(True))
            if rng.random() < .6:
                g = parser.add_argument_group('group', new(False))
                for n in range(rng.randint(0, 2)):
                    g.add_argument('--group%d' % n, help=new(True))
            desc, labels = None, {}
            if rng.random() < .5:
                desc = cu.ConfigDescription('c')
                names = rng.sample(['a', 'b_c', 'g/d', 'g/e_f', 'h/i'],
                                   rng.randint(1, 5))
                for name in names:
                    desc.add(name, type=rng.choice([
                        cu.Any, cu.String, cu.Boolean, cu.Path,
                        cu.List(cu.String), cu.MergingDict(cu.Any)]),
                        command_line=True, help=new(True, True),
                        **rng.choice([{}, {'command_line_argument':
                                           'arg-%s' % len(texts)}]))
                    labels[name] = texts[-1].last
                    item = desc.items[name]
                    if rng.random() < .5:
                        item.default = {
                            'Boolean': [False, True], 'Path': ['/dv'],
                            'List': [['dv'], []], 'String': ['dv', ''],
                            'MergingDict': [{'dv': 1}],
                            'Any': [0, 'dv', False]}[
                                type(item.type).__name__]
                        item.default = rng.choice(item.default)
                desc.add_arguments(parser)
            o = quiet(parser.format_help)
            facts = dict(columns=columns, texts=[t.text for t in texts])
            if not chk.returns(o, 'format', 'format_help', **facts):
                continue
            out = o.value
            for t in texts:
                got, col = shown_lines(out, t.first, t.last)
                if not chk.check(got is not None, 'lost', lambda:
                                 '%r is not shown once or not aligned in %r'
                                 % (t.text, out), **facts):
                    continue
                # sections are as wide as the terminal, less two, and less
                # their own indentation, which argparse counts twice
                # within groups
                width = max(columns - 2 - col, 11)
                want = [t.lines(w) for w in (width, max(
                    columns - 2 - 2 * col, 11))]
                squash = [_squash(w) for w in want]
                if col > 2:
                    squash = squash[:1]
                # what follows the text in the same block
                chk.check(any(_same_lines(_squash(got), w, t.last)
                              for w in squash), 'layout', lambda:
                          '%r in %d columns is shown as\n%s\ninstead of\n%s'
                          % (t.text, columns, '\n'.join(got),
                             '\n'.join(want[0])), **facts)
                chk.count('texts')
                chk.count('paragraphs', len(t.paragraphs))
                chk.count('raw', sum(p[0] == 'raw' for p in t.paragraphs))
            if desc is not None:
                for name, item in desc.items.items():
                    chk.check('--' + item.command_line_argument in out,
                              'option', lambda: '--%s is not in %r' % (
                                  item.command_line_argument, out))
                    described(chk, name, item, labels[name], out)
                chk.count('descriptions')
            chk.case((columns, out), sample=facts)
            if i % 8 == 0:
                tool_help(chk, columns)
    finally:
        os.environ.pop('COLUMNS', None)
        if saved is not None:
            os.environ['COLUMNS'] = saved


def described(chk, name, item, label, out):
    """What follows the help text of a configuration option."""
    text = ''.join(out.split())
    text = text[text.index(label) + len(label):].split('\x00')[0]
    text = re.split(r'q\d+q', text)[0]
    want = ['type:' + type(item.type).__name__]
    if '/' in name or item.command_line_argument != name.replace('_', '-'):
        want.append('config:`%s`' % name)
    if item.default is not None and (item.default or type(
            item.type).__name__ != 'MergingDict'):
        want.append('default:' + ''.join(str(item.default).split()))
    for w in want:
        chk.check(w in text, 'description', lambda: 'the help of %s shows %r '
                  'but not %r' % (name, text, w))
        chk.count('described_' + w.split(':')[0])


def _squash(lines):
    res = []
    for l in lines:
        if l or (res and res[-1]):
            res.append(l)
    return res


def _same_lines(got, want, last):
    """Equal up to what follows ``last`` on the last line."""
    if len(got) != len(want):
        return False
    return got[:-1] == want[:-1] and (
        got[-1] == want[-1] or got[-1].startswith(want[-1] + ' '))


GLOBAL = ['--help', '--version', '--verbose', '--debug', '--print-config',
          '--no-user-config', '--prefix', '--xylem-dir']
COMMANDS = {
    'lookup': ['xylem_key'],
    'resolve': ['xylem_key', '--all', '--show-default-installer'],
    'install': ['xylem_key', '--all', '--reinstall', '--dry-run',
                '--continue-on-error', '--fix-prerequisites'],
    'update': ['-n', '--dry-run']}


def tool_help(chk, columns):
    """Help of the tool and its commands."""
    from common import tree
    from xylem.config import get_config_description
    rng = chk.rng
    env = Env('help')
    command = rng.choice([None] + sorted(COMMANDS))
    flag = rng.choice(['-h', '--help'])
    argv = ['--xylem-dir', env.root, '--cache-dir', env.cache]
    extra = rng.choice([[], ['--os', 'nosuch:x'], ['-v'],
                        ['--core-installers', 'x']])
    if command is None:
        argv = rng.choice([[flag], argv + [flag], [flag] + argv,
                           extra + [flag]])
    else:
        argv = rng.choice([[command, flag], argv + [command, flag],
                           [command, 'a', flag], [command, flag] + argv,
                           extra + [command, flag],
                           [command, flag, '--nosuchoption']])
        if command == 'update':
            argv = [a for a in argv if a != 'a']
    before = tree(env.root)
    r = cli(argv)
    chk.check(r.status == 0 and r.exc is None and not r.err, 'tool-help',
              lambda: '%r: %r' % (argv, r))
    chk.equal(tree(env.root), before, 'tool-help', 'files after %r' % argv)
    out = plain(r.out)
    flat = ''.join(out.split())
    names = list(GLOBAL) + COMMANDS.get(command, [])
    if command is None:
        names += sorted(COMMANDS)
        chk.check('_compact_rules_file' not in out, 'tool-help',
                  'internal command in %r' % out)
    for name in names:
        chk.check(''.join(name.split()) in flat, 'tool-help', lambda:
                  '%s is missing in help of %r: %s' % (name, argv, out))
    for name, item in get_config_description().items.items():
        if not item.command_line:
            continue
        chk.check('--' + item.command_line_argument in out and ''.join(
            item.help.split()) in flat, 'tool-help', lambda:
            'help on %s is missing in help of %r: %s' % (name, argv, out))
    for l in out.split('\n'):
        # what cannot be broken may be longer
        chk.check(len(l) <= max(columns - 2, 60) or ' ' not in l.strip() or
                  'usage' in l or '[' in l or
                  '--' in l, 'tool-help', lambda:
                  'line of %d characters in %d columns: %r' % (
                      len(l), columns, l))
    chk.count('tool_helps')
