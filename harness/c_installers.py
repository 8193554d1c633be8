"""P20-P23: installer plugins."""
import os
import sys
import types

import model
from common import SCRATCH, deepcopy, observe, quiet, same_data, short, write
from plugdist import add_dist
from stubs import Machine, make_stub_class, plain

BIN = os.path.join(SCRATCH, 'bin')
PROGRAMS = {'apt': 'apt-get', 'pip': 'pip', 'homebrew': 'brew',
            'macports': 'port', 'fake': 'touch'}
AS_ROOT = {'apt': True, 'pip': True, 'homebrew': False, 'macports': True,
           'fake': False}


def builtin(name):
    mod = __import__('xylem.installers.plugins.' + name, fromlist=['x'])
    return mod.definition['installer']()


class patched_uid(object):
    """The process appears to have this effective user."""

    def __init__(self, uid, real=None):
        self.uid = uid
        self.real = uid if real is None else real

    def __enter__(self):
        fakes = [('geteuid', os.geteuid, lambda: self.uid),
                 ('getuid', os.getuid, lambda: self.real)]
        self.saved = []
        for name, f, fake in fakes:
            found = [(os, name)]
            # wherever it was imported to
            for modname, mod in list(sys.modules.items()):
                if modname.split('.')[0] == 'xylem' and mod is not None:
                    found += [(mod, n) for n, v in vars(mod).items()
                              if v is f]
            for mod, n in found:
                self.saved.append((mod, n, f))
                setattr(mod, n, fake)

    def __exit__(self, *a):
        for mod, n, v in self.saved:
            setattr(mod, n, v)


def package_name(rng):
    return rng.choice(['foo', 'lib-x', 'a.b', 'käse', 'g++', 'x y', 'sudo',
                       'install', 'python-foo', 'Foo', '-y', '@{x}'
                       ]) + rng.choice(['', '', '1', '-dev', '==2'])


# --- P20 --------------------------------------------------------------

VALUES = [None, True, 7, 1.5, 'text', [], ['--with-x', '--y'], {'a': [1]},
          [['x'], {'y': None}], '']


def p20(chk):
    from xylem.installers import InvalidRuleError
    from xylem.installers import InstallerBase
    from xylem.config_utils import Any, Boolean, Dict, List, String
    from xylem.text_utils import to_str
    from xylem.util import remove_duplicates
    rng = chk.rng
    TYPES = {'String': (String, ['x', 'y y', 'ä']),
             'Boolean': (Boolean, [True, False]),
             'List': (List(String), [[], ['a'], ['b', 'a']]),
             'Dict': (Dict(Any), [{}, {'a': [1, {'b': None}]}]),
             'Any': (Any, [1, 'x', [1, [2]], {'k': {'l': []}}])}

    class Custom(InstallerBase):
        name = 'custom'

        def __init__(self, extra):
            super(Custom, self).__init__()
            for n, t in extra.items():
                self.installer_rule_description.add(n, type=TYPES[t][0])

        def is_installed(self, r):
            return False

        def filter_uninstalled(self, r):
            return r

        def get_install_commands_no_root(self, r, interactive=True,
                                         reinstall=False):
            return []

        def check_general_prerequisites(self, *a, **kw):
            pass
        check_install_prerequisites = check_general_prerequisites

    for i in chk.loop(2500, 60000):
        extra = {}
        if rng.random() < .6:
            for n in rng.sample(['options', 'ppa', 'tap', 'flags', 'x-y'],
                                rng.randint(1, 4)):
                extra[n] = rng.choice(sorted(TYPES))
            inst = Custom(extra)
        else:
            inst = builtin(rng.choice(sorted(PROGRAMS)))
        rule = {}
        packages = [package_name(rng) for _ in range(rng.randint(0, 5))]
        if packages and rng.random() < .1:
            packages[rng.randrange(len(packages))] = rng.choice(
                ['', ' ', ' p', 'p ', 'P', 'p\n', '\tp', 'p  q', 'p=1:2~3',
                 "'p'", '"p', '-p', '--', 'p\u0301', '$p', 'p;', 'p\\',
                 'any_os', 'null', '0', '\u00a0p', 'p\u2028'])
        r = rng.random()
        if r < .9:
            rule['packages'] = packages
        else:
            packages = []
            if r < .95:
                rule['packages'] = None
        depends = []
        if rng.random() < .4:
            depends = [rng.choice(model.KEYS)
                       for _ in range(rng.randint(0, 3))]
            rule['depends'] = depends
        given = {}
        for n, t in extra.items():
            if rng.random() < .7:
                given[n] = deepcopy(rng.choice(TYPES[t][1]))
                rule[n] = given[n]
        unknown = {}
        if rng.random() < .3:
            for n in rng.sample(['unknown', 'zzz', 'Package'],
                                rng.randint(1, 2)):
                unknown[n] = rule[n] = rng.choice(VALUES)
        # defects
        bad = None
        if rng.random() < .35:
            bad = rng.choice(['packages', 'depends', 'element'] +
                             list(extra))
            if bad in ('packages', 'depends'):
                rule[bad] = rng.choice(['foo', 7, True, {'a': 'b'},
                                        ('a',), 1.5, ''])
            elif bad == 'element':
                where = rng.choice(['packages', 'depends'])
                x = ['a', 'b']
                x.insert(rng.randint(0, 2), rng.choice(
                    [7, True, ['x'], {'a': 1}, 1.5]))
                rule[where] = x
            else:
                wrong = {'String': [7, ['a'], True], 'Any': None,
                         'Boolean': ['yes', 1, []],
                         'List': ['a', {'a': 'b'}, [7]],
                         'Dict': [['a'], 'a', {7: 1}]}[extra[bad]]
                if wrong is None:
                    bad = None
                else:
                    rule[bad] = rng.choice(wrong)
        items = list(rule.items())
        rng.shuffle(items)
        rule = dict(items)
        saved = deepcopy(rule)
        w = dict(rule=saved, installer=type(inst).__name__, extra=extra)
        for method in ('resolve', 'get_depends'):
            o = quiet(getattr(inst, method), rule)
            chk.check(same_data(rule, saved), 'rule-changed',
                      lambda: '%s changed the rule to %r' % (method, rule),
                      **w)
            if bad:
                chk.raises(o, InvalidRuleError, 'rule-accepted',
                           'invalid %s' % bad, **w)
                continue
            if not chk.returns(o, 'rule-rejected', method, **w):
                continue
            if method == 'get_depends':
                chk.equal(o.value, depends, 'depends', 'dependencies', **w)
                continue
            got = o.value
            chk.equal([g['package'] for g in got], packages, 'packages',
                      'packages of the resolutions', **w)
            for g in got:
                rest = {k: v for k, v in g.items()
                        if not k.startswith('_') and k != 'package'}
                want = {n: given.get(n) for n in extra}
                chk.check(same_data(rest, want), 'options', lambda: 'options '
                          'are %r instead of %r' % (rest, want), **w)
                chk.equal(g.package, g['package'], 'options', 'attribute')
                chk.check(to_str(g) == g['package'], 'printed',
                          lambda: 'printed as %r' % to_str(g), **w)
            # printed by the keys an installer asks for
            texts = [n for n, t in extra.items() if t in ('String', 'List')
                     and given.get(n) is not None]
            for g in (got if texts else []):
                keys = rng.sample(texts, rng.randint(1, len(texts)))
                keys.insert(rng.randint(0, len(keys)), 'package')
                g._to_list_keys = keys
                want = []
                for k in keys:
                    v = g['package'] if k == 'package' else given[k]
                    want += v if isinstance(v, list) else [v]
                chk.equal([g.to_list(), to_str(g)], [want, ' '.join(want)],
                          'printed', 'resolution printed by %s' % keys, **w)
                g._to_list_keys = ['package']
                chk.equal(same_data({n: g[n] for n in texts},
                                    {n: given[n] for n in texts}), True,
                          'printed', 'unchanged by printing', **w)
                chk.count('printed_by_keys')
            for n in unknown:
                chk.check(n in o.err, 'unknown-option',
                          lambda: '%r not in warning %r' % (n, o.err), **w)
            chk.check(unknown or not o.err.strip(), 'unknown-option',
                      lambda: 'spurious warning %r' % o.err, **w)
            chk.count('resolutions', len(got))
            # equality and hashing
            again = quiet(inst.resolve, deepcopy(rule)).value
            for a, b in zip(got, again):
                chk.check(a == b and not a != b and hash(a) == hash(b),
                          'equality', lambda: 'same package, but %r %r' % (
                              a, b), **w)
            both = got + again
            for x in both:
                for y in both:
                    if x['package'] != y['package']:
                        chk.check(x != y, 'equality', '%r equals %r' % (x, y))
            uniq = remove_duplicates(both)
            want = [p for n, p in enumerate(packages)
                    if p not in packages[:n]]
            chk.equal([u['package'] for u in uniq], want, 'equality',
                      'packages without duplicates', **w)
            if given and got:
                other = dict(rule)
                n = rng.choice(sorted(given))
                alt = [v for v in TYPES[extra[n]][1] if v != given[n]]
                other[n] = rng.choice(alt)
                o2 = quiet(inst.resolve, other)
                if o2.ok:
                    chk.check(all(a != b and not a == b
                                  for a, b in zip(got, o2.value)),
                              'equality', lambda: 'resolutions with different '
                              '%s are equal: %r' % (n, got), **w)
                    both = got + o2.value
                    chk.equal([(u['package'], repr(u.get(n)))
                               for u in remove_duplicates(both)],
                              list(dict.fromkeys((u['package'], repr(
                                  u.get(n))) for u in both)), 'equality',
                              'resolutions with different options', **w)
                    chk.count('options_compared')
        chk.count('invalid_rules', bool(bad))
        chk.count('rules_with_unknown_options', bool(unknown))
        chk.case((repr(saved), extra), saved,
                 nontrivial=bool(bad or given or len(packages) > 1))


# --- P21 --------------------------------------------------------------

def check_commands(chk, cmds, name, packages, inst, sudo, w):
    flat = []
    for c in cmds:
        if not chk.check(isinstance(c, list) and c and all(
                isinstance(a, str) for a in c), 'command-form',
                'command %r' % (c,), **w):
            return
        n = 0
        while n < len(c) and c[n] == 'sudo':
            n += 1
        chk.check(n == (1 if sudo else 0), 'command-sudo',
                  lambda: '%r has %d times sudo' % (c, n), **w)
        c = c[n:]
        if not chk.equal(c[:1], [PROGRAMS.get(name, 'stub')], 'command-form',
                         'program', **w):
            return
        flat.append(c[1:])
    prefix = {'apt': ['install'], 'pip': ['install', '-U'],
              'homebrew': ['install'], 'macports': ['install'],
              'fake': []}[name]
    args = []
    for c in flat:
        if not chk.equal(c[:len(prefix)], prefix, 'command-form',
                         'beginning of %r' % c, **w):
            return
        args.extend(c[len(prefix):])
    want = packages
    if name == 'fake':
        d = w['install_dir']
        if d[:2] == '~/':
            d = os.environ['HOME'] + d[1:]
        want = [os.path.join(d, p) for p in packages]
    chk.equal([a for a in args if a in want or a not in (
        '-y', '-q', '--yes', '--assume-yes', '--reinstall',
        '--force-reinstall')], want, 'command-packages',
        'packages in the commands', **w)


def p21(chk):
    from xylem.installers import InstallerBase
    rng = chk.rng
    Stub = make_stub_class()

    class Own(Stub):
        """Composes commands some of which have sudo already."""

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            self.asked.append((list(resolved), interactive, reinstall))
            return deepcopy(self.cmds)

    for i in chk.loop(2500, 60000):
        uid = rng.choice([0, 0, 1000, 65534])
        # programs may run with the rights of another user
        real = uid if rng.random() < .8 else rng.choice([0, 1000, 65534])
        opt = rng.choice([None, True, False])
        if rng.random() < .25:
            inst = Own(None, 'own')
            inst.cmds = [
                (['sudo'] if rng.random() < .4 else []) +
                ['prog%d' % j] + [rng.choice(['sudo', 'install', 'x'])
                                  for _ in range(rng.randint(0, 3))]
                for j in range(rng.randint(0, 4))]
            as_root = bool(opt)
            inst.options = {} if opt is None else {'as_root': opt}
            inst.asked = []
            some = ['r%d' % j for j in range(rng.randint(0, 2))]
            kw = {}
            for k in ('interactive', 'reinstall'):
                if rng.random() < .7:
                    kw[k] = rng.random() < .5
            with patched_uid(uid, real):
                o = quiet(inst.get_install_commands, list(some), **kw)
            chk.equal(inst.asked, [(some, kw.get('interactive', True),
                                    kw.get('reinstall', False))],
                      'command-asked', 'commands are composed for', **kw)
            if not chk.returns(o, 'command-raises', 'composing'):
                continue
            want = [(['sudo'] if c[0] != 'sudo' and as_root and uid else [])
                    + c for c in inst.cmds]
            chk.equal(o.value, want, 'command-sudo', 'commands', uid=uid,
                      as_root=as_root, cmds=inst.cmds)
            chk.count('own_commands', len(want))
            chk.case((uid, opt, inst.cmds), want, nontrivial=len(want) > 1)
            continue
        name = rng.choice(sorted(PROGRAMS))
        inst = builtin(name)
        options = {} if opt is None else {'as_root': opt}
        if name == 'fake':
            options['install_dir'] = rng.choice(['/x/y', '/z w', '/ä', '~/f',
                                                 '/ä/~'])
        if options or rng.random() < .5:
            inst.options = options
        as_root = AS_ROOT[name] if opt is None else opt
        packages = []
        for _ in range(rng.randint(0, 6)):
            p = package_name(rng)
            if p not in packages and p != '-y':
                packages.append(p)
        resolutions = inst.resolve({'packages': packages})
        kw = dict(interactive=rng.random() < .5, reinstall=rng.random() < .3)
        with patched_uid(uid, real):
            o = quiet(inst.get_install_commands, resolutions, **kw)
        w = dict(installer=name, packages=packages, uid=uid, as_root=as_root,
                 commands=o.value, install_dir=options.get('install_dir'),
                 **kw)
        if chk.returns(o, 'command-raises', 'composing', **w):
            check_commands(chk, o.value, name, packages, inst,
                           as_root and uid != 0, w)
            chk.count('commands', len(o.value))
            chk.count('privileged', as_root and uid != 0)
            chk.count('other_real_user', real != uid)
        chk.case((name, packages, uid, opt), o.value,
                 nontrivial=len(packages) > 1)
    missing_packages(chk)


def missing_packages(chk):
    """What the built-in package managers report as missing."""
    rng = chk.rng
    from common import fresh_dir
    for i in chk.loop(150, 3000):
        name = rng.choice(['pip', 'fake'])
        inst = builtin(name)
        pool = ['foo', 'foobar', 'bar', 'Foo', 'foo-bar', 'foo.bar', 'f',
                'käse', 'o', '==', '1.0']
        if name == 'fake':
            pool += ['s/foo', 's/x', 'r/foo']
            pool[:8] = rng.sample(pool, 8)
        installed = [p for p in pool[:8] if rng.random() < .5]
        if name == 'pip':
            lines = ['%s==%s' % (p, rng.choice(['1.0', '2', '0.1.dev3']))
                     for p in installed]
            rng.shuffle(lines)
            text = '\n'.join(lines) + rng.choice(['', '\n'])
            p = write(os.path.join(BIN, 'pip'),
                      '#!/bin/sh\n[ "$*" = freeze ] || exit 1\n'
                      "cat <<'END'\n%s\nEND\n".replace(
                          'cat', '/bin/cat') % text.rstrip('\n'))
            os.chmod(p, 0o755)
        else:
            d = fresh_dir('fake')
            inst.options = {'install_dir': d}
            for sub in 'rs':
                os.mkdir(os.path.join(d, sub))
            for p in installed:
                if p != 'foo.bar':
                    write(os.path.join(d, p), '')
                else:
                    os.mkdir(os.path.join(d, p))
        packages = [rng.choice(pool) for _ in range(rng.randint(0, 7))]
        resolutions = inst.resolve({'packages': packages})
        w = dict(installer=name, installed=installed, packages=packages)
        o = quiet(inst.filter_uninstalled, list(resolutions))
        want = [p for p in packages if p not in installed]
        if chk.returns(o, 'missing-raises', 'missing packages', **w):
            chk.equal([r['package'] for r in o.value], want, 'missing',
                      'missing packages', **w)
        o = quiet(inst.is_installed, list(resolutions))
        chk.check(o.ok and bool(o.value) == (not want), 'missing',
                  lambda: 'all installed: %r' % o, **w)
        for r in resolutions[:3]:
            o = quiet(inst.is_installed, r)
            chk.check(o.ok and bool(o.value) == (r['package'] in installed),
                      'missing', lambda: '%r installed: %r' % (r, o), **w)
        chk.count('missing_queries')
        chk.case((name, installed, packages), w,
                 nontrivial=0 < len(want) < len(packages))
    if os.path.exists(os.path.join(BIN, 'pip')):
        os.unlink(os.path.join(BIN, 'pip'))


# --- P22 --------------------------------------------------------------

def p22(chk):
    from xylem.installers import InstallerPrerequisiteError
    from xylem.installers.package_manager_installer import \
        PackageManagerInstaller
    rng = chk.rng
    counter = [0]

    class Manager(PackageManagerInstaller):
        """A package manager whose state is an executable in PATH."""

        def __init__(self, name, s, exe):
            super(Manager, self).__init__(exe)
            self._name, self.s, self.log = name, s, []
            self.path = os.path.join(BIN, exe)

        name = property(lambda self: self._name)

        def filter_uninstalled(self, r):
            return r

        def get_install_commands_no_root(self, r, interactive=True,
                                         reinstall=False):
            return []

        def install_package_manager(self, os_tuple, interactive=True):
            self.log.append(('install', interactive, os_tuple))
            how = self.s['install']
            if how == 'unsupported':
                raise NotImplementedError()
            if how == 'works':
                write(self.path, '#!/bin/sh\nexit 0\n')
                os.chmod(self.path, 0o755)

        def is_package_manager_updated(self):
            if self.s['check'] == 'unsupported':
                raise NotImplementedError()
            return self.s['updated']

        def update_package_manager(self, interactive=True):
            self.log.append(('update', interactive))
            how = self.s['update']
            if how == 'unsupported':
                raise NotImplementedError()
            if how == 'works':
                self.s['updated'] = True

    for i in chk.loop(900, 12000):
        counter[0] += 1
        exe = 'mgr%d' % counter[0]
        name = 'manager-%d' % rng.randint(100, 999)
        present = rng.choice(['yes', 'yes', 'fails', 'no', 'no', 'noexec'])
        s = dict(install=rng.choice(['unsupported', 'works', 'nothing']),
                 check=rng.choice(['unsupported', 'works', 'works']),
                 updated=rng.random() < .4,
                 update=rng.choice(['unsupported', 'works', 'nothing']))
        m = Manager(name, s, exe)
        if present in ('yes', 'fails', 'noexec'):
            write(m.path, '#!/bin/sh\nexit %d\n' % (present == 'fails'))
            os.chmod(m.path, 0o644 if present == 'noexec' else 0o755)
        is_there = present in ('yes', 'fails')
        s0 = dict(s)
        fix = rng.choice([False, False, True, True, 'simulate'])
        interactive = rng.random() < .5
        os_tuple = ('ubuntu', 'trusty')
        o = quiet(m.check_general_prerequisites, os_tuple,
                  fix_unsatisfied=fix, interactive=interactive)
        w = dict(present=present, state=s0, fix=fix, interactive=interactive,
                 log=m.log, outcome=repr(o), err=o.err)
        installs = [x for x in m.log if x[0] == 'install']
        updates = [x for x in m.log if x[0] == 'update']
        if fix is not True:
            chk.equal(m.log, [], 'fixed-unasked', 'fixes', **w)
        want_fail = not is_there and (
            fix is False or fix is True and s0['install'] != 'works')
        if want_fail:
            if chk.raises(o, InstallerPrerequisiteError, 'missing-manager',
                          'manager missing', **w):
                chk.check(name in str(o.exc), 'missing-manager',
                          'manager not named: %r' % o, **w)
            chk.count('missing_reported')
        else:
            chk.returns(o, 'prerequisites', 'checking', **w)
        want = [('install', interactive, os_tuple)] \
            if fix is True and not is_there else []
        chk.equal(installs, want, 'fix-install', 'attempts to install', **w)
        chk.count('manager_installs', len(want))
        outdated = s0['check'] == 'works' and not s0['updated']
        if not want_fail:
            want = [('update', interactive)] if fix is True and outdated \
                else []
            chk.equal(updates, want, 'fix-update', 'attempts to update', **w)
            chk.count('manager_updates', len(want))
            warn = outdated and (fix is False or fix is True and
                                 s0['update'] != 'works')
            said = 'out-of-date' in o.err
            chk.check(said == warn and (not warn or name in o.err),
                      'outdated-warning', lambda: 'warning %r, expected: %r'
                      % (o.err, warn), **w)
            chk.count('outdated_warnings', warn)
            if not warn and fix is not True:
                chk.check(not o.err.strip(), 'outdated-warning',
                          lambda: 'spurious message %r' % o.err, **w)
        else:
            chk.equal(updates, [], 'fix-update', 'attempts to update', **w)
        chk.case((present, sorted(s0.items()), fix, interactive), w,
                 nontrivial=outdated or not is_there)
        if os.path.exists(m.path):
            os.unlink(m.path)
    # the built-in package managers
    for i in chk.loop(60, 300):
        name = rng.choice(['apt', 'pip', 'homebrew', 'macports', 'fake'])
        inst = builtin(name)
        fix = rng.choice([False, True, 'simulate'])
        path = os.path.join(BIN, PROGRAMS[name])
        there = rng.random() < .5
        calls = os.path.join(SCRATCH, 'work', 'calls')
        if os.path.exists(calls):
            os.unlink(calls)
        d = os.path.join(SCRATCH, 'work', 'fakedir%d' % i)
        blocked = False
        if name == 'fake':
            if rng.random() < .4:
                d = os.path.join(d, 'a', 'b c')
            inst.options = {'install_dir': d}
            if there:
                os.makedirs(d)
            elif rng.random() < .3:
                blocked = True
                os.makedirs(os.path.dirname(d), exist_ok=True)
                write(d, 'not a directory')
        elif there:
            write(path, '#!/bin/sh\necho "$@" >> %s\n' % calls)
            os.chmod(path, 0o755)
        interactive = rng.random() < .5
        o = quiet(inst.check_general_prerequisites, ('ubuntu', 'trusty'),
                  fix_unsatisfied=fix, interactive=interactive)
        w = dict(installer=name, there=there, fix=fix, outcome=repr(o),
                 interactive=interactive, blocked=blocked)
        if there or fix == 'simulate' or name == 'fake' and fix and \
                not blocked:
            chk.returns(o, 'prerequisites', 'checking', **w)
        else:
            if chk.raises(o, InstallerPrerequisiteError, 'missing-manager',
                          'manager missing', **w):
                chk.check(name in str(o.exc), 'missing-manager',
                          'manager not named: %r' % o, **w)
        if name == 'fake':
            chk.equal(os.path.isdir(d), there or fix is True and not blocked,
                      'fixed-unasked', 'installed afterwards', **w)
        elif os.path.exists(calls):
            text = open(calls).read()
            chk.check(not text.strip(), 'fixed-unasked',
                      lambda: 'package manager called with %r' % text, **w)
        o = quiet(inst.check_install_prerequisites,
                  inst.resolve({'packages': ['foo']}), ('ubuntu', 'trusty'),
                  fix_unsatisfied=fix, interactive=False)
        chk.returns(o, 'prerequisites', 'checking a package', **w)
        chk.count('builtin_managers')
        chk.case((name, fix, there))
        if os.path.exists(path):
            os.unlink(path)


# --- P23 --------------------------------------------------------------

def make_os_module():
    from xylem.os_support import OSBase

    class StubOS(OSBase):
        core = {}
        default = 'inst0'
        detected = True
        version = 'one'

        @property
        def all_names(self):
            return ['stubos']

        def get_version(self):
            return self.version

        def get_all_tuples(self, version):
            return [('stubos', version)]

        def get_core_installers(self, version, options):
            StubOS.asked = (version, list(options.features or []))
            return list(self.core[version])

        @property
        def default_installer(self):
            return self.default

        @property
        def known_versions(self):
            return ['one', 'two', 'three']

        def is_os(self):
            return self.detected
    mod = types.ModuleType('xv_stubos')
    mod.StubOS = StubOS
    mod.definition = dict(plugin_name='stubos', description='stub',
                          os=StubOS)
    return mod


def p23(chk):
    from xylem.config import ensure_config
    from xylem.installers import InstallerContext
    from xylem.config_utils import ConfigError
    rng = chk.rng
    Stub = make_stub_class()
    mod = make_os_module()
    StubOS = mod.StubOS
    add_dist('xvstubos', {'xylem.os': [('stubos', 'xv_stubos:definition')]},
             {'xv_stubos': mod})
    # every other OS plugin is disabled, so detection finds the stub
    others = ['debian', 'ubuntu', 'xubuntu', 'osx']
    pool = ['inst0', 'inst1', 'Inst1', 'inst', 'INST', 'inst-ü']
    for i in chk.loop(700, 12000):
        StubOS.core = {v: rng.sample(pool + ['ghost'], rng.randint(0, 4))
                       for v in ('one', 'two', 'three')}
        StubOS.version = rng.choice(['one', 'two', 'three'])
        names = rng.sample(pool, rng.randint(0, 6))
        additional = {n: rng.sample(['one', 'two', 'three'],
                                    rng.randint(0, 3)) for n in names}
        plugins = []
        for n in names:
            plugins.append(Stub(None, n, lambda t, n=n: t[0] == 'stubos' and
                                t[1] in additional[n]))
        history = []
        ic = None
        for step in range(rng.randint(1, 3)):
            kw = {'disabled_plugins': {'os': others + rng.sample(
                pool, rng.randint(0, 2))}}
            version = StubOS.version
            if rng.random() < .4:
                version = rng.choice(['one', 'two', 'three'])
                kw['os_override'] = 'stubos:' + version
            features = rng.sample(['f1', 'f2'], rng.randint(0, 2))
            if features:
                kw['os_options'] = {'features': features}
            configured = None
            if rng.random() < .5:
                configured = rng.sample(pool + ['ghost', 'nosuch'],
                                        rng.randint(0, 5))
                if configured and rng.random() < .2:
                    configured.append(rng.choice(configured))
                kw['core_installers'] = configured
            use = rng.random()
            if use < .3:
                kw['use_additional_installers'] = False
            elif use < .5:
                kw['use_additional_installers'] = True
            options = {}
            for n in rng.sample(pool, rng.randint(0, 4)):
                options[n] = {}
                if rng.random() < .7:
                    options[n]['stub_option'] = rng.choice(
                        [1, 'x', ['y'], {'z': True}])
                if rng.random() < .3:
                    options[n]['as_root'] = rng.random() < .5
                if rng.random() < .15:
                    options[n]['unknown_opt'] = 1
            if options:
                kw['installer_options'] = deepcopy(options)
                if not options[n] and rng.random() < .5:
                    # (as in "apt:" without anything)
                    kw['installer_options'][n] = None
            cfg = ensure_config(kw)
            before = deepcopy(dict(cfg))

            def build():
                ic = InstallerContext(config=cfg, setup_installers=False)
                ic.installer_plugins = list(plugins)
                ic.setup_installers()
                return ic
            if ic is not None and rng.random() < .5:
                # the same context is set up again
                def build(ic=ic):
                    ic.config = cfg
                    ic.setup_os()
                    ic.setup_installers()
                    return ic
                chk.count('repeated_setups')
            o = quiet(build)
            w = dict(config=kw, plugins=names, additional=additional,
                     os_core=StubOS.core, version=version, history=history)
            if not chk.returns(o, 'context-raises', 'setting up', **w):
                break
            ic = o.value
            chk.check(before == dict(cfg), 'context-config',
                      'configuration changed', **w)
            base = configured if configured is not None \
                else StubOS.core[version]
            core = [n for n in base if n in names]
            # (names given again have no effect)
            first = [n for k, n in enumerate(core) if n not in core[:k]]
            got = [x.name for x in ic.core_installers]
            chk.equal([n for k, n in enumerate(got) if n not in got[:k]],
                      first, 'core', 'core installers', **w)
            for n in base:
                if n not in names:
                    chk.check(n in o.err, 'core-report', lambda:
                              '%r is not reported in %r' % (n, o.err), **w)
                    chk.count('missing_plugins')
            add = [n for n in names if n not in core and
                   version in additional[n]]
            if kw.get('use_additional_installers') is False:
                add = []
            chk.equal(sorted(x.name for x in ic.additional_installers),
                      sorted(add), 'additional', 'additional installers', **w)
            chk.equal(list(ic.installer_names), list(
                ic.core_installer_names) + list(
                    ic.additional_installer_names), 'names', 'names', **w)
            chk.equal(list(ic.core_installer_names), got, 'names',
                      'core names', **w)
            chk.equal(ic.get_os_tuple(), ('stubos', version), 'os-tuple',
                      'OS', **w)
            chk.equal(ic.get_default_installer_name(), StubOS.default,
                      'os-tuple', 'default installer', **w)
            chk.equal(sorted(ic.get_os().options.features or []),
                      sorted(features), 'os-options', 'OS features', **w)
            if configured is None:
                chk.check(StubOS.asked[0] == version and sorted(
                    StubOS.asked[1]) == sorted(features), 'os-options',
                    lambda: 'OS was asked with %r' % (StubOS.asked,), **w)
            for p in plugins:
                want = {'as_root': False, 'stub_option': 0}
                want.update({k: v for k, v in options.get(
                    p.name, {}).items() if k != 'unknown_opt'})
                chk.check(same_data(dict(p.options), want), 'options',
                          lambda: 'options of %r are %r instead of %r' % (
                              p.name, dict(p.options), want), **w)
                if 'unknown_opt' in options.get(p.name, {}):
                    chk.check('unknown_opt' in o.err, 'options-unknown',
                              'unknown option not reported', **w)
                chk.check(ic.lookup_installer(p.name) is p, 'lookup',
                          'lookup of %r' % p.name, **w)
            chk.check(ic.lookup_installer('nosuch') is None, 'lookup',
                      'lookup of unknown installer', **w)
            history.append(kw)
            chk.count('contexts')
            chk.count('core_installers', len(core))
            chk.count('additional_installers', len(add))
            chk.case(repr((kw, names, additional, StubOS.core)), w,
                     nontrivial=len(core) + len(add) > 1)
    # wrong options, and disabled plugins among the built-in ones
    builtin_names = sorted(PROGRAMS)
    for i in chk.loop(60, 600):
        disabled = rng.sample(builtin_names + ['nosuch'], rng.randint(0, 4))
        kw = {'os_override': rng.choice(['ubuntu:trusty', 'osx:lion']),
              'disabled_plugins': {'installer': disabled}}
        for other in ('os', 'spec'):
            # (plugins of other kinds that are named like installers)
            if rng.random() < .3:
                kw['disabled_plugins'][other] = rng.sample(builtin_names, 2)
        o = quiet(InstallerContext, config=ensure_config(kw))
        if chk.returns(o, 'context-raises', 'context', config=kw):
            ic = o.value
            for n in builtin_names:
                there = ic.lookup_installer(n) is not None
                chk.equal(there, n not in disabled, 'disabled',
                          '%r is loaded' % n, config=kw)
                if n in disabled:
                    chk.check(n not in ic.installer_names, 'disabled',
                              '%r is used' % n, config=kw)
            chk.equal('pip' in ic.installer_names, 'pip' not in disabled,
                      'additional', 'pip is used', config=kw)
        n = rng.choice(builtin_names)
        bad = rng.choice([{'as_root': 'maybe'}, {'as_root': 1},
                          {'as_root': ['x']}])
        kw = {'os_override': 'ubuntu:trusty', 'installer_options': {n: bad}}
        o = quiet(InstallerContext, config=ensure_config(kw))
        if chk.raises(o, ConfigError, 'options-wrong', 'wrong option',
                      config=kw):
            chk.check(n in str(o.exc), 'options-wrong',
                      'installer not named: %r' % o, config=kw)
        chk.count('builtin_contexts')
        chk.case(('builtin', repr(kw), disabled))
