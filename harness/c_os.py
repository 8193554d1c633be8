"""P24, P25: operating systems."""
import types

from common import deepcopy, observe, quiet, same_data, short
from plugdist import add_dist

BUILTIN = ['debian', 'ubuntu', 'xubuntu', 'osx']
SLOTS = 7


def make_module():
    """OS plugins whose names, versions and detection can be set."""
    from xylem.os_support import OSBase
    mod = types.ModuleType('xv_oses')
    mod.classes = []
    for k in range(SLOTS):
        class Slot(OSBase):
            names = ['slot%d' % k]
            detected = False
            version = 'v1'
            versions = ['v1']
            default = None
            extra = {}

            def __init__(self):
                OSBase.__init__(self)
                for n in sorted(self.extra):
                    self.options_description.add(n, **self.extra[n])

            @property
            def all_names(self):
                return list(self.names)

            def get_version(self):
                from xylem.os_support import UnsupportedOSVersionError
                if self.version is None:
                    raise UnsupportedOSVersionError('not on this OS')
                return self.version

            def get_all_tuples(self, version):
                return [(self.names[0], version)] + [
                    (n, None) for n in self.names[1:]]

            def get_core_installers(self, version, options):
                return ['inst-' + self.names[0], 'inst-%s' % version]

            @property
            def default_installer(self):
                return self.default

            @property
            def known_versions(self):
                return list(self.versions)

            def is_os(self):
                return self.detected
        mod.classes.append(Slot)
        setattr(mod, 'd%d' % k, dict(plugin_name='plugin%d' % k,
                                     description='stub', os=Slot))
    return mod


def install_slots():
    mod = make_module()
    add_dist('xvoses', {'xylem.os': [
        ('e%d' % k, 'xv_oses:d%d' % k) for k in range(SLOTS)]},
        {'xv_oses': mod})
    return mod.classes


def hierarchy(rng, n):
    """Chains of names: each OS and the ones it is derived from."""
    chains = []
    for k in range(n):
        name = 'os%d' % k
        if chains and rng.random() < .65:
            parent = rng.choice(chains)
            chain = [name] + parent
        else:
            chain = [name] + (['base'] if rng.random() < .3 else [])
        chains.append(chain)
    return chains


def p24(chk):
    from xylem.os_support import OSSupport, UnsupportedOSError
    rng = chk.rng
    classes = install_slots()
    for i in chk.loop(700, 20000):
        n = rng.randint(1, SLOTS)
        chains = hierarchy(rng, n)
        p = rng.choice([.15, .5, .9])
        order = list(range(n))
        rng.shuffle(order)       # derivatives may come before parents
        for slot, k in enumerate(order):
            classes[slot].names = chains[k]
            classes[slot].detected = rng.random() < p
        for slot in range(n, SLOTS):
            classes[slot].names = ['unused%d' % slot]
            classes[slot].detected = False
        disabled = BUILTIN + ['plugin%d' % s for s in range(SLOTS)
                              if rng.random() < .15]
        if rng.random() < .3:
            # no plugin names: they have no effect
            disabled += ['os0', 'PLUGIN%d' % rng.randrange(SLOTS)]
        o = quiet(OSSupport, disabled)
        if not chk.returns(o, 'os-load', 'loading OS plugins'):
            continue
        support = o.value
        enabled = {classes[s].names[0]: classes[s] for s in range(SLOTS)
                   if 'plugin%d' % s not in disabled}
        chk.equal(sorted(support.os_plugin_names), sorted(enabled),
                  'os-load', 'OS plugins loaded', disabled=disabled)
        plugins = list(support.os_plugins)
        D = [x for x in enabled if enabled[x].detected]
        top = [x for x in D if not any(
            x in enabled[y].names[1:] for y in D)]
        for rep in range(4):
            rng.shuffle(plugins)
            support = OSSupport(disabled)
            support.os_plugins = list(plugins)
            lazily = rng.random() < .4
            if lazily:
                o = quiet(lambda: support.current_os)
            else:
                o = quiet(support.detect_os)
            w = dict(order=[x.name for x in plugins], detecting=D,
                     names={x: enabled[x].names for x in enabled},
                     stderr=o.err)
            if not D:
                chk.raises(o, UnsupportedOSError, 'os-undetected',
                           'nothing detected', **w)
                chk.count('nothing_detected')
                continue
            if not chk.returns(o, 'os-detect', 'detecting', **w):
                continue
            got = support.current_os.name
            chk.check(got in top, 'os-detect', lambda: 'detected %r instead '
                      'of one of %r' % (got, top), **w)
            chk.check(bool(o.err.strip()) == (len(top) > 1),
                      'os-ambiguous', lambda: 'warning is %r' % o.err, **w)
            chk.equal(support.current_os.get_tuple(),
                      (got, enabled[got].version), 'os-detect', 'tuple', **w)
            # once the OS is known it does not change by itself
            for x in enabled.values():
                x.detected = not x.detected
            chk.equal(quiet(lambda: support.current_os.name).value, got,
                      'os-changed', 'current OS later', **w)
            for x in enabled.values():
                x.detected = not x.detected
            chk.count('ambiguous' if len(top) > 1 else 'unique')
            if len(top) == 1 and len(D) > 1:
                chk.count('derived_detected')
        chk.case((sorted(D), sorted(map(repr, chains)), sorted(disabled)), w,
                 nontrivial=len(D) > 1)


def p25(chk):
    from xylem.config import ensure_config
    from xylem.installers import InstallerContext
    from xylem.os_support import (OSSupport, UnsupportedOSError,
                                  UnsupportedOSVersionError)
    from xylem.exception import XylemError
    rng = chk.rng
    classes = install_slots()
    pool = ['one', 'two', 'three', '10.9', 'mountain lion', 'ä', 'v', 'Two',
            '10.10', '9', '10', '10.9.1', '4.2', 'two2', '010', 'vv',
            'sid', '0']
    for i in chk.loop(400, 8000):
        number = rng.sample(range(SLOTS), SLOTS)
        for c, s in zip(classes, number):
            c.names = ['os%s%d' % ('X' * (s % 3 == 2), s)] + ['os%d' % x for x in range(s)
                                      if rng.random() < .3]
            c.versions = rng.sample(pool, rng.choice(
                [1, 2, 3, 4, 5, 6, 7, 12, 18, len(pool)]))
            if rng.random() < .3:
                c.versions.insert(0, rng.choice(['a:b', '1:2.0', ':x']))
            c.version = rng.choice([None, 'detected', rng.choice(pool)])
            c.detected = s == 0
            c.default = rng.choice([None, 'apt', 'x'])
        support = quiet(OSSupport).value
        current = None
        if rng.random() < .5:
            if rng.random() < .5:
                quiet(support.detect_os)
                current = (support.current_os.name, 'any')
        known = {o.name: o for o in support.os_plugins}
        want = dict(debian='apt', ubuntu='apt', xubuntu='apt',
                    osx='homebrew', **{c.names[0]: c.default
                                       for c in classes})
        chk.equal(support.get_default_installer_names(), want,
                  'override-installers', 'default installers of all OSs')
        state = None
        for step in range(rng.randint(1, 8)):
            name = rng.choice(list(known) + ['nosuchos', '', 'plugin0',
                                             'Ubuntu'])
            if name and rng.random() < .1:
                # almost the name of an OS
                name = rng.choice([
                    name.upper(), name.lower(), name.capitalize(), name + ' ',
                    ' ' + name, name[:-1], name + '0'])
            versions = known[name].known_versions if name in known else pool
            version = rng.choice(list(versions) * 2 + ['nosuch', '', None] +
                                 pool)
            if version and rng.random() < .15:
                # almost the name of a version
                version = rng.choice([
                    version.upper(), version.capitalize(), ' ' + version,
                    version + ' ', version[:-1], version + '.0'])
            stub = name.startswith('os') and name != 'osx'
            before = None
            if state is not None:
                before = (support.current_os.name,
                          support.current_os.get_version())
            o = quiet(support.override_os, (name, version))
            w = dict(override=(name, version), outcome=repr(o),
                     known={k: known[k].known_versions for k in known})
            if name not in known:
                chk.raises(o, UnsupportedOSError, 'override-unknown',
                           'unknown OS', **w)
                ok = False
            elif version is None:
                if stub and known[name].version is not None:
                    ok = chk.returns(o, 'override', 'overriding', **w)
                    version = known[name].version
                elif stub:
                    chk.raises(o, XylemError, 'override-undetected',
                               'version cannot be detected', **w)
                    ok = False
                else:
                    # depends on the machine this runs on
                    chk.check(o.ok or isinstance(o.exc, XylemError),
                              'override-undetected', '%r' % o, **w)
                    ok = o.ok
                    if ok:
                        version = support.current_os.get_version()
                chk.count('versions_detected', ok)
            elif version not in versions:
                chk.raises(o, UnsupportedOSVersionError,
                           'override-version', 'unknown version', **w)
                ok = False
            else:
                ok = chk.returns(o, 'override', 'overriding', **w)
            if not ok:
                chk.count('overrides_rejected')
                if before:
                    now = (support.current_os.name,
                           support.current_os.get_version())
                    chk.equal(now, before, 'override-lost', 'current OS', **w)
                    chk.count('kept_after_error')
                continue
            chk.count('overrides')
            state = (name, version)
            cur = support.current_os
            plugin = known[name]
            chk.equal(cur.get_tuple(), state, 'override-tuple', 'tuple', **w)
            chk.equal((cur.name, cur.get_version()), state, 'override-tuple',
                      'name and version', **w)
            if version in versions:
                tuples = cur.get_all_tuples(version)
                chk.equal(tuples[0], state, 'override-parents',
                          'first tuple', **w)
                chk.equal([t[0] for t in tuples], list(plugin.all_names),
                          'override-parents', 'names', **w)
                chk.equal(tuples, plugin.get_all_tuples(version),
                          'override-parents', 'tuples', **w)
            # also asked about another version
            other = rng.choice(list(versions))
            chk.equal(cur.get_all_tuples(other), plugin.get_all_tuples(
                other), 'override-parents', 'tuples of %r' % other, **w)
            chk.equal(cur.get_all_tuples(other)[0], (name, other),
                      'override-parents', 'first tuple of %r' % other, **w)
            chk.equal(list(cur.all_names), list(plugin.all_names),
                      'override-parents', 'names', **w)
            chk.equal(cur.default_installer, plugin.default_installer,
                      'override-installers', 'default installer', **w)
            chk.equal(list(cur.get_core_installers(version, cur.options)),
                      list(plugin.get_core_installers(version, cur.options)),
                      'override-installers', 'core installers', **w)
            chk.equal(list(cur.known_versions), list(plugin.known_versions),
                      'override-versions', 'known versions', **w)
            chk.check(cur.is_os(), 'override-tuple', 'is not the OS', **w)
            if rng.random() < .2:
                quiet(support.override_os, None)
                chk.equal(support.current_os.get_tuple(), state,
                          'override-none', 'after overriding nothing')
        # version order
        for name in rng.sample(sorted(known), 3):
            versions = list(known[name].known_versions)
            less = known[name].version_less_fn
            for _ in range(12):
                a, b = rng.choice(versions), rng.choice(versions)
                o = observe(less, a, b)
                if chk.returns(o, 'order', 'comparing %r %r' % (a, b)):
                    chk.equal(bool(o.value),
                              versions.index(a) < versions.index(b),
                              'order', '%r less than %r' % (a, b),
                              versions=versions)
                c = rng.choice(['nosuch', '', None, 'NOSUCH'])
                for x, y in ((a, c), (c, a), (c, c)):
                    chk.raises(observe(less, x, y),
                               UnsupportedOSVersionError, 'order',
                               'comparing %r %r' % (x, y))
                chk.count('comparisons')
        # as text in the configuration
        name = rng.choice([n for n in known if n.startswith('os')])
        version = rng.choice(list(known[name].known_versions) * 3 +
                             ['nosuch', None, ''])
        features = rng.choice([None, None, [], ['f1'], ['f1', 'f 2'],
                               ['f&3', 'f1'], ['f:1']])
        other = rng.choice([None, ['g1'], []])

        def pad(x):
            return rng.choice(['', '', ' ', '  ']) + x + rng.choice(
                ['', '', ' '])
        text = pad(name)
        if version is not None:
            text += ':' + pad(version)
        if features is not None:
            text += '&' + ','.join(map(pad, features))
        kw = {'os_override': text}
        if other is not None:
            kw['os_options'] = {'features': list(other)}
        o = quiet(lambda: InstallerContext(config=ensure_config(kw)))
        w = dict(config=kw, outcome=repr(o))
        fails = version in ('nosuch', '') or version is None and (
            name == 'osx' or known[name].version is None)
        if name == 'osx' and version is None:
            pass
        elif fails:
            chk.raises(o, XylemError, 'override-text', 'overriding', **w)
        elif chk.returns(o, 'override-text', 'overriding', **w):
            want = (name, version if version is not None
                    else known[name].version)
            chk.equal(o.value.get_os_tuple(), want, 'override-text',
                      'tuple', **w)
            chk.equal(o.value.get_os_string(), '%s:%s' % want,
                      'override-text', 'printed', **w)
            chk.equal(list(o.value.get_os().options.features or []),
                      features if features is not None else other or [],
                      'override-text', 'features', **w)
            chk.count('overrides_as_text')
        chk.case((text, [c.versions for c in classes]), w)
    os_options(chk, classes)


def os_options(chk, classes):
    """Options of OS plugins, also through overrides."""
    from xylem.config_utils import (Any, Boolean, ConfigValueError, List,
                                    String)
    from xylem.os_support import OSSupport
    rng = chk.rng
    S = String

    def overridden(support, name, version):
        support.override_os((name, version))
        return support.current_os
    kinds = {'text': (S, ['x', 'y z', 'ä', ''], [7, ['x'], True]),
             'flag': (Boolean, [True, False], ['yes', 1, []]),
             'list': (List(S), [[], ['a'], ['b', 'a']], ['a', [7], {'a': 1}]),
             'any': (Any, [1, [2, None], {'k': 'v'}], [])}
    for i in chk.loop(60, 2000):
        types_ = {}
        for c in classes:
            c.names = ['os%d' % classes.index(c)]
            c.version, c.versions = 'v1', ['v1', 'v2']
            c.extra = {}
            kind = {'features': 'list'}
            for n in rng.sample(['mirror', 'use-x', 'parts', 'z'],
                                rng.randint(0, 3)):
                kind[n] = rng.choice(sorted(kinds))
                c.extra[n] = dict(type=kinds[kind[n]][0])
                if rng.random() < .6:
                    c.extra[n]['default'] = deepcopy(
                        rng.choice(kinds[kind[n]][1]))
            types_[c.names[0]] = kind
        o = quiet(OSSupport)
        support = o.value
        if not chk.equal(sorted(n for n in support.os_plugin_names
                                if n in types_), sorted(types_), 'os-load',
                         'OS plugins loaded', stderr=o.err,
                         extra=[c.extra for c in classes]):
            continue
        state = {}
        for name in types_:
            extra = classes[int(name[2:])].extra
            state[name] = {n: extra[n].get('default') if n in extra else []
                           for n in types_[name]}
        for step in range(rng.randint(1, 10)):
            name = rng.choice(sorted(types_))
            target = support.lookup_os(name)
            through = rng.random() < .6
            if through:
                target = overridden(support, name,
                                    rng.choice(['v1', 'v2', None]))
                chk.equal([bool(target.version_less_fn(*x)) for x in (
                    ('v1', 'v2'), ('v2', 'v1'), ('v1', 'v1'))],
                    [True, False, False], 'override-versions', 'order')
            value, want, bad, unknown = {}, {}, None, []
            for n, kind in types_[name].items():
                extra = classes[int(name[2:])].extra
                want[n] = extra[n].get('default') if n in extra else []
                r = rng.random()
                if r < .5:
                    value[n] = deepcopy(rng.choice(kinds[kind][1]))
                    want[n] = value[n]
                elif r < .58 and kinds[kind][2]:
                    bad = n
                    value[n] = deepcopy(rng.choice(kinds[kind][2]))
            if rng.random() < .3:
                unknown = rng.sample(['nope', 'Features', 'mirrors'],
                                     rng.randint(1, 2))
                for n in unknown:
                    value[n] = rng.choice([None, 1, 'x'])
            items = list(value.items())
            rng.shuffle(items)
            value = dict(items)
            saved = deepcopy(value)

            def assign():
                target.options = value
            o = quiet(assign)
            w = dict(os=name, value=saved, outcome=repr(o), stderr=o.err,
                     override=through)
            chk.check(same_data(value, saved), 'os-options',
                      'the assigned value changed', **w)
            if bad:
                if chk.raises(o, ConfigValueError, 'os-options',
                              'invalid %s' % bad, **w):
                    chk.check("'%s'" % name in str(o.exc), 'os-options',
                              'message does not name the OS', **w)
                chk.count('os_options_rejected')
            elif chk.returns(o, 'os-options', 'valid options', **w):
                state[name] = want
                chk.equal(bool(o.err.strip()), bool(unknown), 'os-options',
                          'warning for unknown options', **w)
                for n in unknown:
                    chk.check(n in o.err and name in o.err, 'os-options',
                              'warning does not name %r' % n, **w)
                chk.count('os_options_set')
            # the OS has the options of the last valid assignment, and so
            # have all overrides of it; others are not affected
            for n in types_:
                for x in (support.lookup_os(n),
                          overridden(support, n, 'v2')):
                    chk.check(same_data(dict(x.options), state[n]),
                              'os-options', lambda: 'options of %s are %r '
                              'instead of %r' % (n, x.options, state[n]),
                              assigned=name, **w)
        chk.case((types_, state), state)
    for c in classes:
        c.extra = {}
