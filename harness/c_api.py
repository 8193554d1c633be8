"""P43: the Python API gives the same answers however it is called."""
import copy
import os

import faults
import model
from common import SCRATCH, quiet, same_data, tree, write
from rules_common import Env
from stubs import plain

OSV = {'ubuntu': ['precise', 'trusty'], 'debian': ['wheezy', 'jessie'],
       'osx': ['lion', 'mavericks']}
DEF = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew'}
# what the real plugins of this system use
INSTALLERS = ['apt', 'pip', 'homebrew', 'macports', 'fake']
WRONG = [[], [1], 'text', '', 3, 0, 1.5, True, False, (), object(), set(),
         b'bytes']


class World(object):
    """Sources, an OS and a configuration."""

    def __init__(self, rng, name, tag):
        self.rng = rng
        self.env = env = Env(name)
        self.rules = []
        n = 0
        for f in sorted({'s%d.yaml' % rng.randint(0, 99)
                         for _ in range(rng.randint(1, 2))}):
            urls = []
            for _ in range(rng.randint(1, 2)):
                rules = model.gen_rules(
                    rng, model.Tags('%s%d_' % (tag, n)),
                    keys=rng.sample(model.KEYS, rng.randint(2, 7)),
                    oss=list(OSV), versions=OSV,
                    defaults=DEF)
                for od in rules.values():
                    for vd in od.values():
                        for d in vd.values():
                            for inst, rule in d.items():
                                if 'options' in rule and (
                                        inst != 'fake' or rng.random() < .7):
                                    del rule['options']
                                rule.pop('id', None)
                urls.append(env.write_rules('r%d.yaml' % n, rules))
                self.rules.append(rules)
                n += 1
            env.write_sources(f, urls)
        self.os = rng.choice(list(OSV))
        self.version = rng.choice(OSV[self.os])
        self.places = dict(sources_dir=env.sources, cache_dir=env.cache)
        self.system = dict(os_override='%s:%s' % (self.os, self.version))
        # (of those for OS X, one has no plugin and is reported)
        if self.os == 'osx' or rng.random() < .6:
            self.system['core_installers'] = rng.sample(
                INSTALLERS, rng.choice([0, 1, 2, 3, 4, 5]))
        if rng.random() < .4:
            self.system['use_additional_installers'] = rng.random() < .5
        if rng.random() < .3:
            # not the core ones: building a context complains about those
            self.system['disabled_plugins'] = {'installer': [
                i for i in rng.sample(INSTALLERS, rng.randint(0, 2))
                if i not in self.system.get(
                    'core_installers', ['apt', 'homebrew', 'pip'])]}
        self.system['installer_options'] = {
            i: {'as_root': rng.random() < .5} for i in INSTALLERS
            if rng.random() < .7}
        self.pins = {}
        if rng.random() < .6:
            for k in rng.sample(model.KEYS, rng.randint(1, 4)):
                self.pins.setdefault(rng.choice(INSTALLERS + ['noplugin']),
                                     []).append(k)

    def found(self, key):
        return model.overlay([model.lookup(
            r, key, self.os, self.version, DEF[self.os])
            for r in self.rules])

    def defined(self):
        return sorted({k for r in self.rules for k in r
                       if model.applicable(r, k, self.os, self.version)})


class Way(object):
    """One way to pass everything."""

    def __init__(self, rng, main, decoy, op):
        from xylem.config import ensure_config
        self.given = {}
        where, system = main, main
        choices = dict(sc=rng.random() < .4, ic=rng.random() < .4,
                       db=rng.random() < .3)
        if op in ('update', 'dry'):
            choices['ic'] = choices['db'] = False
        if op in ('lookup', 'compact'):
            choices['db'] = False
        # what is passed decides, whatever the configuration says
        if (choices['sc'] or choices['db']) and rng.random() < .7:
            where = decoy
        if choices['ic'] and rng.random() < .7:
            system = decoy
        self.data = dict(where.places, install_from=main.pins)
        self.data.update(system.system)
        self.kind = rng.choice(['dict', 'config', 'global'])
        self.choices = choices
        self.moved = where is decoy, system is decoy
        self.decoy, self.main = decoy, main
        self.as_given = copy.deepcopy(self.data)

    def prepare(self, pool):
        """Set up in this process; keyword arguments for the call."""
        from xylem.config import ensure_config, set_config
        set_config(ensure_config(dict(self.decoy.places,
                                      **self.decoy.system)))
        kw = {}
        if self.kind == 'dict':
            kw['config'] = self.data
        elif self.kind == 'config':
            kw['config'] = ensure_config(self.data)
        else:
            set_config(ensure_config(self.data))
            if self.main.rng.random() < .5:
                kw['config'] = None
        if self.choices['sc']:
            kw['sources_context'] = pool['sc']
        if self.choices['ic']:
            kw['installer_context'] = pool['ic']
        if self.choices['db']:
            kw['database'] = pool['db']
        return kw

    def __repr__(self):
        return 'config as %s, passed %s, decoy config of (sources, OS) %r' \
            % (self.kind, [k for k, v in self.choices.items() if v],
               self.moved)


def make_pool(main):
    """Contexts and a database of the world."""
    from xylem.config import ensure_config, get_config, set_config
    from xylem.installers import InstallerContext
    from xylem.os_support import OSSupport
    from xylem.sources import RulesDatabase, SourcesContext
    config = ensure_config(dict(main.places, install_from=main.pins,
                                **main.system))
    how = main.rng.choice(['config', 'global', 'os'])
    if how == 'global':
        # everything is built from the global configuration
        saved = get_config()
        set_config(config)
        try:
            sc, ic = SourcesContext(), InstallerContext()
        finally:
            set_config(saved)
    else:
        sc = SourcesContext(config)
        support = None
        if how == 'os':
            support = OSSupport(config.disabled_plugins.os)
            if config.os_override is None:
                support.detect_os()
            else:
                support.override_os(config.os_override)
            support.current_os.options = config.os_options
            ic = InstallerContext(config, os_support=support)
        else:
            ic = InstallerContext(config)
    db = RulesDatabase(sc)
    db.load_from_cache()
    return dict(sc=sc, ic=ic, db=db)


def bare(x):
    """Plain copies of results, for other processes."""
    if isinstance(x, dict):
        return {str(k): bare(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(map(bare, x))
    if isinstance(x, list):
        return [bare(v) for v in x]
    if isinstance(x, BaseException):
        return (type(x).__name__, str(x))
    if isinstance(x, str):
        return str(x)
    return x


def state(pool):
    """What must not change."""
    ic = pool['ic']
    return bare(dict(
        data=[s.data for s in pool['db'].sources],
        core=ic.core_installer_names, installers=ic.installer_names,
        known=ic.installer_plugin_names,
        options={i.name: dict(i.options) for i in ic.installer_plugins},
        os=ic.get_os_tuple(), config=dict(ic.config),
        places=[pool['sc'].sources_dir, pool['sc'].cache_dir]))


def call(op, request, kw):
    from xylem.install import install
    from xylem.lookup import lookup
    from xylem.resolve import resolve
    from xylem.update import update
    if op == 'lookup':
        kw.pop('database', None)
        return lookup(request, **kw)
    if op == 'compact':
        return lookup(request, compact=True, **kw)
    if op == 'resolve':
        return resolve(request, **kw)
    if op == 'all':
        return resolve(request, all_keys=True, **kw)
    if op == 'install':
        return install(request, simulate=True, interactive=False,
                       reinstall=True, continue_on_error=True, **kw)
    if op == 'dry':
        return update(dry_run=True, **kw)
    return update(**kw)


def result(o):
    """Of a call, what the ways must agree on."""
    if o.ok:
        return ('returned', bare(o.value), plain(o.out), plain(o.err))
    return ('raised', bare(o.exc), plain(o.out), plain(o.err))


def script(chk, main, decoy, ops):
    """Run (op, request, way) in this process; results and changes."""
    pool = make_pool(main)
    first = state(pool)
    out = []
    from xylem.config import get_config
    for op, request, way in ops:
        kw = way.prepare(pool)
        asked = copy.deepcopy(request)
        configs = [get_config(), kw.get('config')]
        were = bare(copy.deepcopy(configs))
        o = quiet(call, op, request, kw)
        changed = []
        if not same_data(request, asked):
            changed.append(('keys', bare(asked), bare(request)))
        if way.kind == 'dict' and not same_data(way.data, way.as_given):
            changed.append(('config', way.as_given, bare(way.data)))
        if not same_data(bare(configs), were):
            changed.append(('config', were, bare(configs)))
        if get_config() is not configs[0]:
            changed.append(('global config', configs[0], get_config()))
        now = state(pool)
        for k in first:
            if not same_data(first[k], now[k]):
                changed.append((k, first[k], now[k]))
        out.append((result(o), changed))
    return out


def expanded(short, default):
    """What the short form of an installer dictionary stands for."""
    if not isinstance(short, dict):
        short = {default: short}
    res = {}
    for name, rule in short.items():
        if isinstance(rule, str):
            rule = [rule]
        if not isinstance(rule, dict):
            rule = {'packages': rule or []}
        res[default if name == 'default_installer' else name] = rule
    return res


def package_managers():
    """Stand-ins, so that simulated installations get to the commands."""
    for name in ('apt-get', 'apt-cache', 'dpkg', 'dpkg-query', 'pip', 'brew',
                 'port'):
        p = os.path.join(SCRATCH, 'bin', name)
        if not os.path.lexists(p):
            write(p, '#!/bin/sh\nexit 0\n')
            os.chmod(p, 0o755)


def p43(chk):
    rng = chk.rng
    package_managers()
    for i in chk.loop(40, 1500):
        one(chk, rng)
        if i % 4 == 0:
            wrong(chk, rng)


def one(chk, rng):
    main, decoy = World(rng, 'api', 't'), World(rng, 'decoy', 'd')
    for w in (main, decoy):
        o = quiet(w.env.updated)
        if not chk.returns(o, 'setup', 'updating'):
            return
    requests = []
    for _ in range(5):
        op = rng.choice(['lookup', 'compact', 'resolve', 'all', 'install',
                         'install', 'dry', 'update'])
        if op in ('lookup', 'compact'):
            r = rng.choice(model.KEYS + ['nosuchkey'])
            some = main.defined()
            if op == 'compact' and some:
                alone = [k for k in some if len(main.found(k)) == 1]
                r = rng.choice(alone or some)
        elif op in ('dry', 'update'):
            r = None
        else:
            pool = model.KEYS + ['nosuchkey']
            if rng.random() < .7:
                pool = main.defined() or pool
            r = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
        requests.append((op, r))
    ops, index = [], []
    for n, (op, r) in enumerate(requests):
        for _ in range(rng.randint(2, 4)):
            ops.append((op, copy.deepcopy(r), Way(rng, main, decoy, op)))
            index.append(n)
    order = list(range(len(ops)))
    rng.shuffle(order)
    ops, index = [ops[k] for k in order], [index[k] for k in order]
    snapshot = tree(decoy.env.root)
    r = faults.run(script, chk, main, decoy, ops)
    wit = dict(config=dict(main.places, install_from=main.pins,
                           **main.system),
               ops=[(op, q, repr(w)) for op, q, w in ops])
    if not chk.check(r.status == 'ok', 'lost', '%r' % r, **wit):
        return
    seen = {}
    for (op, q, way), n, (res, changed) in zip(ops, index, r.value):
        what = '%s %r (%r)' % (op, q, way)
        chk.equal(changed, [], 'changed', 'changes by ' + what, **wit)
        if n in seen:
            chk.check(same_data(res, seen[n][1]), 'differs', '%s gives %r, '
                      'but %s gave %r' % (what, res, seen[n][0],
                                          seen[n][1]), **wit)
            chk.count('comparisons')
            chk.count('op_' + op)
            chk.count('commands_compared', op == 'install' and
                      'installation commands:' in str(res[2]))
        else:
            seen[n] = what, res
        # and against what is documented
        if op == 'compact':
            if chk.equal(res[0], 'returned', 'compact', what, result=res):
                full = expanded(res[1], DEF[main.os])
                chk.check(same_data(full, main.found(q)), 'compact',
                          '%s gives %r, short for %r, expected %r' % (
                              what, res[1], full, main.found(q)), **wit)
                chk.count('compact_alone', isinstance(res[1], list))
        elif op == 'lookup':
            if chk.equal(res[0], 'returned', 'lookup', what, result=res):
                chk.check(same_data(res[1], main.found(q)), 'lookup',
                          '%s gives %r, expected %r' % (
                              what, res[1], main.found(q)), **wit)
        elif op in ('resolve', 'all'):
            if chk.equal(res[0], 'returned', 'resolve', what, result=res):
                want = set(q) | (set(main.defined()) if op == 'all'
                                 else set())
                got = [k for part in res[1] for k, _ in part]
                chk.equal(sorted(got), sorted(want), 'resolve',
                          'keys in the result of ' + what, **wit)
                chk.check(not any('could not find' in e[1] for k, e in
                                  res[1][1] if main.found(k)), 'resolve',
                          '%s finds no rule: %r' % (what, res[1]), **wit)
        elif op in ('update', 'dry'):
            chk.equal(res[:2], ('returned', None), 'update', what,
                      result=res)
            for k in range(len(main.rules)):
                chk.check(main.env.url('r%d.yaml' % k) in res[2] + res[3],
                          'update', 'source not mentioned by %s: %r' % (
                              what, res), **wit)
        chk.case((op, q, way.kind, tuple(way.choices.items()), way.moved,
                  tuple(main.system.items())), sample=what,
                 nontrivial=any(way.choices.values()))
        for k, v in way.choices.items():
            if v:
                chk.count('passed_' + k)
        chk.count('config_' + way.kind)
    chk.equal(tree(decoy.env.root), snapshot, 'decoy', 'files of sources '
              'that were not meant', **wit)


def wrong(chk, rng):
    """Arguments of wrong types."""
    from xylem.config import ensure_config
    from xylem.config import get_config, set_config
    from xylem.installers import InstallerContext
    from xylem.sources import SourcesContext
    w = World(rng, 'wrong', 'w')
    if not chk.returns(quiet(w.env.updated), 'setup', 'updating'):
        return
    config = ensure_config(dict(w.places, **w.system))
    saved = get_config()
    set_config(config)
    before = tree(w.env.root)
    try:
        for what in ('config', 'sources_context', 'installer_context'):
            for op in ('lookup', 'resolve', 'install', 'all', 'update'):
                if what != 'config' and op in ('lookup', 'update'):
                    continue
                bad = rng.choice(WRONG + [config] if what != 'config' else
                                 WRONG + [SourcesContext(config)])
                kw = {} if what == 'config' else {'config': config}
                kw[what] = bad
                if what == 'sources_context' and rng.random() < .5:
                    kw['installer_context'] = quiet(
                        InstallerContext, config).value
                o = quiet(call, op, 'foo' if op == 'lookup' else ['foo'],
                          kw)
                if chk.raises(o, ValueError, 'wrong-type', '%s with %s=%r' % (
                        op, what, bad)):
                    chk.check(type(bad).__name__ in str(o.exc),
                              'wrong-type', 'message for %s=%r does not '
                              'name its type: %s' % (what, bad, o.exc))
                chk.count('wrong_types')
    finally:
        set_config(saved)
    chk.equal(tree(w.env.root), before, 'wrong-type', 'files after calls '
              'with wrong arguments')
