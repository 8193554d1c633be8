"""P15-P19: resolving keys and installing."""
import os
import random

import model
from common import (PY, SCRATCH, captured, deepcopy, fresh_dir, observe,
                    quiet, same_data, short, write)
from rules_common import Env, StubContext, cli, dump
from stubs import (STYLES, Machine, commands, make_context, make_stub_class,
                   plain)

OSV = {'ubuntu': ['lucid', 'precise', 'trusty'],
       'debian': ['wheezy', 'jessie'],
       'osx': ['lion', 'mountain lion', 'mavericks']}
DEF = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew'}


# --- P15, P16: resolving ----------------------------------------------

class ResolveWorld(object):
    """Random sources, OS, installers and configuration."""

    def __init__(self, rng, Stub):
        self.env = env = Env('res')
        self.sources = []
        names = sorted({'s%d.yaml' % rng.randint(0, 99)
                        for _ in range(rng.randint(1, 3))})
        for n, name in enumerate(names):
            urls = []
            for j in range(rng.randint(1, 2)):
                rules = model.gen_rules(
                    rng, model.Tags('t%d%d_' % (n, j)),
                    keys=rng.sample(model.KEYS, rng.randint(1, 6)),
                    oss=list(OSV), versions=OSV, defaults=DEF)
                for od in rules.values():
                    for vd in od.values():
                        for d in vd.values():
                            for inst, rule in d.items():
                                if rng.random() < .06:
                                    rule['options'] = 'unresolvable'
                                elif rng.random() < .05:
                                    d[inst] = {}    # nothing to install
                urls.append(env.write_rules('r%d_%d.yaml' % (n, j), rules))
                self.sources.append(rules)
            env.write_sources(name, urls)
        self.os = rng.choice(list(OSV))
        self.version = rng.choice(OSV[self.os])
        self.machine = None
        installers = rng.sample(model.INSTALLERS, rng.randint(2, 6))
        if DEF[self.os] not in installers and rng.random() < .7:
            installers.append(DEF[self.os])
        self.plugins = installers
        self.additional = set(rng.sample(
            installers, rng.randint(0, len(installers))))
        core = rng.sample(installers, rng.randint(0, len(installers)))
        if rng.random() < .2:
            core.insert(rng.randint(0, len(core)), 'noplugin')
        if core and rng.random() < .2:
            core.append(rng.choice(core))       # again, to no effect
        self.kw = {'os_override': '%s:%s' % (self.os, self.version)}
        if rng.random() < .8:
            self.kw['core_installers'] = core
            self.core = [c for c in core if c in installers]
        else:
            self.core = [c for c in {'osx': ['homebrew', 'pip', 'gem']}.get(
                self.os, ['apt']) if c in installers]
        self.use_additional = rng.random() < .8
        if not self.use_additional:
            self.kw['use_additional_installers'] = False
        self.pins, self.pinned_again = {}, {}
        if rng.random() < .5:
            keys = rng.sample(model.KEYS, rng.randint(1, 6))
            pins = {}
            for k in keys:
                inst = rng.choice(installers + ['noplugin'] +
                                  model.INSTALLERS)
                pins.setdefault(inst, []).append(k)
                if rng.random() < .25:
                    # pinned again
                    inst = rng.choice(installers + ['noplugin'])
                    if k not in pins.setdefault(inst, []):
                        pins[inst].insert(rng.randint(0, len(pins[inst])), k)
            self.set_pins(pins)
            for inst in installers:
                if inst not in pins and rng.random() < .2:
                    # (as in "apt:" without anything)
                    pins[inst] = None
        self.Stub = Stub
        self.rng = rng

    def set_pins(self, pins):
        self.kw['install_from'] = pins
        self.pins, self.pinned_again = {}, {}
        for inst, keys in pins.items():
            for k in keys or []:
                if k in self.pins and inst != self.pins[k]:
                    self.pinned_again.setdefault(k, []).append(inst)
                self.pins.setdefault(k, inst)

    def layered(self):
        """The configuration from the command line and files."""
        from c_config import flow, load_xylem
        rng = self.rng
        places = [{}, {}]
        for inst, keys in self.kw['install_from'].items():
            p = rng.choice(places)
            p[inst] = keys
            if rng.random() < .25:
                q = places[p is places[0]]
                q[inst] = rng.sample(model.KEYS, 2)
        pins = dict(places[0])
        for inst in places[1]:
            pins.setdefault(inst, places[1][inst])
        self.set_pins(pins)
        data = dict(self.kw, sources_dir=self.env.sources,
                    cache_dir=self.env.cache)
        data['install_from'] = places[1]
        write(os.path.join(self.env.root, 'config.yaml'), dump(data))
        argv = ['--xylem-dir', self.env.root]
        if places[0] or rng.random() < .5:
            argv += ['--install-from', flow(places[0])]
        return load_xylem(argv)

    def stubs(self):
        s = [self.Stub(None, n, n in self.additional) for n in self.plugins]
        self.rng.shuffle(s)
        return s

    def context(self, cfg=None):
        return make_context(cfg or self.env.config(**self.kw), self.stubs())

    def found(self, key):
        return model.overlay([model.lookup(
            r, key, self.os, self.version, DEF[self.os])
            for r in self.sources])

    def defined(self):
        return sorted({k for r in self.sources for k in r
                       if model.applicable(r, k, self.os, self.version)})

    def candidates(self, key):
        """Installers the key may resolve with; empty: an error."""
        found = self.found(key)
        if key in self.pins:
            inst = self.pins[key]
            ok = inst in self.plugins and inst in found
            return [inst] if ok else []
        for c in self.core:
            if c in found:
                return [c]
        if self.use_additional:
            return [a for a in self.additional
                    if a in found and a not in self.core]
        return []


def outcomes(pair):
    """(kind, value) for each key of the result of resolve."""
    results, errors = pair
    res = {}
    for key, (name, resolutions) in results:
        res.setdefault(key, []).append(
            ('resolved', name, [dict(r) for r in resolutions]))
    for key, e in errors:
        res.setdefault(key, []).append(('error', type(e).__name__, str(e)))
    return res


def request(rng, world):
    pool = model.KEYS + ['nosuchkey', 'other-key'] + list(
        rng.sample(model.KEYS, 3))
    keys = [rng.choice(pool) for _ in range(rng.randint(0, 12))]
    return keys


def do_resolve(rng, w, ic, cfg, keys, all_keys, db, same_db=False):
    from xylem.resolve import resolve
    kw = dict(config=cfg, installer_context=ic)
    r = rng.random()
    if r < .5 or same_db:
        kw['database'] = db
    elif r < .8:
        kw['sources_context'] = w.env.context()
    if all_keys or rng.random() < .3:
        kw['all_keys'] = all_keys
    return quiet(resolve, keys, **kw)


def prepare(chk, rng, Stub):
    w = ResolveWorld(rng, Stub)
    o = quiet(w.env.updated)
    chk.returns(o, 'resolve-setup', 'updating')
    db = o.value
    if rng.random() < .5:
        db = w.env.database()
        quiet(db.load_from_cache)
    if w.pins and rng.random() < .5:
        o = quiet(w.layered)
        chk.returns(o, 'resolve-setup', 'loading the configuration')
        cfg = o.value
        chk.count('layered_configurations')
    else:
        cfg = w.env.config(**w.kw)
    ic = quiet(w.context, cfg).value
    return w, db, cfg, ic


def p15(chk):
    from xylem.resolve import ResolutionError
    rng = chk.rng
    Stub = make_stub_class()
    for i in chk.loop(70, 1500):
        w, db, cfg, ic = prepare(chk, rng, Stub)
        single = {}

        def alone(key):
            if key not in single:
                o = do_resolve(rng, w, ic, cfg, [key], False, db)
                if chk.returns(o, 'resolve-raises', 'resolving %r' % key):
                    single[key] = outcomes(o.value).get(key)
                else:
                    single[key] = None
            return single[key]
        for _ in range(6):
            keys = request(rng, w)
            all_keys = rng.random() < .35
            asked = list(keys)
            o = do_resolve(rng, w, ic, cfg, keys, all_keys, db)
            if not chk.returns(o, 'resolve-raises', 'resolving %r' % keys):
                continue
            chk.equal(keys, asked, 'resolve-request', 'the request itself')
            want = []
            for k in asked + (w.defined() if all_keys else []):
                if k not in want:
                    want.append(k)
            results, errors = o.value
            got = outcomes(o.value)
            witness = dict(keys=asked, all_keys=all_keys, result=o.value)
            for order, what in (([k for k, _ in results], 'resolutions'),
                                ([k for k, _ in errors], 'errors')):
                chk.equal(order, [k for k in want if k in order],
                          'resolve-order', 'order of ' + what, **witness)
            if all_keys and sorted(got) != sorted(want):
                # keys without any rule that applies may be listed or not
                extra = set(got) - set(want)
                chk.check(not extra and set(asked) <= set(got) and all(
                    not w.found(k) for k in set(want) - set(got)),
                    'resolve-accounting', 'keys accounted for', **witness)
            else:
                chk.equal(sorted(got), sorted(want), 'resolve-accounting',
                          'keys accounted for', **witness)
            for k in got:
                if len(got[k]) != 1:
                    chk.violate('resolve-accounting', '%r has %d outcomes'
                                % (k, len(got[k])), **witness)
                    continue
                chk.equal(got[k], alone(k), 'resolve-context',
                          'outcome of %r' % k, **witness)
                kind = got[k][0][0]
                chk.count('keys_' + kind)
                if not w.found(k):
                    chk.equal(kind, 'error', 'resolve-undefined',
                              'outcome of undefined %r' % k, **witness)
                    chk.count('undefined_keys')
            for k, e in errors:
                chk.check(isinstance(e, ResolutionError), 'resolve-error',
                          'error for %r is %r' % (k, e))
            if all_keys:
                chk.count('all_keys')
            if len(set(asked)) < len(asked):
                chk.count('requests_with_duplicates')
            chk.case((asked, all_keys, repr(w.sources)),
                     '%r all=%r -> %s' % (asked, all_keys, got),
                     nontrivial=bool(results) and bool(errors))
        failing_lookups(chk, w, ic, cfg, db, alone)


def failing_lookups(chk, w, ic, cfg, db, alone):
    """The lookup of some keys fails in the database."""
    from xylem.exception import exc_to_str
    from xylem.resolve import ResolutionError
    rng = chk.rng
    bad = {k: rng.choice([LookupError, KeyError, IndexError])('why-%d' % n)
           for n, k in enumerate(rng.sample(model.KEYS, 3))}
    real = db.lookup

    def lookup(key, *args, **kw):
        if key in bad:
            raise bad[key]
        return real(key, *args, **kw)
    db.lookup = lookup
    try:
        keys = request(rng, w)
        o = do_resolve(rng, w, ic, cfg, keys, False, db, True)
    finally:
        del db.lookup
    if not chk.returns(o, 'resolve-raises', 'resolving %r' % keys, bad=bad):
        return
    got = outcomes(o.value)
    chk.equal(sorted(got), sorted(set(keys)), 'resolve-accounting',
              'keys accounted for', bad=bad)
    for k, e in o.value[1]:
        if k in bad:
            text = exc_to_str(e)
            chk.check(isinstance(e, ResolutionError) and k in text and
                      bad[k].args[0] in text, 'resolve-error', lambda:
                      'error for the failed lookup of %r is %r: %s' % (
                          k, e, text))
            chk.count('failed_lookups')
    for k in got:
        if k in bad:
            chk.equal([x[0] for x in got[k]], ['error'], 'resolve-error',
                      'outcome of the failed lookup of %r' % k)
        elif alone(k):
            chk.equal(got[k], alone(k), 'resolve-context',
                      'outcome of %r' % k, bad=bad)


def p16(chk):
    rng = chk.rng
    Stub = make_stub_class()
    for i in chk.loop(140, 3000):
        w, db, cfg, ic = prepare(chk, rng, Stub)
        keys = list(model.KEYS) + ['nosuchkey']
        rng.shuffle(keys)
        o = do_resolve(rng, w, ic, cfg, keys, False, db)
        if not chk.returns(o, 'resolve-raises', 'resolving %r' % keys):
            continue
        for k, insts in w.pinned_again.items():
            for inst in insts:
                chk.check(k in o.err and inst in o.err, 'pinned-again',
                          lambda: 'pinning %r also to %r is not reported: %r'
                          % (k, inst, o.err), pins=w.kw['install_from'])
                chk.count('pinned_again')
        results, errors = dict(o.value[0]), dict(o.value[1])
        interesting = 0
        for k in keys:
            found, cand = w.found(k), w.candidates(k)
            witness = dict(found=found, core=w.core, pins=w.pins,
                           additional=sorted(w.additional),
                           use_additional=w.use_additional,
                           plugins=w.plugins, os=(w.os, w.version))
            if k in w.pins:
                chk.count('pinned_keys')
            elif len(found) > 1:
                interesting += 1
                chk.count('contested_keys')
            if not cand:
                chk.check(k in errors and k not in results,
                          'installer-error', lambda: '%r resolved to %r '
                          'although no installer in use has a rule' % (
                              k, results.get(k)), **witness)
                if found:
                    chk.count('keys_without_installer')
                continue
            unresolvable = [c for c in cand
                            if found[c].get('options') == 'unresolvable']
            if k in errors:
                chk.check(unresolvable, 'installer-missed',
                          lambda: '%r failed: %s; expected %r' % (
                              k, errors[k], cand), **witness)
                chk.count('unresolvable_rules')
                continue
            if not chk.check(k in results, 'installer-missed',
                             '%r is not in the result' % k, **witness):
                continue
            name, resolutions = results[k]
            if not chk.check(name in cand and name not in unresolvable,
                             'installer-choice', lambda:
                             '%r resolved with %r instead of %r' % (
                                 k, name, cand), **witness):
                continue
            if name not in w.core and k not in w.pins:
                chk.count('additional_installers')
            elif k not in w.pins and name != w.core[0]:
                chk.count('lower_core_installers')
            rule = found[name]
            chk.equal([r['package'] for r in resolutions],
                      rule.get('packages', []),
                      'installer-rule', 'packages of %r' % k, **witness)
            for r in resolutions:
                for opt in ('options', 'id'):
                    chk.check(same_data(r.get(opt), rule.get(opt)),
                              'installer-rule', lambda: '%s of %r: got %r, '
                              'expected %r' % (opt, k, r.get(opt),
                                               rule.get(opt)), **witness)
            chk.count('resolved_keys')
        chk.case((repr(w.sources), w.kw, w.plugins),
                 '%r -> %r' % (w.kw, {k: v[0] for k, v in results.items()}),
                 nontrivial=interesting > 0)


# --- P17, P18, P19: installing ----------------------------------------

INSTS = ['apt', 'pip', 'gem', 'yum']


class Scenario(object):
    """A random machine, request and set of failures, and its oracle."""

    def __init__(self, rng, Stub, focus):
        self.rng = rng
        self.env = Env('inst')
        self.machine = m = Machine(INSTS)
        self.names = rng.sample(INSTS, rng.randint(1, 3))
        self.style = {n: rng.choice(STYLES) for n in INSTS}
        self.interactive = rng.random() < .6
        self.reinstall = rng.random() < .25
        self.simulate = rng.random() < (.35 if focus == 'P18' else .2)
        self.coe = rng.random() < .5
        self.fix = rng.random() < .25
        self.stubs = {n: Stub(m, n, style=self.style[n]) for n in INSTS}
        # rules: the first of self.names with a rule is chosen
        self.keys, rules = [], {}
        self.plan = []          # (key, installer, packages) or (key, None)
        n = 0
        specials = [' with space', '@{', '@!', '%s', '-ä', "'q'", '{0}',
                    '@|', '@@', '*', '$HOME', '\\n', '@boldon']
        pre = focus != 'P18'
        for j in range(rng.randint(1, 7)):
            key = 'key%d' % j
            inst = rng.choice(self.names)
            packages = []
            for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() > .03
                           else 25):
                n += 1
                p = 'p%d' % n
                if rng.random() < .25:
                    p += rng.choice(specials)
                packages.append(p)
            entry = {inst: {'packages': packages}}
            for other in self.names[self.names.index(inst) + 1:]:
                if rng.random() < .3:
                    entry[other] = {'packages': ['wrong%d' % n]}
            self.keys.append(key)
            r = rng.random()
            if r < (.05 if focus == 'P18' else .1):
                kind = rng.choice(['undefined', 'otheros', 'unresolvable',
                                   'noinstaller'])
                if kind == 'undefined':
                    pass
                elif kind == 'otheros':
                    rules[key] = {'fedora': {'any_version': entry}}
                elif kind == 'unresolvable':
                    entry[inst]['options'] = 'unresolvable'
                    rules[key] = {'any_os': {'any_version': entry}}
                else:
                    rules[key] = {'any_os': {'any_version': {
                        'nosuchinstaller': {'packages': ['wrong']}}}}
                self.plan.append((key, None, []))
            else:
                rules[key] = {'any_os': {'any_version': entry}}
                self.plan.append((key, inst, packages))
        self.rules = rules
        rng.shuffle(self.plan)
        self.keys = [k for k, _, _ in self.plan]
        # state of the machine and failures
        self.state = {}
        self.failures = {}
        q = {'P17': .05, 'P18': .12, 'P19': .12}[focus]
        everything = rng.random() < .1
        for _, inst, packages in self.plan:
            for x in range(len(packages)):
                p = packages[x]
                r = 0 if everything else rng.random()
                if r < .3:
                    m.set_installed(inst, p)
                    self.state[p] = 'installed'
                elif r < .3 + q:
                    f = rng.choice(['fail', 'fail', 'kill', 'lie', 'noexec-',
                                    'nofile-', 'noformat-', 'nonul-'])
                    if f.endswith('-'):
                        packages[x] = p = f + p
                    elif f == 'fail':
                        m.mark('fail', p, str(rng.choice(
                            [1, 2, 100, 127, 128, 255])))
                    else:
                        m.mark(f, p)
                    self.failures[p] = f
        self.broken, self.picky = {}, None
        b = {'P17': .3, 'P18': .1, 'P19': .35}[focus]
        if focus == 'P18' and (self.coe or self.reinstall):
            b = 0
        if rng.random() < b:
            from xylem.installers import InstallerError
            ops = {'P17': ['general', 'install', 'general', 'install',
                           'filter', 'compose'],
                   'P18': ['filter'],
                   'P19': ['filter', 'compose', 'verify', 'general',
                           'install']}[focus]
            op = rng.choice(ops)
            exc = InstallerError if op in ('general', 'install') or \
                rng.random() < .7 else rng.choice(
                    [RuntimeError, KeyError, OSError, ValueError])
            inst = rng.choice(self.names)
            self.broken[inst] = (op, exc)
            self.stubs[inst].broken[op] = exc
            mine = [p for _, i, ps in self.plan for p in ps if i == inst]
            if op == 'install' and mine and rng.random() < .75:
                # only those of one package
                self.picky = self.stubs[inst].picky = rng.choice(
                    mine[:2] + mine)
        self.env.write_rules('r.yaml', rules)
        self.env.write_sources('s.yaml', [self.env.url('r.yaml')])

    # the oracle

    def groups(self, missing_only):
        res = []
        for key, inst, packages in self.plan:
            if inst is None:
                continue
            if missing_only and not self.reinstall:
                packages = [p for p in packages
                            if self.state.get(p) != 'installed']
            if not packages:
                continue
            if not res or res[-1][0] != inst:
                res.append((inst, []))
            res[-1][1].extend(packages)
        return res

    def unresolved(self):
        return [k for k, inst, _ in self.plan if inst is None]

    def broken_op(self, inst):
        return self.broken.get(inst, (None, None))[0]

    def unmet(self):
        """Whether prerequisites of a needed installer are not met."""
        if self.fix:
            return False
        return any(self.broken_op(i) == 'general' for i, _ in
                   self.groups(False)) or any(
            self.broken_op(i) == 'install' and self.picky in [None] + ps
            for i, ps in self.groups(True))

    def must_not_run(self):
        """Why nothing may be executed, or None."""
        if self.unresolved() and not self.coe:
            return 'unresolved'
        if self.simulate:
            return 'simulate'
        needed = {inst for inst, _ in self.groups(False)}
        missing = {inst for inst, _ in self.groups(True)}
        if self.unmet():
            return 'prerequisites'
        if not self.reinstall and not self.coe and any(
                self.broken_op(i) == 'filter' for i in needed):
            return 'filter'
        if not missing and not any(
                self.broken_op(i) == 'filter' for i in needed):
            return 'nothing'
        return None

    def fails(self, cmd):
        return any(self.failures.get(a) in (
            'fail', 'kill', 'noexec-', 'nofile-', 'noformat-',
            'nonul-') for a in cmd)

    def planned(self):
        """(commands to be attempted, failing ones among them)."""
        attempted, failing = [], []
        for inst, packages in self.groups(True):
            ok = True
            for c in commands(self.machine, inst, self.style[inst], packages,
                              self.interactive, self.reinstall):
                attempted.append(c)
                if self.fails(c):
                    failing.append(c)
                    ok = False
                    if not self.coe:
                        return attempted, failing
            # a package that is still missing counts as a failure, too
            if not self.coe and (not ok or self.broken_op(
                    inst) == 'verify' or any(
                    self.failures.get(p) == 'lie' and
                    self.state.get(p) != 'installed' for p in packages)):
                return attempted, failing
        return attempted, failing

    def shown(self):
        res = []
        for inst, packages in self.groups(True):
            res.extend(commands(self.machine, inst, self.style[inst],
                                packages, self.interactive, self.reinstall))
        return res

    def runnable(self, cmds):
        return [c for c in cmds if os.path.basename(c[0]) in INSTS]

    def describe(self):
        return dict(plan=self.plan, state=self.state, failures=self.failures,
                    broken=self.broken, picky=self.picky, style=self.style,
                    options=dict(interactive=self.interactive,
                                 reinstall=self.reinstall, coe=self.coe,
                                 simulate=self.simulate, fix=self.fix))

    def run(self):
        from xylem.install import install
        kw = dict(os_override='ubuntu:trusty',
                  core_installers=list(self.names))
        cfg = self.env.config(**kw)
        db = quiet(self.env.updated).value
        ic = quiet(make_context, cfg, self.stubs.values()).value
        if self.rng.random() < .5:
            x = dict(database=db)
        else:
            x = dict(sources_context=self.env.context())
        o = quiet(install, list(self.keys), interactive=self.interactive,
                  reinstall=self.reinstall, simulate=self.simulate,
                  continue_on_error=self.coe, fix_prerequisites=self.fix,
                  config=cfg, installer_context=ic, **x)
        o.executed = self.machine.executed()
        return o


def scenarios(chk, focus, quick, thorough):
    Stub = make_stub_class()
    for i in chk.loop(quick, thorough, cap_quick=100):
        s = Scenario(random.Random(chk.rng.random()), Stub, focus)
        o = s.run()
        chk.count('processes_observed', len(o.executed))
        yield s, o


def p17(chk):
    for s, o in scenarios(chk, 'P17', 350, 8000):
        why = s.must_not_run()
        ran = [c[1:] for c in o.executed]
        w = dict(executed=o.executed, **s.describe())
        if why:
            chk.count('must_not_run_' + why)
            chk.check(not o.executed, 'ran-' + why,
                      lambda: 'executed %r' % o.executed[:3], **w)
        # fixing prerequisites
        fixed = [c for c in s.machine.calls if c[0] == 'fixed']
        for c in s.machine.calls:
            if c[0] in ('general', 'install'):
                chk.equal(c[3:], ('simulate' if s.simulate and s.fix else
                                  s.fix, s.interactive),
                          'fixed-prerequisites', 'what prerequisites are '
                          'checked with', **w)
                chk.count('prerequisites_checked')
        if s.simulate or not s.fix:
            chk.check(not fixed, 'fixed-prerequisites',
                      lambda: 'fixed %r' % fixed, **w)
        elif fixed:
            chk.count('prerequisites_fixed')
        # what is installed already
        if not s.reinstall and not any(
                s.broken_op(n) == 'filter' for n in s.names):
            for args in ran:
                for a in args:
                    chk.check(s.state.get(a) != 'installed', 'ran-installed',
                              lambda: 'executed %r' % args, **w)
                    if a in s.state:
                        break
            if any(v == 'installed' for v in s.state.values()) and ran:
                chk.count('some_installed_already')
        # what is fine gets installed
        bad_exc = any(e is not None and not e.__name__ == 'InstallerError'
                      for _, e in s.broken.values())
        if not why and s.coe and not bad_exc:
            for inst, packages in s.groups(True):
                if s.broken_op(inst) in ('filter', 'compose'):
                    continue
                cmds = commands(s.machine, inst, s.style[inst], packages,
                                s.interactive, s.reinstall)
                for c in cmds:
                    if s.fails(c):
                        continue
                    for p in packages:
                        if p in c and s.failures.get(p) != 'lie':
                            chk.check(s.machine.installed(inst, p),
                                      'fine-not-installed', lambda:
                                      '%r of %r is not installed: %r' % (
                                          p, inst, o), **w)
                            chk.count('fine_packages')
                            if s.unresolved() or s.broken or s.failures:
                                chk.count('fine_beside_failures')
        chk.case((s.plan, s.state, s.failures, repr(s.describe())),
                 '%s: executed %d commands' % (why, len(ran)),
                 nontrivial=bool(why) or bool(s.broken))


def p18(chk):
    for s, o in scenarios(chk, 'P18', 350, 8000):
        w = dict(executed=o.executed, **s.describe())
        if any(s.broken_op(n) == 'filter' for n, _ in s.groups(False)) and \
                not (s.unresolved() or s.coe or s.reinstall):
            # what would be installed is unknown
            lines = [x[2:] for x in plain(o.out).split('\n')
                     if x and not x.startswith('#')]
            chk.equal(lines, [], 'shown', 'commands shown', **w)
            chk.equal(o.executed, [], 'trace', 'executed commands', **w)
            chk.count('unknown_missing')
            continue
        if not chk.returns(o, 'install-raises', 'installing', **w):
            continue
        lines = [x[2:] for x in plain(o.out).split('\n')
                 if x and not x.startswith('#')]
        if s.unresolved() and not s.coe:
            chk.equal(o.executed, [], 'trace', 'executed commands', **w)
            chk.equal(lines, [], 'shown', 'commands shown', **w)
            chk.count('nothing_shown', s.simulate)
            continue
        if s.simulate:
            want = [' '.join(c) for c in s.shown()]
            chk.equal(lines, want, 'shown', 'commands shown', **w)
            chk.equal(o.executed, [], 'trace', 'executed commands', **w)
            chk.count('simulated', bool(want))
            chk.case(('sim', want), want, nontrivial=len(want) > 1)
            continue
        attempted, failing = s.planned()
        chk.equal(o.executed, s.runnable(attempted), 'trace',
                  'executed commands', **w)
        # what is shown while executing
        lines = [x for x in plain(o.out).split('\n')
                 if x.startswith('executing command: ')]
        chk.equal(lines, ['executing command: ' + ' '.join(c)
                          for c in attempted], 'announced',
                  'announced commands', **w)
        chk.count('traces_with_failures', bool(failing))
        chk.count('traces_continued', bool(failing) and s.coe)
        chk.count('traces_stopped', bool(failing) and not s.coe)
        chk.count('traces_of_several_installers',
                  len({c[0] for c in o.executed}) > 1)
        calls = [c for c in s.machine.calls if c[0] == 'compose']
        chk.count('packages_grouped', sum(len(c[2]) > 1 for c in calls))
        chk.case(repr((attempted, failing)), attempted,
                 nontrivial=len(attempted) > 1)


def p19(chk):
    from xylem.exception import XylemError
    for s, o in scenarios(chk, 'P19', 550, 8000):
        w = dict(executed=o.executed, **s.describe())
        groups = s.groups(False)
        missing = s.groups(True)
        unresolved = s.unresolved()
        texts = []
        if o.ok:
            from xylem.exception import exc_to_str
            resolve_errors, install_errors = o.value
            texts = [exc_to_str(e) for e in install_errors]
            named = [k for k, _ in resolve_errors]
        elif not chk.check(isinstance(o.exc, XylemError), 'install-raises',
                           lambda: 'installing %r' % o, **w):
            continue

        def mentioned(x, kind, what):
            chk.count('failures_' + kind)
            if o.ok:
                chk.check(any(x in t for t in texts), 'silent-' + kind,
                          lambda: '%s %r not in errors %s' % (
                              what, x, short(texts)), **w)
            else:
                chk.check(x in str(o.exc), 'silent-' + kind,
                          lambda: '%s %r not in %r' % (what, x, o), **w)
        for c in o.executed if o.ok else []:
            if any(s.failures.get(a) in ('fail', 'kill') for a in c):
                mentioned(' '.join(c), 'command', 'command that ran')
        if o.ok:
            chk.equal(named, unresolved, 'silent-resolve', 'keys reported',
                      **w)
        if unresolved and not s.coe:
            chk.count('failures_resolve')
            continue
        any_failure = bool(unresolved)
        needed = [i for i, _ in groups]
        stop = False
        if s.unmet():
            chk.check(not o.ok, 'silent-prerequisites', 'prerequisites '
                      'failed, but it %r' % o, **w)
            chk.count('failures_prerequisites')
            continue
        lists = [i for i in needed if s.broken_op(i) == 'filter'] \
            if not s.reinstall else []
        if lists:
            mentioned(lists[0], 'filter', 'installer')
            any_failure = True
            if not o.ok or not s.coe:
                continue
        composes = [i for i, _ in missing if s.broken_op(i) == 'compose']
        if not s.simulate and not composes and not lists and o.ok:
            attempted, failing = s.planned()
            for c in failing:
                mentioned(' '.join(c), 'command', 'command')
            any_failure |= bool(failing)
            done = {tuple(c) for c in attempted}
            for inst, packages in missing:
                cmds = commands(s.machine, inst, s.style[inst], packages,
                                s.interactive, s.reinstall)
                if all(tuple(c) in done for c in cmds) and \
                        not any(s.fails(c) for c in cmds) and \
                        s.broken_op(inst) == 'verify':
                    mentioned(inst, 'verify', 'installer')
                    any_failure = True
                for p in packages:
                    own = [c for c in cmds if p in c]
                    if all(tuple(c) in done and not s.fails(c)
                           for c in own) and \
                            not s.machine.installed(inst, p) and \
                            (s.coe or not any(s.fails(c) for c in cmds)):
                        mentioned(p, 'missing', 'package')
                        any_failure = True
                        chk.count('missing_beside_failures',
                                  any(s.fails(c) for c in cmds))
        elif composes:
            if not o.ok:
                mentioned(composes[0], 'compose', 'installer')
                continue
            if s.simulate or s.coe or composes[0] == missing[0][0]:
                mentioned(composes[0], 'compose', 'installer')
            any_failure = True
        if not o.ok:
            # an installer failing in an unforeseen way
            op = [(i, b) for i, b in s.broken.items()
                  if b[1].__name__ != 'InstallerError']
            chk.check(op, 'install-raises', 'installing %r' % o, **w)
            continue
        if not any_failure:
            chk.check(not texts and not resolve_errors, 'spurious-error',
                      lambda: 'errors without a failure: %s' % texts, **w)
            chk.count('without_failures')
        chk.case((s.plan, s.failures, repr(s.describe())), texts,
                 nontrivial=any_failure)
    cli_status(chk)


def cli_status(chk):
    """The exit status of the real command, with the built-in installer."""
    rng = chk.rng
    touch = os.path.join(SCRATCH, 'bin', 'touch')
    for i in chk.loop(60, 800):
        env = Env('cli')
        d = os.path.join(env.root, 'inst')
        rules = {}
        for k in range(rng.randint(1, 4)):
            rules['key%d' % k] = {'any_os': {'any_version': {
                'fake': {'packages': ['pkg%d%s' % (k, x)
                                      for x in 'ab'[:rng.randint(1, 2)]]}}}}
        env.write_rules('r.yaml', rules)
        env.write_sources('s.yaml', [env.url('r.yaml')])
        base = ['--sources-dir', env.sources, '--cache-dir', env.cache,
                '--prefix', env.root, '--no-color', '--os', 'ubuntu:trusty',
                '--core-installers', 'fake', '--installer-options',
                'fake: {install_dir: "%s"}' % d]
        quiet(env.updated)
        keys = rng.sample(sorted(rules), rng.randint(1, len(rules)))
        bad = rng.choice([None, None, 'undefined', 'no dir', 'no command',
                          'fails', 'prefix'])
        if bad != 'no dir':
            os.mkdir(d)
        if bad == 'undefined':
            keys.insert(rng.randint(0, len(keys)), 'nosuchkey')
        if os.path.lexists(touch):
            os.unlink(touch)
        if bad == 'fails':
            write(touch, '#!/bin/sh\nexit 3\n')
            os.chmod(touch, 0o755)
        elif bad != 'no command':
            os.symlink('/usr/bin/touch', touch)
        extra = [x for x in ('--continue-on-error', '--reinstall')
                 if rng.random() < .4]
        dry = rng.random() < .2
        if dry:
            extra.append('--dry-run')
        if bad == 'prefix':
            # everything is installed already
            for k in keys:
                for p in rules[k]['any_os']['any_version']['fake'][
                        'packages']:
                    write(os.path.join(d, p), '')
        o = cli(['install'] + base + extra + keys)
        fails = bad in ('undefined', 'no dir') or bad in (
            'no command', 'fails') and not dry
        chk.count('cli_installs')
        chk.count('cli_failing', fails)
        w = dict(args=extra + keys, bad=bad, result=o)
        chk.check((o.status != 0) == fails, 'exit-status',
                  'install exits with status %r' % o.status, **w)
        if fails and o.exc is None:
            chk.check(plain(o.err).strip(), 'exit-message', 'no message', **w)
        if not fails and not dry:
            for k in keys:
                for p in rules[k]['any_os']['any_version']['fake'][
                        'packages']:
                    chk.check(os.path.exists(os.path.join(d, p)),
                              'exit-status', '%s is not installed but the '
                              'command succeeded' % p, **w)
        chk.case(('cli', bad, tuple(extra), len(keys)))
