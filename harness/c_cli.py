"""P30, P31: plugins and the command line tool."""
import os
import pickle
import shutil
import subprocess
import sys
import types

import yaml

from c_config import Places, load_xylem
from common import (PY, REPO, SCRATCH, fresh_dir, observe, quiet, same_data,
                    short, tree, write)
from plugdist import add_dist, remove_dist
from rules_common import Env, cli, dump
from stubs import Machine, STYLES, make_stub_class, plain

# --- P30 --------------------------------------------------------------

DEFECTS = ['import', 'syntax', 'nomodule', 'noattr', 'notdict', 'noname',
           'badname', 'nodescription', 'baddescription', 'noclass',
           'notclass', 'instance', 'otherclass', 'constructor', 'abstract',
           'nameraises', 'objname-reserved', 'objname-chars',
           'objname-nottext', 'objname-empty', 'verify']


class PluginWorld(object):
    """Random registered plugins and what loading them must give."""

    def __init__(self, rng, kind, base, serial):
        from xylem.plugin_utils import InvalidPluginError
        self.rng, self.kind, self.base = rng, kind, base
        self.InvalidPluginError = InvalidPluginError
        self.group = 'xv.group%d' % serial
        self.dists = []
        self.entries = []       # dicts, in order of loading
        for n in range(rng.randint(1, 3)):
            name = 'xvdist%dn%d' % (serial, n)
            entries, modules = [], {}
            for k in range(rng.randint(0, 5)):
                e = self.entry(rng, 'xvmod%d_%d_%d' % (serial, n, k),
                               'ep-%d%d' % (n, k))
                entries.append(e)
                if e['module'] is not None:
                    modules[e['modname']] = e['module']
            d = add_dist(name, {self.group: [
                (e['entry'], e['value']) for e in entries]}, modules)
            self.dists.append((d, name, modules))
            self.entries.extend(entries)

    def close(self):
        for d, name, modules in self.dists:
            remove_dist(d, name)
            for m in modules:
                sys.modules.pop(m, None)

    def entry(self, rng, modname, entry):
        defect = rng.choice(DEFECTS) if rng.random() < .45 else None
        obj_names = ['one', 'two', 'three', 'four-x', 'five_5', 'One',
                     'four-X', 'four_x', 'five-5', 'x.y', 'c++', 'ünï']
        obj_name = rng.choice(obj_names)
        plugin_name = rng.choice([entry, 'plug-' + entry, 'plug-' + entry,
                                  'Plug-' + entry, obj_name + entry,
                                  rng.choice(obj_names), obj_name])
        kind, Base, Invalid = self.kind, self.base, self.InvalidPluginError
        e = dict(defect=defect, entry=entry, plugin=plugin_name,
                 name=obj_name, modname=modname, value=modname + ':definition',
                 cls=None)
        names = {'objname-reserved': rng.choice([
            'any_os', 'any_version', 'default_installer', 'any_key',
            'unset_installers']),
                 'objname-chars': rng.choice(['a b', 'x/y', 'a:b', 'a\n', '#']),
                 'objname-nottext': rng.choice([None, 3, ['x']]),
                 'objname-empty': ''}
        wanted = names.get(defect, obj_name)

        def name(self):
            if defect == 'nameraises':
                raise RuntimeError('no name')
            return wanted

        def init(self):
            if defect == 'constructor':
                raise rng.choice([RuntimeError, ValueError, KeyError,
                                  OSError])('cannot construct')
            Base.__init__(self)

        def verify(cls, obj):
            if defect == 'verify':
                raise Invalid('not verified')
            super(cls, cls).verify_plugin(obj)
        attrs = {'__init__': init, '__module__': modname}
        if defect != 'abstract':
            attrs['name'] = property(name)
        if defect == 'verify':
            attrs['verify_plugin'] = classmethod(verify)
        bases = (object,) if defect == 'otherclass' else (Base,)
        if defect == 'otherclass':
            attrs.pop('__init__')
        cls = type(str('Plugin_' + modname), bases, attrs)
        e['cls'] = cls
        definition = {'plugin_name': plugin_name, 'description': 'text',
                      kind: cls}
        if defect == 'noname':
            del definition['plugin_name']
        elif defect == 'badname':
            definition['plugin_name'] = rng.choice([3, None, ['x']])
        elif defect == 'nodescription':
            del definition['description']
        elif defect == 'baddescription':
            definition['description'] = rng.choice([3, None, {}])
        elif defect == 'noclass':
            definition['other'] = definition.pop(kind)
        elif defect == 'notclass':
            definition[kind] = rng.choice([None, 'text', 7, len])
        elif defect == 'instance':
            definition[kind] = object()
        elif defect == 'notdict':
            definition = rng.choice([None, 3, ['a'], 'text', cls])
        if defect == 'import':
            e['module'] = rng.choice([
                'raise RuntimeError("broken")\n', 'import nosuchmodule_x\n',
                'from os import nosuchname\n', '1 / 0\n', 'undefined\n'])
        elif defect == 'syntax':
            e['module'] = 'def (:\n'
        elif defect == 'nomodule':
            e['module'] = None
        else:
            m = types.ModuleType(modname)
            if defect != 'noattr':
                m.definition = definition
            e['module'] = m
        return e


def p30(chk):
    from xylem.plugin_utils import PluginBase, load_plugins
    rng = chk.rng
    for i in chk.loop(350, 8000):
        kind = rng.choice(['widget', 'installer', 'os', 'spec'])
        Base = type(str('Base%d' % i), (PluginBase,), {})
        world = PluginWorld(rng, kind, Base, i)
        try:
            for again in range(2):
                disabled = []
                for e in world.entries:
                    if rng.random() < .2:
                        disabled.append(e['plugin'])
                    # these must have no effect
                    if rng.random() < .15 and e['entry'] not in [
                            x['plugin'] for x in world.entries]:
                        disabled.append(e['entry'])
                    if rng.random() < .15:
                        disabled.append(e['name'])
                    if rng.random() < .1 and e['plugin'].lower() not in [
                            x['plugin'] for x in world.entries]:
                        disabled.append(e['plugin'].lower())
                rng.shuffle(disabled)
                want, dups = [], []
                seen = set()
                for e in world.entries:
                    if e['defect'] or e['plugin'] in disabled:
                        continue
                    if e['name'] in seen:
                        dups.append(e)
                        continue
                    seen.add(e['name'])
                    want.append(e)
                before = list(disabled)
                w = dict(entries=[(e['entry'], e['plugin'], e['name'],
                                   e['defect']) for e in world.entries],
                         disabled=disabled)
                if disabled or rng.random() < .5:
                    o = quiet(load_plugins, kind, Base, world.group, disabled)
                else:
                    o = quiet(load_plugins, kind, Base, world.group)
                if not chk.returns(o, 'load', 'loading plugins', **w):
                    continue
                chk.equal(disabled, before, 'input', 'the disabled plugins')
                chk.equal([type(p) for p in o.value],
                          [e['cls'] for e in want], 'loaded',
                          'plugins loaded', **w)
                chk.equal([p.name for p in o.value],
                          [e['name'] for e in want], 'loaded',
                          'names of the plugins loaded', **w)
                text = plain(o.err + o.out)
                for e in world.entries:
                    if e['defect']:
                        off = e['plugin'] in disabled
                        if not off:
                            chk.check(e['entry'] in text or
                                      e['plugin'] in text, 'reported',
                                      'broken (%s) plugin %r, %r is not '
                                      'reported: %r' % (
                                          e['defect'], e['entry'],
                                          e['plugin'], text), **w)
                        chk.count('broken_' + e['defect'])
                        chk.count('broken')
                    elif e in dups:
                        chk.check(e['plugin'] in text and e['name'] in text,
                                  'reported', 'duplicate plugin %r is not '
                                  'reported: %r' % (e['plugin'], text), **w)
                        chk.count('duplicates')
                    elif e['plugin'] in disabled:
                        chk.count('disabled')
                    else:
                        chk.check(e['plugin'] not in text or
                                  e['entry'] not in e['plugin'] or
                                  any(e['plugin'] in x['plugin'] or
                                      e['plugin'] in x['entry']
                                      for x in world.entries if x is not e),
                                  'reported', 'plugin %r is fine but '
                                  'reported: %r' % (e['plugin'], text), **w)
                        chk.count('loaded')
        finally:
            world.close()
        if i % 10 == 0:
            _p30_builtin(chk, i)
        defects = sorted(str(e['defect']) for e in world.entries)
        chk.case((kind, defects, [e['name'] for e in world.entries]),
                 sample=defects, nontrivial=len(set(defects)) > 1)


def _p30_builtin(chk, serial):
    """Broken plugins among the real ones."""
    from xylem.installers import InstallerContext
    from xylem.os_support import OSSupport
    from xylem.config import ensure_config
    rng = chk.rng
    groups, modules = {}, {}
    for g, kind in (('xylem.installers', 'installer'), ('xylem.os', 'os'),
                    ('xylem.specs', 'spec')):
        entries = []
        for k in range(rng.randint(0, 2)):
            m = 'xvbroken%d_%s_%d' % (serial, kind, k)
            modules[m] = rng.choice([
                'raise RuntimeError("x")\n', '', 'definition = None\n',
                'definition = {"plugin_name": "x", "description": "", '
                '"%s": int}\n' % kind,
                'definition = {"plugin_name": "apt", "description": "", '
                '"%s": object}\n' % kind])
            entries.append((m, m + ':definition'))
        groups[g] = entries
    dist = 'xvbroken%d' % serial
    d = add_dist(dist, groups, modules)
    try:
        off = rng.choice([[], ['apt'], ['pip', 'fake'], ['macports']])
        cfg = ensure_config({'os_override': 'ubuntu:trusty',
                             'disabled_plugins': {'installer': off}})
        o = quiet(InstallerContext, config=cfg)
        if chk.returns(o, 'builtin', 'installer context', modules=modules):
            got = {p.name for p in o.value.installer_plugins}
            chk.equal(got, {'apt', 'fake', 'homebrew', 'macports', 'pip'} -
                      set(off), 'builtin', 'built-in installers among broken '
                      'plugins', modules=modules, disabled=off)
            chk.equal(o.value.get_os_tuple(), ('ubuntu', 'trusty'),
                      'builtin', 'operating system', modules=modules)
        o = quiet(OSSupport)
        if chk.returns(o, 'builtin', 'OS support', modules=modules):
            names = observe(o.value.get_default_installer_names)
            chk.check(names.ok and {'debian', 'osx', 'ubuntu', 'xubuntu'} <=
                      set(names.value), 'builtin', 'operating systems among '
                      'broken plugins: %r' % names, modules=modules)
        env = Env('plug')
        env.write_rules('r.yaml', {'k': {'ubuntu': ['p']}})
        env.write_sources('s.yaml', [env.url('r.yaml')])
        db = quiet(env.updated)
        if chk.returns(db, 'builtin', 'updating', modules=modules):
            r = quiet(db.value.lookup, 'k', InstallerContext(config=cfg))
            chk.check(r.ok and list(r.value) == ['apt'], 'builtin',
                      'lookup among broken plugins: %r' % r, modules=modules)
        chk.count('builtin')
    finally:
        remove_dist(d, dist)
        for m in modules:
            sys.modules.pop(m, None)


# --- P31 --------------------------------------------------------------

KEYS = ['k%d' % i for i in range(8)]
# one of them has a name that starts with that of a default installer
INST = ['insta', 'instb', 'instc', 'aptinsta']


class CliWorld(object):
    """Rules, configuration and stub installers seen by the tool."""

    def __init__(self, rng, chk):
        self.rng = rng
        self.env = Env('cli')
        self.dir = os.path.join(self.env.root, 'dir')
        os.makedirs(self.dir)
        self.rules = {}
        for k in rng.sample(KEYS, rng.randint(2, 6)):
            entry = {}
            for i in rng.sample(INST + INST[:2] + ['apt', 'other'],
                                rng.randint(1, 3)):
                pk = ['%s-%s%s' % (k, i, x)
                      for x in ('', 'b', 'c')[:rng.randint(1, 3)]]
                if rng.random() < .3:
                    pk.reverse()
                entry[i] = {'packages': pk}
                if rng.random() < .2:
                    entry[i]['id'] = rng.choice(['x', 3, True])
                if rng.random() < .08:
                    entry[i]['options'] = 'unresolvable'
            self.rules[k] = {rng.choice(['any_os', 'any_os', 'ubuntu',
                                         'ubuntu', 'debian']): {'any_version': entry}}
        if rng.random() < .5:
            # specific to a version, as shorthand
            self.rules['kshort'] = {'ubuntu': {'trusty': ['kshort-p'],
                                               'any_version': None}}
        self.env.write_rules('r.yaml', self.rules)
        urls = [self.env.url('r.yaml')]
        self.sources_fail = rng.random() < .1
        if self.sources_fail:
            urls.append(self.env.url('missing.yaml'))
        self.env.write_sources('s.yaml', urls)

    def options(self):
        """Random configuration options of the tool, in chunks."""
        rng = self.rng
        opts = [['--sources-dir', self.env.sources],
                ['--cache-dir', self.env.cache],
                ['--xylem-dir', self.dir]]
        os_ = rng.choice(['ubuntu:trusty'] * 4 + [ 'debian:wheezy',
                          'ubuntu:precise'])
        opts.append(['--os', os_])
        core = rng.sample(INST, rng.randint(1, 3))
        if rng.random() < .2:
            core.insert(rng.randint(0, 1), 'apt')
        opts.append(['--core-installers', ','.join(core)])
        if rng.random() < .3:
            opts.append(['--use-additional-installers',
                         rng.choice(['yes', 'no'])])
        if rng.random() < .3:
            opts.append(['--install-from', '%s: [%s]' % (
                rng.choice(INST), ','.join(rng.sample(KEYS, 2)))])
        if rng.random() < .2:
            opts.append(['--disable-installer-plugins', rng.choice(INST)])
        return opts


def p31(chk):
    import xylem.config as xc
    from xylem.exception import XylemError, XylemInternalError, exc_to_str
    from xylem.install import install
    from xylem.installers import InstallerContext
    from xylem.lookup import lookup
    from xylem.resolve import resolve
    rng = chk.rng
    Stub = make_stub_class()
    holder = {}

    def plugin(name, additional):
        def init(self):
            Stub.__init__(self, holder['machine'], name, additional,
                          holder['style'][name])
            self.broken = dict(holder['broken'].get(name, {}))
        return type(str('P31' + name), (Stub,), {'__init__': init})
    mod = types.ModuleType('xvp31')
    for n in INST:
        setattr(mod, n, dict(plugin_name=n, description='stub',
                             installer=plugin(n, n == 'instc')))
    dist = add_dist('xvp31', {'xylem.installers': [
        (n, 'xvp31:' + n) for n in INST]}, {'xvp31': mod})
    from xylem.installers import InstallerError

    def squeeze(text):
        return ''.join(plain(text).split())

    def run(opts, command, more):
        """The tool with options before or after the command."""
        chunks = list(opts)
        rng.shuffle(chunks)
        k = rng.randint(0, len(chunks))
        before = [a for c in chunks[:k] for a in c]
        after = list(chunks[k:]) + list(more)
        rng.shuffle(after)
        argv = before + [command] + [a for c in after for a in c]
        if k:
            chk.count('options_before')
        if len(chunks) > k:
            chk.count('options_after')
        return argv, cli(argv)

    try:
        for i in chk.loop(140, 4000):
            w = CliWorld(rng, chk)
            holder['machine'] = Machine(INST)
            holder['style'] = {n: rng.choice(STYLES) for n in INST}
            holder['broken'] = {}
            if rng.random() < .3:
                n = rng.choice(INST)
                holder['broken'][n] = {rng.choice(
                    ['filter', 'verify', 'compose', 'general', 'install']):
                    InstallerError}
            opts = w.options()
            flat = [a for c in opts for a in c]
            cfg = quiet(load_xylem, flat)
            if not chk.returns(cfg, 'config', 'configuration %r' % flat):
                continue
            cfg = cfg.value
            # update
            if rng.random() < .3:
                before = tree(w.env.root)
                argv, r = run(opts, 'update', [[rng.choice(
                    ['-n', '--dry-run'])]])
                chk.check(r.exc is None, 'update', '%r: %r' % (argv, r))
                chk.equal(tree(w.env.root), before, 'dry-run',
                          'files after %r' % argv)
                chk.count('dry_updates')
                if w.sources_fail:
                    chk.check('missing.yaml' in plain(r.out + r.err),
                              'update', 'failing source not named: %r' % r)
            argv, r = run(opts, 'update', [])
            chk.check(r.exc is None, 'update', '%r: %r' % (argv, r))
            if w.sources_fail:
                chk.check('missing.yaml' in plain(r.out + r.err), 'update',
                          'failing source not named: %r' % r)
                # without a cache of all sources there are no lookups
                w.env.write_sources('s.yaml', [w.env.url('r.yaml')])
            else:
                chk.equal(r.status, 0, 'update', 'status of %r' % argv)
            db = w.env.database()
            o = observe(db.load_from_cache)
            chk.returns(o, 'update', 'reading the cache after %r' % argv)
            chk.count('updates')
            keys = rng.sample(sorted(w.rules), rng.randint(1, min(4, len(
                w.rules))))
            if rng.random() < .15:
                keys.insert(rng.randint(0, len(keys)), 'undefined')
            elif rng.random() < .1:
                for n in range(rng.randint(2, 30)):
                    keys.insert(rng.randint(0, len(keys)), 'no%d' % n)

            def context():
                return InstallerContext(config=cfg)
            # lookup
            want = []
            for k in keys:
                o = quiet(lookup, k, compact=True, config=cfg,
                          installer_context=quiet(context).value)
                want.append(o)
            argv, r = run(opts, 'lookup', [keys])
            if all(o.ok for o in want):
                chk.check(r.status == 0 and r.exc is None, 'lookup',
                          '%r: %r' % (argv, r))
                body = plain(r.out)
                heads = ["Rules for '%s' on" % k for k in keys]
                pos = [body.find(h) for h in heads]
                if chk.check(-1 not in pos and pos == sorted(pos), 'lookup',
                             '%r does not print all keys in order: %r' % (
                                 argv, body)):
                    for n, o in enumerate(want):
                        end = pos[n + 1] if n + 1 < len(pos) else None
                        part = body[pos[n]:end].split('\n', 1)[1]
                        y = observe(yaml.safe_load, part)
                        chk.check(y.ok and same_data(y.value or {},
                                                     o.value or {}),
                                  'lookup', lambda: '%r prints %r for %r '
                                  'instead of %r' % (argv, part, keys[n],
                                                     o.value))
                        chk.count('lookups')
            else:
                chk.check(r.status != 0, 'lookup', '%r: %r' % (argv, r))
            # resolve
            all_keys = rng.random() < .2
            ic = quiet(context).value
            o = quiet(resolve, keys, all_keys=all_keys, config=cfg,
                      installer_context=ic)
            more = [keys] + ([['--all']] if all_keys else [])
            show = rng.random() < .3
            if show:
                more.append(['--show-default-installer'])
            argv, r = run(opts, 'resolve', more)
            if chk.returns(o, 'resolve', 'resolving %r' % keys):
                results, errors = o.value
                lines = [x for x in plain(r.out).split('\n') if '-->' in x]
                expect = []
                default = ic.get_default_installer_name()
                for k, (inst, res) in results:
                    shown = show or inst != default
                    expect.append('%s --> %s%s' % (
                        k, inst + ': ' if shown else '',
                        ', '.join(map(str, res))))
                chk.equal(lines, expect, 'resolve', 'output of %r' % argv)
                chk.equal(r.status, 1 if errors else 0, 'resolve-status',
                          'status of %r' % argv, out=r.out, err=r.err)
                chk.check(r.exc is None, 'resolve', '%r: %r' % (argv, r))
                at = 0
                for k, e in errors:
                    p = squeeze(r.err).find(squeeze(exc_to_str(e)), at)
                    chk.check(p >= 0, 'resolve-error', lambda: 'error %r not '
                              'shown, or not in order, by %r: %r' % (
                                  exc_to_str(e), argv, r.err))
                    at = max(at, p)
                    chk.count('errors_shown')
                chk.count('resolves')
            # install
            kw = dict(all_keys=rng.random() < .1,
                      reinstall=rng.random() < .3,
                      simulate=rng.random() < .2,
                      continue_on_error=rng.random() < .4,
                      fix_prerequisites=rng.random() < .3)
            names = dict(all_keys='--all', reinstall='--reinstall',
                         simulate='--dry-run',
                         continue_on_error='--continue-on-error',
                         fix_prerequisites='--fix-prerequisites')
            packages = [p for e in w.rules.values() for o_ in e.values()
                        for v in o_.values() if isinstance(v, dict)
                        for inst in v.values() if isinstance(inst, dict)
                        for p in inst.get('packages', [])]
            fails = [p for p in packages if rng.random() < .08]
            lies = [p for p in packages if rng.random() < .06]
            done = [(n, p) for n in INST for p in packages
                    if rng.random() < .15]
            runs = []
            for mode in ('library', 'tool'):
                m = holder['machine'] = Machine(INST)
                for p in fails:
                    m.mark('fail', p, '3')
                for p in lies:
                    m.mark('lie', p)
                for n, p in done:
                    m.set_installed(n, p)
                if mode == 'library':
                    runs.append(quiet(install, keys, config=cfg,
                                      installer_context=quiet(
                                          context).value, **kw))
                else:
                    argv, r = run(opts, 'install', [keys] + [
                        [names[n]] for n in names if kw[n]])
                runs.append([[os.path.basename(c[0])] + c[1:]
                             for c in m.executed()])
            o, lib_cmds, tool_cmds = runs
            wit = dict(argv=argv, out=r.out, err=r.err)
            if 'apt' in flat[flat.index('--core-installers') + 1]:
                chk.count('with_apt')
            chk.equal(tool_cmds, lib_cmds, 'install',
                      'commands executed by %r' % argv, **wit)
            chk.count('installs')
            if lib_cmds:
                chk.count('installs_executing')
            if kw['simulate']:
                chk.equal(tool_cmds, [], 'install', 'commands executed by '
                          '%r' % argv, **wit)
            if o.ok:
                errors = [e for _, e in o.value[0]] + list(o.value[1])
            else:
                errors = [o.exc]
                if not isinstance(o.exc, XylemError):
                    chk.check(r.status != 0, 'install-status',
                              '%r: %r' % (argv, r))
                    continue
            chk.equal(r.status, 1 if errors else 0, 'install-status',
                      'status of %r' % argv, **wit)
            chk.check(r.exc is None, 'install', '%r: %r' % (argv, r))
            at = 0
            for e in errors:
                if isinstance(e, XylemInternalError) or \
                        holder['machine'].base in exc_to_str(e):
                    text = str(e).replace(
                        holder['machine'].base, '').split('`')[0]
                    if isinstance(e, XylemInternalError):
                        text = ''
                else:
                    text = exc_to_str(e)
                text = squeeze(text).replace('0x', '')[:60]
                p = squeeze(r.err).replace('0x', '').find(text, at)
                chk.check(p >= 0, 'install-error', 'error %r not shown, or '
                          'not in order, by %r: %r' % (text, argv, r.err),
                          **wit)
                at = max(at, p)
                chk.count('errors_shown')
            chk.case((argv, w.rules), sample=argv, nontrivial=bool(errors))
            if i % 3 == 0:
                _p31_usage(chk, flat, w, opts)
            if i % 3 == 1:
                _p31_broken(chk, w, opts)
            _p31_random(chk, w)
            if i % 14 == 0:
                _p31_process(chk, flat, w, cfg, keys)
    finally:
        remove_dist(dist, 'xvp31')


def _p31_usage(chk, flat, w, opts):
    """Usage errors, configuration errors, unknown systems."""
    rng = chk.rng
    command = rng.choice(['lookup', 'resolve', 'install', 'update'])
    keys = [] if command == 'update' else ['k1']
    bad = rng.choice([
        [], flat, ['nosuchcommand'], flat + ['nosuch', 'x'],
        ['lookup'], ['resolve', '--all'], ['install', '--dry-run'],
        flat + [command] + keys + ['--nosuchoption'],
        ['--nosuchoption'] + flat + [command] + keys,
        flat + [command] + keys + ['--os'],
        ['--cache-dir'], ['update', 'key'] + flat,
        flat + ['lookup', 'x', '--dry-run'],
        flat + ['update', '--reinstall'],
        ['_compact_rules_file'], ['lookup', '--prefix'],
    ])
    before = tree(w.env.root)
    r = cli(bad)
    chk.check(r.status == 2 and r.exc is None and 'usage' in r.err.lower(),
              'usage', '%r is no usage error: %r' % (bad, r))
    chk.equal(tree(w.env.root), before, 'usage', 'files after %r' % bad)
    chk.count('usage_errors')
    # errors of the configuration and the operating system
    wrong = rng.choice([
        ['--os', 'nosuchos:1'], ['--os', 'ubuntu:nosuch'], ['--os', ''],
        ['--user-sources', 'perhaps'], ['--install-from', '3'],
        ['--core-installers', '[1]'], ['--installer-options', 'x: y']])
    kept = [c for c in opts if c[0] != wrong[0]]
    pos = rng.random() < .5
    argv = [a for c in kept for a in c]
    cmd = rng.choice(['lookup', 'resolve', 'install'])
    argv = (wrong + argv + [cmd, 'k1']) if pos else (
        argv + [cmd, 'k1'] + wrong)
    debug = rng.random() < .3
    if debug:
        argv.insert(0, rng.choice(['-d', '--debug']))
    r = cli(argv)
    chk.check(r.status not in (0,) and r.exc is None, 'error-status',
              '%r: %r' % (argv, r))
    text = plain(r.err)
    chk.check(text.strip(), 'error-message', '%r shows nothing: %r' % (
        argv, r))
    chk.equal('Traceback' in text, debug, 'traceback',
              'traceback shown by %r' % argv, err=r.err)
    chk.count('configuration_errors')
    from xylem.log_utils import enable_debug, enable_verbose
    enable_debug(False)
    enable_verbose(False)


VALUES = [None, True, False, 0, 1, -3, 2.5, '', 'a', 'ubuntu',
          'ubuntu:trusty', 'debian:wheezy', 'ubuntu:trusty&x', 'osx:', '&',
          'x:y', 'apt', 'pip', 'fake', 'insta', '~', '/', 'yes', 'null',
          'nul\0l', 'ä', ' ', 'a b', '{0}', '%s', '@!', '$x', '#', 'k1']
NAMES = ['apt', 'pip', 'fake', 'insta', 'features', 'os', 'installer', 'spec',
         'as_root', 'k1', 'kshort', 'a', 1, None, True, '', '{0}', '%s', '@_']
TYPICAL = {
    'os_override': ['ubuntu:trusty', 'debian:wheezy', 'ubuntu:precise&a,b',
                    'xubuntu:trusty', 'osx:lion'],
    'core_installers': [['apt'], ['fake', 'pip'], [], ['nosuch', 'insta'], [None],
                        ['apt', 'apt'], ['instc', 'instb']],
    'installer_options': [{'apt': None}, {'apt': {}}, {'x': {'y': 1}},
                          {'apt': {'as_root': None}}, {'insta': {'q': 1}}],
    'install_from': [{'pip': ['k1']}, {'pip': []}, {'apt': None},
                     {'insta': ['k1', 'k1'], 'instb': ['k1']}],
    'os_options': [{'features': ['a']}, None, {}, {'x': 1}],
    'disabled_plugins': [{'os': ['debian']}, {'spec': []}, {'spec': ['rules']},
                         {'installer': ['insta', 'apt']}, {}],
    'use_additional_installers': [True, False], 'user_sources': [True],
    'unknown': [3]}
GIVEN = ['', 'apt', 'ubuntu', 'ubuntu:trusty', 'pip:', 'insta: [k1]',
         'apt: {}', '[', '{', 'a: b', '~', 'null', 'yes', '{a: ~}', 'a: {b: 1}',
         'pip,pip', ':', '&x', 'x&', 'ubuntu:', 'ubuntu:&', '{0}', '@!', '%s']


def _p31_random(chk, w):
    """Arbitrary configurations: results or messages, never tracebacks."""
    rng = chk.rng

    def value(depth=0):
        r = rng.random()
        if depth > 2 or r < .5:
            return rng.choice(VALUES)
        if r < .75:
            return [value(depth + 1) for _ in range(rng.randint(0, 3))]
        return {rng.choice(NAMES): value(depth + 1)
                for _ in range(rng.randint(0, 3))}
    root = fresh_dir('p31random')
    for _ in range(3):
        data = {'os_override': 'ubuntu:trusty',
                'core_installers': rng.sample(INST, 2)}
        for o in rng.sample(sorted(TYPICAL), rng.randint(1, 3)):
            data[o] = value() if rng.random() < .4 else \
                rng.choice(TYPICAL[o])
        write(os.path.join(root, 'config.yaml'), dump(data))
        k = rng.choice(sorted(w.rules) * 2 + ['k1'])
        argv = rng.choice([
            ['resolve', k, 'kshort'], ['install', '-n', k], ['resolve', k],
            ['lookup', k], ['lookup', k, k], ['resolve', '--all'],
            ['update', '-n'], ['install', '--dry-run', '--reinstall', k]])
        argv = argv + ['--sources-dir', w.env.sources, '--cache-dir',
                       w.env.cache, '--xylem-dir', root]
        if rng.random() < .3:
            argv.append(rng.choice([
                '--os', '--os-features', '--core-installers',
                '--use-additional-installers', '--install-from',
                '--installer-options', '--disable-os-plugins',
                '--disable-installer-plugins']) + '=' + rng.choice(GIVEN))
        before = tree(w.env.root), tree(root)
        r = cli(argv)
        wit = dict(argv=argv, config=data)
        if not chk.check(r.exc is None and 'Traceback' not in r.out + r.err,
                         'random-traceback', '%r with %r: %r' % (
                             argv, data, r), **wit):
            continue
        chk.check(r.status in (0, 1, 2), 'random-status', 'status %r of %r'
                  % (r.status, argv), **wit)
        if r.status:
            chk.check(plain(r.err).strip(), 'random-message',
                      '%r with %r fails without a message: %r' % (
                          argv, data, r), **wit)
            chk.count('random_failed')
        else:
            chk.count('random_passed')
        chk.check((tree(w.env.root), tree(root)) == before, 'random-files',
                  'files after %r' % argv, **wit)
    shutil.rmtree(root, True)


def _p31_broken(chk, w, opts):
    """Missing or corrupted caches, sources and files."""
    from c_cache import MALFORMED, WRONG
    from xylem.log_utils import enable_debug, enable_verbose
    rng = chk.rng
    env = w.env
    root = fresh_dir('p31broken')
    sources, cache, xdir = (os.path.join(root, x) for x in 'scd')
    shutil.copytree(env.sources, sources)
    if os.path.isdir(env.cache):
        shutil.copytree(env.cache, cache)
    os.makedirs(xdir)
    files = [os.path.join(d, f) for d, _, fs in os.walk(cache) for f in fs]
    what = rng.choice(['no cache', 'empty cache', 'corrupt', 'corrupt',
                       'other rules', 'malformed', 'wrong', 'wrong',
                       'duplicate', 'duplicate', 'unreadable source',
                       'file as cache', 'config', 'config',
                       'unreadable config', 'config directory',
                       'unreadable cache'])
    cmd = [rng.choice(['lookup', 'lookup', 'resolve', 'install']), 'k1']
    if rng.random() < .3:
        cmd = [rng.choice(['resolve', 'install']), '--all', 'k1']
    secret = None
    if what == 'no cache':
        shutil.rmtree(cache, True)
    elif what == 'empty cache':
        for path in files:
            os.remove(path)
    elif what == 'corrupt':
        for path in files:
            data = open(path, 'rb').read()
            data = rng.choice([
                b'', data[:rng.randrange(len(data))], b'garbage', b'N.',
                b'\x80\x02}q\x01.', b'\x80', b'cnosuchmodule\nf\n.',
                b'I1\n.', b'\xff' * 9, b']q\x00.'])
            with open(path, 'wb') as f:
                f.write(data)
    elif what == 'other rules':
        # structure of the cached rules is none of the specification
        for path in files:
            data = pickle.load(open(path, 'rb'))
            key = rng.choice(['spec_name', 'data', 'gone'])
            if key == 'gone':
                del data[rng.choice(sorted(data))]
            else:
                data[key] = rng.choice([3, [], 'x', {'k1': 3}, {'k1': []}])
                if key == 'data' and data[key] == []:
                    data[key] = [1]
            with open(path, 'wb') as f:
                pickle.dump(data, f, protocol=2)
    elif what == 'malformed':
        write(os.path.join(sources, '05.yaml'), rng.choice(MALFORMED))
        cmd = rng.choice([cmd, ['update']])
    elif what == 'wrong':
        write(os.path.join(sources, '05.yaml'), rng.choice(WRONG))
        cmd = rng.choice([cmd, ['update']])
    elif what == 'duplicate':
        name = rng.choice(['00.yaml', 'zz.yaml'])
        shutil.copy(os.path.join(sources, 's.yaml'),
                    os.path.join(sources, name))
        cmd = rng.choice([cmd, ['update']])
    elif what == 'unreadable source':
        secret = os.path.join(sources, 's.yaml')
        os.chmod(secret, 0)
        cmd = rng.choice([cmd, ['update']])
    elif what == 'file as cache':
        shutil.rmtree(cache, True)
        write(cache, 'no directory')
        cmd = rng.choice([cmd, ['update']])
    elif what == 'unreadable cache':
        for path in files:
            os.chmod(path, 0)
    elif what == 'config directory':
        os.makedirs(os.path.join(xdir, 'config.yaml'))
    else:
        write(os.path.join(xdir, 'config.yaml'), rng.choice(
            MALFORMED + ['- 1\n', '7\n', 'text\n', 'os_override: [1]\n',
                         'core_installers: {a: b}\n', 'install_from: 3\n',
                         'use_additional_installers: maybe\n']))
        if what == 'unreadable config':
            secret = os.path.join(xdir, 'config.yaml')
            os.chmod(secret, 0)
    if os.access(root, os.W_OK) and os.geteuid() == 0 and (
            'unreadable' in what):
        return
    argv = []
    for c in opts:
        if c[0] == '--os':
            argv += c
        elif c[0] == '--core-installers' and 'config' not in what:
            argv += c
    argv += ['--sources-dir', sources, '--cache-dir', cache,
             '--xylem-dir', xdir]
    argv = argv + cmd if rng.random() < .5 else cmd + argv
    debug = rng.random() < .3
    if debug:
        argv.insert(0, '--debug')
    before = None if cmd == ['update'] else tree(root)
    r = cli(argv)
    enable_debug(False)
    enable_verbose(False)
    wit = dict(what=what, argv=argv, out=r.out, err=r.err)
    text = plain(r.err)
    if what == 'config directory' and r.status == 0:
        pass    # no file, hence not read
    elif what in ('malformed', 'wrong') and r.status == 0:
        # reported, and the other sources are used
        chk.check(text.strip(), 'broken-message', '%s: %r shows nothing' % (
            what, argv), **wit)
    else:
        chk.check(r.exc is None and r.status == 1, 'broken-status',
                  '%s: status of %r is %r (%r)' % (what, argv, r.status,
                                                   r.exc), **wit)
        chk.check(text.strip(), 'broken-message', '%s: %r shows nothing' % (
            what, argv), **wit)
    chk.check(debug or 'Traceback' not in text + r.out, 'broken-traceback',
              '%s: %r shows a traceback' % (what, argv), **wit)
    if before is not None:
        chk.equal(tree(root), before, 'broken-files', '%s: files after %r' % (
            what, argv))
    chk.count('broken_environments')
    chk.case(('broken', what, cmd[0], debug))
    if secret:
        os.chmod(secret, 0o600)
    if what == 'unreadable cache':
        for path in files:
            os.chmod(path, 0o600)
    shutil.rmtree(root, True)


DRIVER = """
import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from xylem.commands.main import main
sys.exit(main())
"""


def _p31_process(chk, flat, w, cfg, keys):
    """The same in a process of its own."""
    from xylem.config import get_default_config
    rng = chk.rng
    base = [a for c in w.options() if c[0] not in (
        '--core-installers', '--install-from', '--disable-installer-plugins')
        for a in c] + ['--core-installers', 'apt']

    def run(argv, **env):
        e = dict(os.environ)
        e.pop('LD_PRELOAD', None)
        e.update(env)
        p = subprocess.run([PY, '-W', 'ignore', '-c', DRIVER % REPO] + argv,
                           stdin=subprocess.DEVNULL, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        chk.count('processes')
        return (p.returncode, p.stdout.decode('utf-8', 'replace'),
                p.stderr.decode('utf-8', 'replace'))
    plainrun = run(base + ['resolve'] + keys)
    chk.check('Traceback' not in plainrun[2], 'process',
              'traceback: %r' % (plainrun,))
    here = cli(base + ['resolve'] + keys)
    if not any(k in here.out + here.err for k in INST):
        chk.equal((plainrun[0], plain(plainrun[1])), (here.status, plain(
            here.out)), 'process', 'resolve in a process of its own',
            argv=base)
    where = rng.randrange(2)
    argv = base + ['resolve'] + keys

    def insert(x):
        return [x] + argv if where else argv + [x]
    r = run(insert('--no-color'))
    chk.check('\x1b' not in r[1] + r[2], 'no-color', 'escape sequences with '
              '--no-color: %r' % (r,))
    chk.equal((r[0], r[1], r[2]), (plainrun[0], plain(plainrun[1]), plain(
        plainrun[2])), 'no-color', 'output with --no-color')
    v = run(insert(rng.choice(['-v', '--verbose'])))
    chk.equal((v[0], [x for x in plain(v[1]).split('\n') if '-->' in x]),
              (plainrun[0], [x for x in plain(plainrun[1]).split('\n')
                             if '-->' in x]),
              'verbose', 'status and output with --verbose')
    # debugging is turned on by option or environment
    bad = ['--os', 'nosuchos:1'] + base[:-2] + ['resolve', 'x']
    bad = [a for a in bad]
    k = bad.index('--os', 1)
    del bad[k:k + 2]
    n = run(bad)
    chk.check(n[0] == 1 and 'Traceback' not in n[2] and 'nosuchos' in n[2],
              'process', 'unknown OS: %r' % (n,))
    d = run(bad, XYLEM_DEBUG=rng.choice(['1', 'yes', 'on', '2']))
    chk.check(d[0] == 1 and 'Traceback' in plain(d[2]) and 'nosuchos' in d[2],
              'debug', 'unknown OS when debugging: %r' % (d,))
    x = rng.choice([['--version'], ['lookup', '--version'],
                    base + ['--version', 'lookup', 'x']])
    r = run(x)
    import xylem
    chk.check(r[0] == 0 and xylem.__version__ in r[1] + r[2], 'version',
              '%r: %r' % (x, r))
    x = rng.choice([['--help'], ['-h'], ['lookup', '-h'],
                    ['install', '--help'], ['update', '-h']])
    r = run(x)
    chk.check(r[0] == 0 and 'usage' in r[1].lower() and
              'Traceback' not in r[2], 'help', '%r: %r' % (x, r))
