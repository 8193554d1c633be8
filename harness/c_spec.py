"""P44: spec plugins of other distributions."""
import copy
import datetime
import os
import sys
import types

import yaml

import model
from common import fresh_dir, quiet, same_data, tree, write
from plugdist import add_dist, remove_dist
from rules_common import Env, ctx
from stubs import plain

SPECS = ['distro', 'my.spec', 'pin_list', 'x', 'Table2', 'rules2', 'rulesx']
FAMILIES = [['distro', 'distro2', 'dist'], ['x', 'X', 'xx'],
            ['my', 'my.spec', 'my_spec'], ['rules2', 'rules22', '2']]
WORDS = ['alpha', 'beta', 'a b', '../up', 'ünï', '{0}', '%s', '@!x', 'a/b/c',
         'x' * 300, 'C:\\d', '2014', '*', '']
EXTRA = [None, 0, 1, True, 1.5, 'text', '', [], [1, [2, None]], {'k': 'v'},
         {1: 'int key', None: 'null key'}, ['1', 1], datetime.date(2014, 1, 2)]
FAILURES = ['load', 'load', 'verify', 'both', 'keep']


class Unkeepable(object):
    """Data that cannot be written to a cache."""

    def __init__(self, error):
        self.error = error

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, protocol):
        raise self.error


class Remote(object):
    """What the specs load, by (spec name, id)."""

    def __init__(self, rng):
        self.rng, self.data, self.fails, self.old = rng, {}, {}, {}
        self.serial = 0
        self.version = 1    # of all plugins
        self.tag = model.Tags('s')

    def get(self, spec, key):
        if (spec.name, key) not in self.data:
            self.renew(spec, key)
        return self.data[spec.name, key]

    def renew(self, spec, key):
        self.serial += 1
        self.data[spec.name, key] = (self.serial, spec.wrap(
            self.serial, model.gen_rules(self.rng, self.tag, keys=[
                k for k in model.KEYS if self.rng.random() < .5])))


def make_spec(rng, serial, name, remote, events, module, alike):
    """A random spec class and its model."""
    from xylem.exception import XylemError
    from xylem.specs import Spec
    style = rng.choice(['dict', 'tuple', 'object', 'list'])
    partial = rng.random() < .4     # ids made from a part of the arguments
    prefix = rng.choice(['', '', name + ':', 'común/'])
    if alike:                       # other specs make the same ids
        partial, prefix = alike
    errors = [IOError, ValueError, KeyError, XylemError, RuntimeError,
              AssertionError, UnicodeError]

    class Payload(object):

        def __init__(self, content):
            self.content = content

        def __eq__(self, other):
            return self.content == other.content

        def __repr__(self):
            return 'Payload(%r)' % (self.content,)

    Payload.__module__, Payload.__qualname__ = module.__name__, \
        'Payload%d' % serial
    Payload.__name__ = 'Payload%d' % serial
    setattr(module, Payload.__name__, Payload)

    def wrap(n, rules):
        return {'dict': lambda: {'n': n, 'rules': rules},
                'list': lambda: [n, rules, {1, 2}, b'\0'],
                'tuple': lambda: (n, rules, None),
                'object': lambda: Payload({'n': n, 'rules': rules})}[style]()

    def parts(data):
        """(serial number, rules)"""
        data = getattr(data, 'content', data)
        return (data['n'], data['rules']) if isinstance(data, dict) \
            else (data[0], data[1])

    def log(*event):
        events.append((name,) + copy.deepcopy(event))

    def fail(kind, key):
        e = remote.fails.get((name, key))
        if e is not None and e[0] in (kind, 'both'):
            raise errors[e[1] % len(errors)]('failure %d of über' % e[1])

    class Plugin(Spec):

        version = property(lambda self: remote.version)

        def unique_id(self, arguments):
            return prefix + (arguments['id'] if partial else
                             yaml.safe_dump(arguments, sort_keys=True))

        def load_data(self, arguments):
            log('load', arguments)
            key = self.unique_id(arguments)
            fail('load', key)
            n, rules = parts(copy.deepcopy(remote.get(Model, key)[1]))
            e = remote.fails.get((name, key))
            if e is not None and e[0] == 'keep':
                odd = Unkeepable(errors[e[1] % len(errors)]('failure'))
                return [(n, rules, odd), [n, rules, b'x' * 99999, odd]][
                    e[1] % 2]
            return wrap(n, rules)

        def verify_arguments(self, arguments):
            log('arguments', arguments)
            if not isinstance(arguments, dict) or 'id' not in arguments:
                raise ValueError('arguments need an id, not ' +
                                 repr(arguments))

        def verify_data(self, data, arguments):
            log('verify', data, arguments)
            key = self.unique_id(arguments)
            fail('verify', key)

        def is_data_outdated(self, data, arguments, data_load_time):
            log('outdated', data, arguments, data_load_time)
            return parts(data)[0] != remote.get(
                Model, self.unique_id(arguments))[0]

        def lookup(self, data, xylem_key, installer_context):
            log('lookup', data, xylem_key)
            if remote.old.get('bad'):
                return remote.old['bad']
            return model.lookup(
                parts(data)[1], xylem_key, *(
                    installer_context.get_os_tuple() +
                    (installer_context.get_default_installer_name(),)))

        def keys(self, data, installer_context):
            rules = parts(data)[1]
            return [k for k in rules if model.applicable(
                rules, k, *installer_context.get_os_tuple())]

    Plugin.name = property(lambda self: name)
    Plugin.__abstractmethods__ = frozenset()

    class Model(object):
        pass

    Model.name, Model.wrap, Model.parts = name, staticmethod(wrap), \
        staticmethod(parts)
    Model.plugin_name = 'plugin of ' + name
    Model.unique_id = staticmethod(lambda a: Plugin.unique_id(None, a))
    Model.partial, Model.is_rules = partial, False
    Model.definition = dict(plugin_name=Model.plugin_name,
                            description='Specs of %s' % name, spec=Plugin)
    return Model


def p44(chk):
    for i in chk.loop(90, 3000):
        one(chk, chk.rng, i)


class Source(object):

    def __init__(self, spec, arguments):
        self.spec, self.arguments = spec, arguments

    @property
    def id(self):
        return self.spec.unique_id(self.arguments)

    def __repr__(self):
        return '%s: %r' % (self.spec.name, self.arguments)


class RulesModel(object):
    """The built-in spec, as far as mixing goes."""
    name, plugin_name, is_rules, partial = 'rules', 'rules', True, False

    @staticmethod
    def unique_id(arguments):
        return ('rules', arguments)

    @staticmethod
    def parts(data):
        return data


class Case(object):

    def __init__(self, chk, rng, i):
        self.chk, self.rng = chk, rng
        self.env = Env('spec')
        self.remote, self.events = Remote(rng), []
        self.modname = 'xvspecs%d' % i
        self.module = types.ModuleType(self.modname)
        self.specs = []
        alike = rng.random() < .5 and (rng.random() < .5,
                                       rng.choice(['', 'common/']))
        names = rng.choice(FAMILIES) if alike and rng.random() < .5 else SPECS
        for n, name in enumerate(rng.sample(names, rng.randint(
                1 + bool(alike), 3))):
            s = make_spec(rng, n, name, self.remote, self.events,
                          self.module, alike)
            setattr(self.module, 'definition%d' % n, s.definition)
            self.specs.append(s)
        self.files = {}             # file name -> [Source]
        self.cache = {}             # id -> (spec name, serial, rules)
        self.rules_files = {}       # url -> (serial, rules, broken)
        self.history = []
        self.times = {}

    # --- making things ------------------------------------------------

    def arguments(self):
        a = {'id': self.rng.choice(WORDS)}
        for _ in range(self.rng.choice([0, 0, 1, 2])):
            a[self.rng.choice(['branch', 'é', 'opts', 'n'])] = \
                self.rng.choice(EXTRA)
        return a

    def source(self):
        if self.rng.random() < .25:
            name = 'r%d.yaml' % self.rng.randint(0, 5)
            url = self.env.url(name)
            if url not in self.rules_files:
                self.write_rules(name)
            return Source(RulesModel, url)
        return Source(self.rng.choice(self.specs), self.arguments())

    def write_rules(self, name):
        self.remote.serial += 1
        rules = model.gen_rules(self.rng, self.remote.tag)
        url = self.env.write_rules(name, rules)
        broken = self.rng.random() < .15
        if broken:
            self.env.write_rules(name, None, text='[1, 2')
        self.rules_files[url] = (self.remote.serial, rules, broken)

    def current(self):
        return [s for f in sorted(self.files) for s in self.files[f]]

    def edit(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < .5 or not self.files:
                f = rng.choice(['10.yaml', '20.yaml', 'B.yaml', 'a.yaml'])
                self.files.setdefault(f, []).insert(
                    rng.randint(0, len(self.files.get(f, []))),
                    self.source())
            elif r < .65:
                f = rng.choice(sorted(self.files))
                rng.shuffle(self.files[f])
            elif r < .7:
                f = rng.choice(sorted(self.files))
                if self.files[f]:
                    self.files[f].pop(rng.randrange(len(self.files[f])))
            elif r < .9:        # the same thing from another spec
                for s in self.current():
                    if not s.spec.is_rules and rng.random() < .7:
                        s.spec = rng.choice(self.specs)
            else:
                every = [s for s in self.current() if s.spec.partial]
                if every:
                    s = rng.choice(every)
                    s.arguments = dict(self.arguments(),
                                       id=s.arguments['id'])
        if rng.random() > .12:
            seen = set()
            for f in sorted(self.files):
                keep = []
                for s in self.files[f]:
                    if s.id not in seen:
                        seen.add(s.id)
                        keep.append(s)
                self.files[f] = keep
        self.store()

    def store(self):
        for f in os.listdir(self.env.sources):
            os.remove(os.path.join(self.env.sources, f))
        for f, sources in self.files.items():
            self.env.write_sources(f, None, text=yaml.safe_dump(
                [{s.spec.name: s.arguments} for s in sources],
                allow_unicode=self.rng.random() < .5))

    # --- what must happen ---------------------------------------------

    def refused(self):
        """Whether the source list itself is refused."""
        ids = [s.id for s in self.current()]
        return len(ids) != len(set(ids))

    def loads(self, s):
        """(serial, rules) that loading gives, or None."""
        if s.spec.is_rules:
            n, rules, broken = self.rules_files[s.arguments]
            return None if broken else (n, rules)
        if (s.spec.name, s.id) in self.remote.fails:
            return None
        return s.spec.parts(self.remote.get(s.spec, s.id)[1])

    def usable(self, s):
        if s.id not in self.cache or self.cache[s.id][0] != s.spec.name:
            return False
        return s.spec.is_rules or self.remote.fails.get(
            (s.spec.name, s.id), ('load',))[0] in ('load', 'keep')

    def witness(self):
        return dict(history=self.history[-8:], sources=self.current())

    def took(self, event):
        return [e for e in self.events if e[1] == event]


def refused(chk, o, kind, what, **wit):
    from xylem.exception import XylemError
    return chk.raises(o, XylemError, kind, what, **wit) and \
        chk.check(isinstance(o.exc, ValueError), kind,
                  '%s: no ValueError: %r' % (what, o.exc), **wit)


def files(root):
    return {f: v for f, v in tree(root).items() if not f.endswith('/')}


def one(chk, rng, i):
    from xylem.exception import XylemError
    from xylem.lookup import lookup
    from xylem.sources import (RulesDatabase, SourcesContext,
                               UnknownSpecError)
    from xylem.update import update
    c = Case(chk, rng, i)
    env = c.env
    name = 'xvspecdist%d' % i
    d = add_dist(name, {'xylem.specs': [
        ('e%d' % n, '%s:definition%d' % (c.modname, n))
        for n in range(len(c.specs))]}, {c.modname: c.module})
    try:
        for _ in range(2):
            c.edit()
        for step in range(rng.randint(6, 12)):
            op = rng.choice(['update', 'update', 'update', 'update', 'lookup',
                             'lookup', 'lookup', 'keys', 'edit', 'edit',
                             'renew', 'fail', 'mend', 'outdated', 'clear',
                             'invalid', 'unknown', 'disabled', 'bad'])
            c.history.append(op)
            del c.events[:]
            config = env.config()
            before = files(env.cache)
            osv = rng.choice(['ubuntu', 'debian', 'fedora'])
            ic = ctx(osv, rng.choice(model.VERSIONS[osv]))
            key = rng.choice(model.KEYS + ['nosuchkey'])
            what = '%s (after %s)' % (op, ', '.join(c.history[:-1]))
            wit = c.witness()
            chk.count('op_' + op)
            sources = c.current()
            if op == 'edit':
                c.edit()
                continue
            if op in ('renew', 'fail', 'mend'):
                mine = [s for s in sources if not s.spec.is_rules]
                if op == 'renew':
                    # newer plugins may or may not load other data
                    c.remote.version += rng.random() < .5
                    for s in sources:
                        if rng.random() < .5 and not s.spec.is_rules:
                            c.remote.renew(s.spec, s.id)
                        elif s.spec.is_rules and rng.random() < .5:
                            c.write_rules(os.path.basename(s.arguments))
                elif op == 'mend':
                    c.remote.fails.clear()
                elif mine:
                    s = rng.choice(mine)
                    c.remote.fails[s.spec.name, s.id] = (
                        rng.choice(FAILURES), rng.randint(0, 99))
                continue
            if op == 'invalid':
                # arguments that the spec does not allow
                f = rng.choice(['00.yaml', 'zz.yaml'])
                s = rng.choice(c.specs)
                bad = rng.choice([None, 'text', {}, [], 7,
                                  {'no': 'id'}, [{'id': 'x'}]])
                write(os.path.join(env.sources, f),
                      yaml.safe_dump([{s.name: bad}]))
                call = rng.choice([
                    lambda: update(config=config),
                    lambda: lookup(key, config=config, installer_context=ic),
                    lambda: RulesDatabase(SourcesContext(config))])
                o = quiet(call)
                os.remove(os.path.join(env.sources, f))
                if refused(chk, o, 'invalid', '%s %r' % (
                        what, bad), **wit):
                    chk.check(f in str(o.exc), 'invalid', 'the file %s is '
                              'not named: %s' % (f, o.exc))
                got = [e for e in c.took('arguments') if e[0] == s.name]
                chk.check(any(same_data(e[2], bad) for e in got), 'passed',
                          'arguments %r were not passed on: %r' % (
                              bad, got), **wit)
                chk.equal(c.took('load'), [], 'invalid', 'loaded during '
                          + what, **wit)
            elif op == 'unknown':
                f = rng.choice(['00.yaml', 'zz.yaml'])
                odd = rng.choice(['nosuchspec', 'Rules', 'rule',
                                  c.specs[0].name + 'x',
                                  c.specs[0].plugin_name,
                                  c.specs[0].name.swapcase()])
                if odd in [x.name for x in c.specs]:
                    odd = 'nosuchspec'
                write(os.path.join(env.sources, f), yaml.safe_dump(
                    [{odd: {'id': 'x'}}]))
                o = quiet(rng.choice([
                    lambda: update(config=config),
                    lambda: lookup(key, config=config,
                                   installer_context=ic)]))
                os.remove(os.path.join(env.sources, f))
                # what comes before in the list may be refused, too
                if not o.ok and c.refused() and isinstance(
                        o.exc, ValueError):
                    continue
                if chk.raises(o, UnknownSpecError, 'unknown', what, **wit):
                    chk.check(odd in str(o.exc), 'unknown', 'spec %r is not '
                              'named: %s' % (odd, o.exc))
                    chk.check(isinstance(o.exc, XylemError), 'unknown',
                              'no XylemError: %r' % o.exc)
                chk.equal(c.took('load'), [], 'unknown', 'loaded during '
                          + what, **wit)
            elif op == 'disabled':
                off = rng.sample(c.specs + [RulesModel],
                                 rng.randint(1, len(c.specs)))
                config = env.config(disabled_plugins={
                    'spec': [s.plugin_name for s in off]})
                o = quiet(RulesDatabase, *[quiet(
                    SourcesContext, config).value])
                hit = [s for s in sources if s.spec in off]
                if hit:
                    if chk.raises(o, UnknownSpecError, 'disabled', what,
                                  **wit):
                        chk.check(hit[0].spec.name in str(o.exc), 'disabled',
                                  'spec %r is not named: %s' % (
                                      hit[0].spec.name, o.exc))
                        chk.count('disabled_used')
                elif c.refused():
                    refused(chk, o, 'duplicate', what, **wit)
                else:
                    chk.returns(o, 'disabled', what + ' without sources of '
                                'the disabled ones', **wit)
                seen = {e[0] for e in c.events}
                chk.check(not seen & {s.name for s in off}, 'disabled',
                          'disabled plugins were asked: %r of %r' % (
                              seen, [s.name for s in off]), **wit)
            elif c.refused():
                o = quiet(rng.choice([
                    lambda: update(config=config),
                    lambda: lookup(key, config=config,
                                   installer_context=ic)]))
                refused(chk, o, 'duplicate',
                        'two sources of one id: ' + what, **wit)
                chk.equal(c.took('load'), [], 'duplicate', 'loaded during '
                          + what, **wit)
                chk.count('duplicates')
            elif op == 'update':
                begin = datetime.datetime.now()
                o = quiet(update, config=config)
                end = datetime.datetime.now()
                if not chk.returns(o, 'update', what, **wit):
                    return
                said = plain(o.out) + plain(o.err)
                loads = c.took('load')
                want = [s for s in sources if not s.spec.is_rules]
                chk.check(len(loads) == len(want) and all(
                    e[0] == s.spec.name and same_data(e[2], s.arguments)
                    for e, s in zip(loads, want)), 'passed',
                    'loading went to %r, not to %r' % (loads, want), **wit)
                for s in sources:
                    new = c.loads(s)
                    text = s.arguments if s.spec.is_rules else s.id
                    if new is None:
                        chk.check(text in said, 'report', 'failing source '
                                  '%r is not reported: %r' % (s, said),
                                  **wit)
                        chk.count('failed_loads')
                    else:
                        c.cache[s.id] = (s.spec.name,) + new
                        c.times[s.id] = begin, end
                        chk.count('loads')
                verified = c.took('verify')
                for s in want:
                    if (s.spec.name, s.id) in c.remote.fails:
                        continue
                    chk.check(any(
                        e[0] == s.spec.name and same_data(
                            e[3], s.arguments) and
                        s.spec.parts(e[2]) == c.loads(s) for e in verified),
                        'passed', 'what %r loaded was not given to its '
                        'verification: %r' % (s, verified), **wit)
                before = None
            elif op in ('lookup', 'keys', 'bad'):
                usable = [c.usable(s) for s in sources]
                mine = [s for s in sources if not s.spec.is_rules]
                if op == 'bad':
                    if not mine:
                        continue
                    c.remote.old['bad'] = rng.choice([
                        {'default_installer': {'packages': ['p']}},
                        {'apt': 'text'}, {'apt': {'packages': 'p'}},
                        {'a b': {'packages': []}}, [{'apt': {}}], 7,
                        {'apt': {'depends': ['a b']}}, 'text',
                        {1: {'packages': []}}, {'apt': None}])
                if op == 'keys':
                    def find():
                        db = RulesDatabase(SourcesContext(config))
                        db.load_from_cache()
                        return db.keys(ic)
                    o = quiet(find)
                else:
                    o = quiet(lookup, key, config=config,
                              installer_context=ic)
                bad = c.remote.old.pop('bad', None)
                if not all(usable):
                    chk.count('refused_lookups')
                    s = [s for s, u in zip(sources, usable) if not u][0]
                    if s.id in c.cache and c.cache[s.id][0] != s.spec.name:
                        chk.count('other_spec')
                    text = s.arguments if s.spec.is_rules else s.id
                    if chk.raises(o, XylemError, 'refused', '%s without '
                                  'data for %r' % (what, s), **wit):
                        chk.check(text in str(o.exc) and 'update' in
                                  str(o.exc), 'refused', 'unclear message: '
                                  '%s' % o.exc, **wit)
                elif op == 'bad':
                    chk.raises(o, Exception, 'bad-answer', 'a spec answers '
                               '%r: %s' % (bad, what), **wit)
                elif chk.returns(o, 'lookup', what, **wit):
                    rules = [c.cache[s.id][2] for s in sources]
                    if op == 'keys':
                        want = sorted({k for r in rules for k in r
                                       if model.applicable(
                                           r, k, *ic.get_os_tuple())})
                        chk.check(isinstance(o.value, list) and
                                  sorted(o.value) == want, 'keys',
                                  '%s gives %r, expected %r' % (
                                      what, o.value, want), **wit)
                    else:
                        want = model.overlay([model.lookup(
                            r, key, *(ic.get_os_tuple() + (ic.d,)))
                            for r in rules])
                        chk.check(same_data(o.value, want), 'lookup',
                                  '%s of %s for %r gives %r, expected %r' % (
                                      what, key, ic.get_os_tuple(), o.value,
                                      want), **wit)
                        asked = c.took('lookup')
                        chk.check(all(e[3] == key for e in asked), 'passed',
                                  'specs were asked for %r, not %r' % (
                                      asked, key), **wit)
                        if len({s.spec for s in sources}) > 1 and want:
                            chk.count('mixed_lookups')
                    chk.check(not c.took('load'), 'lookup', 'loaded again '
                              'by ' + what, **wit)
                    chk.count('answers')
            elif op == 'outdated':
                o = quiet(lambda: RulesDatabase(
                    SourcesContext(config)).sources)
                if not chk.returns(o, 'outdated', what, **wit):
                    continue
                if not chk.equal(len(o.value), len(sources), 'outdated',
                                 'number of sources', **wit):
                    continue
                for s, src in zip(sources, o.value):
                    if s.spec.is_rules:
                        continue
                    del c.events[:]
                    there = quiet(src.is_cache_available)
                    chk.equal(there.ok and there.value, s.id in c.cache,
                              'available', '%r: %s' % (s, what), **wit)
                    r = quiet(src.is_cache_outdated)
                    asked = c.took('outdated')
                    if s.id not in c.cache or \
                            c.cache[s.id][0] != s.spec.name:
                        chk.check(r.ok and r.value is True and not asked,
                                  'outdated', 'without data of the spec, %r '
                                  'is outdated: %r; asked %r' % (
                                      s, r, asked), **wit)
                        chk.count('outdated_missing')
                        continue
                    want = c.cache[s.id][1] != c.remote.get(
                        s.spec, s.id)[0]
                    chk.check(r.ok and bool(r.value) == want, 'outdated',
                              '%r is outdated: %r, expected %r' % (
                                  s, r, want), **wit)
                    if chk.equal(len(asked), 1, 'passed', 'times asked '
                                 'whether %r is outdated' % s, **wit):
                        e = asked[0]
                        lo, hi = c.times[s.id]
                        chk.check(
                            e[0] == s.spec.name and
                            s.spec.parts(e[2]) == c.cache[s.id][1:] and
                            same_data(e[3], s.arguments) and
                            isinstance(e[4], datetime.datetime) and
                            lo <= e[4] <= hi, 'passed', 'asked whether %r '
                            'is outdated with %r; cached %r, loaded between '
                            '%s and %s' % (s, e, c.cache[s.id], lo, hi),
                            **wit)
                    chk.count('outdated_asked')
            elif op == 'clear':
                o = quiet(lambda: RulesDatabase(
                    SourcesContext(config)).sources)
                if not chk.returns(o, 'clear', what, **wit) or not o.value:
                    continue
                n = rng.randrange(len(o.value))
                r = quiet(o.value[n].clear_cache)
                chk.returns(r, 'clear', what, **wit)
                c.cache.pop(sources[n].id, None)
                chk.equal(o.value[n].is_cache_available(), False,
                          'clear', 'available after ' + what, **wit)
                for s, src in zip(sources, o.value):
                    chk.equal(src.is_cache_available(), s.id in c.cache,
                              'clear', 'whether data of %r is there after %s'
                              % (s, what), **wit)
                before = None
            if before is not None:
                chk.equal(files(env.cache), before, 'cache', 'files after '
                          + what, **wit)
            # each source has its own file, and nothing else is there
            ids = len(c.cache)
            chk.equal(len([f for r, _, fs in os.walk(env.cache)
                           for f in fs]), ids, 'cache', 'number of cached '
                      'sources after ' + what, **wit)
            chk.case((i, step, op, len(sources),
                      [s.spec.name for s in sources]),
                     sample='%s with %r' % (what, sources),
                     nontrivial=any(not s.spec.is_rules for s in sources))
    finally:
        remove_dist(d, name)
        sys.modules.pop(c.modname, None)
