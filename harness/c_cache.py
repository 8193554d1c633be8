"""P08-P13: source files, the cache, updates, faults and concurrency."""
import contextlib
import datetime
import glob
import os
import pickle
import random
import shutil
import socket
import time

import faults
import model
from common import (REPO, deepcopy, fresh_dir, observe, quiet, same_data,
                    short, tree, write)
from rules_common import Env, StubContext, cli, ctx, dump

KNOWN_OS = {'ubuntu': ['lucid', 'precise', 'trusty'],
            'debian': ['wheezy', 'jessie'],
            'osx': ['lion', 'mountain lion', 'mavericks']}


@contextlib.contextmanager
def shuffled_listings(rng):
    """The file system lists directories in any order."""
    listdir, scandir = os.listdir, os.scandir

    def my_listdir(*a):
        x = sorted(listdir(*a))
        rng.shuffle(x)
        return x

    class my_scandir(object):
        def __init__(self, *a):
            with scandir(*a) as it:
                self.x = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.x)
            self.it = iter(self.x)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass
    os.listdir, os.scandir = my_listdir, my_scandir
    try:
        yield
    finally:
        os.listdir, os.scandir = listdir, scandir


# --- P08 --------------------------------------------------------------

MALFORMED = ['- rules: [\n', '{', '- a: b: c\n', '\t- x\n', '- rules: "x\n',
             '@\n', '- rules: *nope\n', '- {rules: x\n', '\x01\n',
             '- rules: http://x/\x07\n', '- rules: "\\q"\n']
WRONG = ['- 1\n', '- text\n', '- [a]\n', '- {a: b, c: d}\n', '- {}\n', '7\n',
         'text\n', 'rules: http://x/y\n', '- {1: x}\n', '- {null: x}\n',
         '- {true: x}\n', '- null\n', '- rules: [a]\n', '- rules: 1\n',
         '- rules: {a: b}\n', '- rules:\n', '- unknownspec: x\n',
         '- Rules: http://x/y\n', '- {rules: http://x/y, Rules: http://x/y}\n',
         '- {rules: http://x/y, rules2: http://x/z}\n', '- rules: x\n- rules: y\n- 3\n']


def p08(chk):
    from xylem.sources import RulesDatabase
    rng = chk.rng

    def observed(db):
        return [(s.origin, s.spec.name, s.arguments) for s in db.sources]

    def build(env):
        with shuffled_listings(rng):
            return quiet(env.database)

    def name():
        stem = rng.choice(['%02d-' % rng.randrange(100), '', '', rng.choice(
            ['_', '#', '@', '%', 'my source ', '+', '=x', '~', '-', 'x.y-',
             'default', 'README', '{0}', 'é', '%s'])]) + ''.join(
            rng.choice('abcdxyz019') for _ in range(rng.randint(1, 3)))
        return stem

    for i in chk.loop(300, 12000):
        env = Env()
        used, ignored, malformed, wrong = {}, [], [], None
        n = 0
        todo, linked = [], set()
        for _ in range(rng.randint(0, 8)):
            kind = rng.choice(['ok'] * 5 + ['hidden', 'ext', 'dir', 'link',
                                            'sock', 'malformed'])
            if rng.random() < .04 and wrong is None:
                kind = 'wrong'
            f = name() + '.yaml'
            if todo and rng.random() < .3:
                # one name that starts with the other
                f = os.path.splitext(rng.choice(todo)[0])[0].lstrip(
                    '.') + rng.choice(
                    ['-', '.', '_', '+', ' ', 'a', '0', '-b', '.c', ',']) + \
                    '.yaml'
                chk.count('longer_names')
            if f in used or any(t[0] == f for t in todo):
                continue
            if kind == 'ok':
                urls = []
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    n += 1
                    urls.append('http://host/%s%d.yaml' % (
                        rng.choice(['', 'r', 'z']), n))
                rng.shuffle(urls)
                used[f] = urls
                if rng.random() < .15:
                    linked.add(f)
                todo.append((f, dump([{'rules': u} for u in urls])))
            elif kind == 'hidden':
                f = rng.choice(['.', '._', '.#', '..']) + f
                ignored.append(f)
                todo.append((f, '- rules: http://hidden/%d\n' % n))
            elif kind == 'ext':
                f = rng.choice([f + '~', f + '.bak', f[:-5] + '.yml', f[:-5],
                                f[:-5] + 'yaml', f + '.d', f[:-1] + '.txt',
                                f[:-5] + '.YAML', f[:-5] + '.Yaml',
                                f + ' ', f[:-5] + '.yaml.YAML'])
                if f.endswith('.yaml') or any(t[0] == f for t in todo):
                    continue
                ignored.append(f)
                todo.append((f, '- rules: http://other/%d\n' % n))
            elif kind in ('dir', 'link', 'sock'):
                ignored.append(f)
                todo.append((f, kind))
            elif kind == 'malformed':
                malformed.append(f)
                todo.append((f, rng.choice(MALFORMED)))
            else:
                wrong = f
                text = rng.choice(WRONG)
                if used and rng.random() < .4:
                    some = [u for us in used.values() for u in us]
                    if some:
                        text = '- rules: %s\n' % rng.choice(some)
                todo.append((f, text))
        rng.shuffle(todo)
        for f, what in todo:
            p = os.path.join(env.sources, f)
            if what == 'dir':
                os.mkdir(p)
                write(os.path.join(p, 'in.yaml'), '- rules: http://in/x\n')
            elif what == 'link':
                os.symlink(rng.choice(['nowhere.yaml', env.rules]), p)
            elif what == 'sock':
                s = socket.socket(socket.AF_UNIX)
                cwd = os.getcwd()
                os.chdir(env.sources)
                try:
                    s.bind(f)
                finally:
                    os.chdir(cwd)
                s.close()
            elif f in linked:
                # a link to a file elsewhere: the source file is the link
                there = os.path.join(env.root, 'elsewhere')
                os.makedirs(there, exist_ok=True)
                write(os.path.join(there, f[:-5]), what)
                os.symlink(rng.choice(['../elsewhere/', there + '/']) +
                           f[:-5], p)
                chk.count('linked_files')
            else:
                write(p, what)
        out = build(env)
        what = [(f, w) for f, w in todo]
        if wrong is not None:
            chk.count('wrong_files')
            chk.check(not out.ok, 'wrong-source-accepted', lambda: 'source '
                      'file %r with wrong content accepted: %s' % (
                          wrong, observed(out.value)), files=what)
        elif chk.returns(out, 'sources-raise', 'reading sources', files=what):
            want = [(os.path.join(env.sources, f), 'rules', u)
                    for f in sorted(used) for u in used[f]]
            got = observed(out.value)
            chk.check(got == want, 'wrong-sources', lambda: 'got sources %s, '
                      'expected %s' % (got, want), files=what)
            for f in malformed:
                chk.count('malformed_files')
                chk.check(f in out.err, 'malformed-not-reported', lambda:
                          'malformed %r is not reported: %r' % (f, out.err))
            chk.count('sources', len(want))
            chk.count('files_ignored', len(ignored))
        chk.case(what, sample=what, nontrivial=len(used) > 1)
        shutil.rmtree(env.root)
    # built-in defaults if and only if the directory does not exist
    import yaml
    ddir = os.path.join(REPO, 'xylem', 'sources', 'sources.d')
    want = []
    for f in sorted(os.listdir(ddir)):
        with open(os.path.join(ddir, f), encoding='utf-8') as h:
            want.extend(list(d.items())[0] for d in yaml.safe_load(h))
    for i in range(6):
        env = Env()
        if i % 2:
            for f in range(rng.randint(0, 2)):
                write(os.path.join(env.sources, '.h%d.yaml' % f), '- x\n')
        else:
            os.rmdir(env.sources)
        out = build(env)
        if chk.returns(out, 'sources-raise', 'reading default sources'):
            got = [(s.spec.name, s.arguments) for s in out.value.sources]
            chk.equal(got, [] if i % 2 else want, 'wrong-default-sources',
                      'sources for %s directory' % (
                          'an empty' if i % 2 else 'no'))
        chk.count('default_source_checks')
        chk.case(('default', i))


# --- P09 --------------------------------------------------------------

def similar_names(rng):
    """File names that differ little; all denote different files."""
    pool = ['a.yaml', 'A.yaml', 'aa.yaml', 'a.yam', 'a', 'a.yaml.yaml',
            'b.yaml', 'ab.yaml', 'ba.yaml', 'a-b.yaml', 'a_b.yaml', 'a1.yaml',
            'a01.yaml', '1a.yaml', 'a b.yaml'.replace(' ', '+'), 'x/a.yaml',
            'x/x/a.yaml', 'xa.yaml', 'a.yaml1', 'a.yaml2', 'index.html',
            'B.yaml']
    return rng.sample(pool, 6)


def versioned_rules(name, version, tag=None):
    return {'key-of-%d' % (abs(hash(name)) % 97): {
        'any_os': {'any_version': {'pip': {'packages': [
            'p', '%s' % name, 'v%d' % version]}}}},
        'common': {'ubuntu': {'any_version': {
            'apt': {'packages': ['%s-%d' % (name, version)]}}}}}


def p09(chk):
    from xylem.update import update
    from xylem.sources import RulesDatabase
    rng = chk.rng
    for i in range(chk.n(1, 2)):
        many_sources(chk, rng, chk.n(1500, 6000))
    for i in range(chk.n(12, 200)):
        alike_sources(chk, rng)
    for i in chk.loop(60, 1200):
        env = Env()
        names = similar_names(rng)
        version = 0
        content = {}
        listing = {}            # file -> names

        def put(name, rules, text=None):
            p = os.path.join(env.rules, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            write(p, dump(rules) if text is None else text)

        def new_content(name):
            if rng.random() < .08:
                return {}
            if rng.random() < .5:
                return versioned_rules(name, version)
            return model.gen_rules(rng, model.Tags('%s-v%d-' % (name,
                                                                version)))

        def relist():
            for f in os.listdir(env.sources):
                os.remove(os.path.join(env.sources, f))
            listing.clear()
            chosen = rng.sample(names, rng.randint(1, len(names)))
            for f in rng.sample(['1.yaml', '2.yaml', 'a.yaml', 'z.yaml'],
                                rng.randint(1, 3)):
                listing[f] = []
            for n in chosen:
                listing[rng.choice(sorted(listing))].append(n)
            for f, ns in listing.items():
                env.write_sources(f, [env.url(n) for n in ns], text=None
                                  if ns else '[]\n')

        for n in names:
            content[n] = new_content(n)
            put(n, model.shorten(rng, content[n]))
        relist()
        cached = {}             # name -> (data, origin, time)
        history = []
        for step in range(rng.randint(4, 9)):
            op = rng.choice(['update', 'update', 'edit', 'edit', 'break',
                             'relist', 'read', 'touch'])
            history.append(op)
            if op == 'touch':
                # clocks that were wrong
                for d, _, fs in os.walk(env.cache):
                    for f in fs:
                        t = time.time() + rng.choice([-1e9, -9, 9, 1e6, 1e8])
                        os.utime(os.path.join(d, f), (t, t))
            if op == 'edit':
                version += 1
                n = rng.choice(names)
                content[n] = new_content(n)
                put(n, model.shorten(rng, content[n]))
            elif op == 'break':
                n = rng.choice(names)
                content[n] = None
                put(n, None, rng.choice(['a: [', 'a: 7', '[1]', 'a: {b: 3}']))
            elif op == 'relist':
                relist()
            elif op == 'update':
                use_db = rng.random() < .5
                if use_db:
                    ctxt = env.context()
                    o = quiet(ctxt.ensure_cache_dir)
                    db = RulesDatabase(ctxt)
                    db.raise_on_error = False
                    o = quiet(db.update)
                    if o.ok and rng.random() < .5:
                        # once more, the rules being the same or not
                        listed = [n for ns in listing.values() for n in ns]
                        if rng.random() < .6:
                            version += 1
                            n = rng.choice(listed)
                            content[n] = rng.choice(
                                [{}, new_content(n), new_content(n)])
                            put(n, model.shorten(rng, content[n]))
                        before = datetime.datetime.now()
                        o = quiet(db.update)
                        chk.count('updated_again')
                        for s in db.sources:
                            n = [x for x in names if env.url(x) ==
                                 s.arguments][0]
                            if content[n] is None:
                                continue
                            t = s.time_data_loaded
                            chk.check(t is not None and before <= t <=
                                      datetime.datetime.now(),
                                      'wrong-load-time', lambda: '%s was '
                                      'loaded just now, not %s' % (n, t),
                                      history=history)
                    times = {s.arguments: s.time_data_loaded
                             for s in db.sources if s.data is not None}
                else:
                    o = quiet(update, config=env.config())
                    times = {}
                if not chk.returns(o, 'update-raises', 'update',
                                   history=history):
                    break
                for f, ns in listing.items():
                    for n in ns:
                        if content[n] is not None:
                            cached[n] = (deepcopy(content[n]),
                                         os.path.join(env.sources, f),
                                         times.get(env.url(n)))
                chk.count('updates')
            # what the cache has now, with the rules files out of reach
            hidden = env.rules + '.gone'
            os.rename(env.rules, hidden)
            try:
                db = env.database()
                db.raise_on_error = False
                out = quiet(db.load_from_cache)
                chk.returns(out, 'cache-load-raises', 'loading from cache',
                            history=history)
                where = {env.url(n): n for n in names}
                for s in db.sources:
                    n = where.get(s.arguments)
                    there = quiet(s.is_cache_available)
                    if chk.returns(there, 'cache-load-raises', 'asking for '
                                   'the cache', history=history):
                        chk.equal(there.value, n in cached,
                                  'wrong-availability', 'cached data of %s'
                                  % n, history=history)
                    if not chk.check(n is not None, 'wrong-arguments',
                                     lambda: 'source has arguments %r' % (
                                         s.arguments,)):
                        continue
                    if n not in cached:
                        chk.check(s.data is None, 'data-from-nowhere', lambda:
                                  '%s was never loaded but the cache gives %s'
                                  % (n, short(s.data)), history=history)
                        continue
                    data, origin, t = cached[n]
                    chk.count('sources_read')
                    chk.check(same_data(s.data, data), 'wrong-cached-data',
                              lambda: 'cache of %s gives %s, expected %s' % (
                                  n, short(s.data), short(data)),
                              history=history)
                    chk.equal(s.origin, origin, 'wrong-cached-origin',
                              'origin of %s' % n, history=history)
                    if t is not None:
                        chk.equal(s.time_data_loaded, t, 'wrong-cached-time',
                                  'load time of %s' % n, history=history)
                    else:
                        chk.check(isinstance(s.time_data_loaded,
                                             datetime.datetime),
                                  'wrong-cached-time', lambda: 'load time of '
                                  '%s is %r' % (n, s.time_data_loaded))
                        cached[n] = (data, origin, s.time_data_loaded)
                # all available: lookups and listings work offline
                if all(n in cached for ns in listing.values() for n in ns):
                    order = [cached[n][0] for f in sorted(listing)
                             for n in listing[f]]
                    qs = list(model.queries(order))
                    for k, o, v in rng.sample(qs, min(len(qs), 8)):
                        c = ctx(o, v)
                        r = quiet(db.lookup, k, c)
                        if chk.returns(r, 'lookup-raises', 'offline lookup'):
                            chk.check(same_data(r.value, model.overlay(
                                [model.lookup(d, k, o, v, c.d)
                                 for d in order])), 'wrong-offline-lookup',
                                lambda: 'offline lookup of %r on %s:%s gave '
                                '%s' % (k, o, v, short(r.value)))
                        r = quiet(db.keys, c)
                        chk.returns(r, 'lookup-raises', 'offline keys')
                        chk.count('offline_lookups')
            finally:
                os.rename(hidden, env.rules)
            chk.count('steps')
        chk.case((history, sorted(names), version), sample=history,
                 nontrivial=history.count('update') > 1)
        shutil.rmtree(env.root)


def many_sources(chk, rng, n):
    """No two of many sources share their cache."""
    from xylem.update import update
    env = Env()
    os.makedirs(os.path.join(env.rules, 'd'))
    names = ['%s%d.yaml' % (rng.choice(['', 'd/']), i) for i in range(n)]
    for name in names:
        env.write_rules(name, None, 'k:\n  any_os:\n    pip: [p%s]\n' %
                        name.replace('/', '.'))
    order = list(names)
    rng.shuffle(order)
    env.write_sources('a.yaml', [env.url(x) for x in order[:n // 2]])
    env.write_sources('b.yaml', [env.url(x) for x in order[n // 2:]])
    out = quiet(update, config=env.config())
    if not chk.returns(out, 'update-raises', 'update'):
        return
    db = env.database()
    out = quiet(db.load_from_cache)
    if not chk.returns(out, 'cache-load-raises', 'loading many sources'):
        return
    chk.equal([s.arguments for s in db.sources], [env.url(x) for x in order],
              'wrong-arguments', 'the sources of a large cache')
    for s, name in zip(db.sources, order):
        chk.count('many_sources_read')
        chk.equal(s.is_cache_available(), True, 'wrong-availability',
                  'cached data of %s' % name)
        chk.equal(s.data, {'k': {'any_os': {'any_version': {'pip': {
            'packages': ['p' + name.replace('/', '.')]}}}}},
            'wrong-cached-data', 'cache of %s, one of %d sources' % (name, n))
    chk.case(('many', n))
    shutil.rmtree(env.root)


def alike_ids(rng):
    """Texts that differ as little as identifiers of sources can."""
    base = ''.join(rng.choice('abcxyzABC019-_.~%+') for _ in range(
        rng.choice([1, 3, 12, 40, 300, 5000])))
    base = rng.choice(['', 'http://a.b/', 'file:///x/', '\u00e9/']) + base
    pool = {base}
    for x in ['/', '//', '?', '#', '?a', '#a', '%20', ' ', '.', '.pickle', '0',
              '\u00e9', '\u00e8', 'e\u0301', '\u65e5', '\u672c', '?' * 2,
              '\U0001f600', '\U0001f601', 'yaml', '.yaml', '-', '_', '\x7f']:
        pool.add(base + x)
    for x in ['/', ' ', '\u00e9', 'a', '.']:
        pool.add(x + base)
        at = rng.randint(0, len(base))
        pool.add(base[:at] + x + base[at:])
    pool |= {base.upper(), base.lower(), base[:-1] + 'Q', 'Q' + base[1:],
             base.replace('://', ':/'), base + base, base.swapcase()}
    pool.discard('')
    pool = sorted(pool)
    rng.shuffle(pool)
    return pool[:rng.choice([2, 8, 60])]


def alike_sources(chk, rng):
    """Sources are told apart by any difference of their identifiers."""
    from xylem.specs import Spec
    from xylem.sources import RulesDatabase, SourcesContext

    class AlikeSpec(Spec):
        name = 'rules'
        version = 1

        def unique_id(self, arguments):
            return arguments

        def load_data(self, arguments):
            return {'of': [arguments]}

        def verify_arguments(self, arguments):
            pass

        def verify_data(self, data, arguments):
            pass

        def is_data_outdated(self, *a):
            return True

        def lookup(self, data, key, ic):
            return {}

        def keys(self, data, ic):
            return []

    env = Env()
    ids = alike_ids(rng)
    env.write_sources('s.yaml', ids)
    spec = AlikeSpec()

    def database():
        ctxt = SourcesContext(config=env.config(), spec_plugins=[spec])
        ctxt.ensure_cache_dir()
        db = RulesDatabase(ctxt)
        db.raise_on_error = False
        return db

    out = quiet(database)
    if not chk.returns(out, 'alike-sources-refused', 'sources with similar '
                       'identifiers', ids=ids):
        return
    db = out.value
    chk.returns(quiet(db.update), 'update-raises', 'update', ids=ids)
    db = database()
    out = quiet(db.load_from_cache)
    if chk.returns(out, 'cache-load-raises', 'loading', ids=ids):
        chk.equal(len(db.sources), len(ids), 'wrong-arguments',
                  'number of sources')
        for s in db.sources:
            chk.count('alike_sources_read')
            chk.check(s.data == {'of': [s.arguments]}, 'shared-cache', lambda:
                      'the cache of %s gives %s' % (
                          ascii(s.arguments)[-300:],
                          ascii(s.data)[-300:]), ids=ids)
    chk.case(('alike', tuple(ids)), nontrivial=len(ids) > 1)
    shutil.rmtree(env.root)


# --- P10 --------------------------------------------------------------

BAD_RULES = ['a: [', 'a: 7\n', '[1]\n', 'a: {b: 3}\n', b'\xff\xfe\xfa',
             'any_os: {ubuntu: x}\n', 'a: {any_os: [x]}\n', '"a b": {}\n',
             'text', 'a:\n  ubuntu:\n    precise: 7\n', b'a: \x80\n',
             '- a: b\n', 'a: {ubuntu: {precise: {apt: {packages: 7}}}}\n',
             'a: {ubuntu: {precise: {apt: {depends: [any_os]}}}}\n', '1: {}\n',
             'a: 2014-99-99\n', '{a: {}, a', 'a: !!python/object:os.system x']


def state(s):
    return (deepcopy(s.data), s.arguments, s.origin, s.time_data_loaded)


def p10(chk):
    from xylem.sources import RulesDatabase, SourcesContext
    from xylem.update import update
    import model as m
    rng = chk.rng

    def unchanged(s, before, what, **w):
        now = state(s)
        chk.check(same_data(now[0], before[0]) and now[1:] == before[1:],
                  'state-changed', lambda: '%s changed the source from %s to '
                  '%s' % (what, short(before), short(now)), **w)

    for i in chk.loop(60, 1500):
        env = Env()
        rules = model.gen_rules(rng)
        n = rng.randint(1, 3)
        which = rng.randrange(n)
        for j in range(n):
            env.write_rules('r%d.yaml' % j, rules)
        env.write_sources('s.yaml', [env.url('r%d.yaml' % j)
                                     for j in range(n)])
        o = quiet(update, config=env.config())
        if not chk.returns(o, 'update-raises', 'update'):
            continue
        before_tree = tree(env.cache)
        db = env.database()
        o = quiet(db.load_from_source if i % 2 else db.load_from_cache)
        if not chk.returns(o, 'load-raises', 'loading'):
            continue
        s = db.sources[which]
        before = state(s)
        cachefile = s.cache_file_path()
        good = open(cachefile, 'rb').read()
        # 1. the source goes bad
        p = os.path.join(env.rules, 'r%d.yaml' % which)
        kind = rng.choice(['text'] * 6 + ['gone', 'dir'])
        os.remove(p)
        if kind == 'text':
            bad = rng.choice(BAD_RULES)
            write(p, bad)
        elif kind == 'dir':
            bad = 'directory'
            os.mkdir(p)
        else:
            bad = 'missing'
        for _ in range(rng.randint(1, 2)):
            o = quiet(s.load_from_source)
            chk.count('bad_source_loads')
            if chk.check(not o.ok, 'bad-source-accepted', lambda:
                         'loading %r did not fail' % (bad,)):
                unchanged(s, before, 'a failing load', bad=bad)
        others = [state(x) for x in db.sources]
        db.raise_on_error = False
        o = quiet(db.update)
        chk.returns(o, 'update-raises', 'updating with a bad source')
        unchanged(s, before, 'an update with a bad source', bad=bad)
        with open(cachefile, 'rb') as f:
            chk.check(f.read() == good, 'bad-data-cached', lambda: 'the cache '
                      'of the source with %r changed' % (bad,))
        # a source that has never been loaded stays out of the cache
        os.remove(cachefile)
        o = quiet(update, config=env.config())
        chk.returns(o, 'update-raises', 'update with a bad source')
        chk.check(not os.path.exists(cachefile), 'bad-data-cached', lambda:
                  'data of the source with %r was cached' % (bad,))
        # 2. the cache file goes bad
        try:
            entry = pickle.loads(good)
        except Exception:
            entry = None
        todo = [rng.choice(['cut', 'cut', 'cut', 'empty', 'text', 'dir',
                            'gone', 'pickle', 'pickle', 'missing-entry',
                            'other-kind', 'bad-data', 'bad-data'])
                for _ in range(n_bad(chk))]
        absent = sorted(entry) if isinstance(entry, dict) else []
        todo.extend(['missing-entry'] * len(absent))
        for kind in todo:
            if not isinstance(entry, dict) and kind in (
                    'missing-entry', 'other-kind', 'bad-data'):
                kind = 'cut'
            blob = None
            if kind == 'cut':
                blob = good[:rng.randrange(len(good))]
            elif kind == 'empty':
                blob = b''
            elif kind == 'text':
                blob = rng.choice([b'text', b'a: b\n', b'{}', b'\0' * 40,
                                   b'\x80'])
            elif kind == 'pickle':
                blob = pickle.dumps(rng.choice(
                    [None, 1, 'x', [], {}, [1, 2], {'data': rules},
                     {'a': 1}, rules, (1, 2)]), 2)
            elif kind == 'missing-entry':
                # other data than what is loaded, lacking one entry
                e = dict(entry)
                for k in e:
                    if same_data(e[k], before[0]):
                        e[k] = model.gen_rules(rng)
                k = absent.pop() if absent else rng.choice(sorted(e))
                del e[k]
                kind += ' ' + k
                blob = pickle.dumps(e, 2)
            elif kind == 'other-kind':
                e = dict(entry)
                hit = [k for k in e if e[k] == 'rules']
                if not hit:
                    continue
                e[hit[0]] = rng.choice(
                    ['rosdistro', 'Rules', '', None, 'rules2', 'rule', 'rules ',
                     ' rules', 'xrules', 'RULES', 'ru', ['rules'], b'rules'])
                blob = pickle.dumps(e, 2)
            elif kind == 'bad-data':
                e = dict(entry)
                hit = [k for k in e if same_data(e[k], before[0])]
                if not hit:
                    continue
                e[hit[0]] = rng.choice(
                    [None, 7, [], 'x', {'a': 7}, {'a b': {}}, {1: {}},
                     {'any_os': {}}, {'a': {'ubuntu': ['x']}},
                     {'a': {'ubuntu': {'precise': ['x']}}},
                     {'a': {'ubuntu': {'precise': {'apt': ['x']}}}},
                     {'a': {'any_os': {'any_version': {
                         'default_installer': {'packages': []}}}}},
                     {'a': {'ubuntu': {'precise': {
                         'apt': {'packages': 'x'}}}}}])
                kind += ' %r' % (e[hit[0]],)
                for k in e:
                    if e[k] == before[2] and rng.random() < .5:
                        e[k] = '/elsewhere/x.yaml'
                    elif e[k] == before[3] and rng.random() < .5:
                        e[k] = datetime.datetime(2001, 2, 3)
                blob = pickle.dumps(e, 2)
            if os.path.isdir(cachefile):
                os.rmdir(cachefile)
            elif os.path.exists(cachefile):
                os.remove(cachefile)
            if blob is not None:
                write(cachefile, blob)
            elif kind == 'dir':
                os.mkdir(cachefile)
            o = quiet(s.load_from_cache)
            chk.count('bad_cache_loads')
            if chk.check(not o.ok, 'bad-cache-accepted', lambda: 'cache file '
                         '(%s) was accepted: %s' % (kind, short(state(s))),
                         blob=blob):
                unchanged(s, before, 'loading a bad cache file (%s)' % kind)
            db.raise_on_error = False
            o = quiet(db.load_from_cache)
            chk.returns(o, 'load-raises', 'tolerant loading from cache')
            unchanged(s, before, 'loading a bad cache file (%s)' % kind)
            chk.case((kind, blob and len(blob), rules), sample=kind)
        shutil.rmtree(env.root)

    # 3. nothing unverified comes out of a lookup
    from xylem.specs import Spec

    class StubSpec(Spec):
        name = 'rules'
        version = 1
        answer = None

        def unique_id(self, arguments):
            return arguments

        def load_data(self, arguments):
            return {}

        def verify_arguments(self, arguments):
            pass

        def verify_data(self, data, arguments):
            pass

        def is_data_outdated(self, *a):
            return True

        def lookup(self, data, key, ic):
            return deepcopy(self.answer)

        def keys(self, data, ic):
            return []

    env = Env()
    env.write_sources('s.yaml', ['x', 'y'])
    spec = StubSpec()
    ctxt = SourcesContext(config=env.config(), spec_plugins=[spec])
    db = RulesDatabase(ctxt)
    quiet(db.load_from_source)
    bads = [None, 7, ['x'], 'x', {'apt': ['x']}, {'apt': 'x'}, {'apt': None},
            {'default_installer': {'packages': ['x']}}, {1: {}},
            {'apt': {'packages': 'x'}}, {'apt': {'packages': None}},
            {'a b': {'packages': []}}, {'any_os': {'packages': []}},
            {'apt': {'packages': ['x'], 'depends': 'y'}}, {'apt': {1: 2}},
            {'apt': {'depends': ['a b']}}, {'any_version': {}},
            {'apt': {'packages': ['x']}, 'default_installer': {}},
            {'pip': {'packages': []}, 'apt': 3}]
    goods = [{}, {'apt': {'packages': ['x']}}, {'pip': {}},
             {'apt': {'packages': []}, 'pip': {'packages': ['a', 'b']}}]
    for a in bads + goods:
        spec.answer = a
        o = quiet(db.lookup, 'k', ctx('ubuntu', 'precise'))
        chk.count('verified_lookups')
        if a in goods:
            if chk.returns(o, 'good-lookup-rejected', 'lookup giving %r' % a):
                chk.equal(o.value, a, 'good-lookup-rejected', 'lookup')
        else:
            chk.check(not o.ok, 'bad-lookup-returned', lambda: 'lookup '
                      'returned %r' % (o.value,))
        chk.case(('lookup', repr(a)))


def n_bad(chk):
    return chk.n(6, 20)


# --- P11 --------------------------------------------------------------

def big_rules(name, version, n):
    """Rules of about ``n`` kilobytes."""
    r = versioned_rules(name, version)
    if n:
        r['filler'] = {'any_os': {'any_version': {'pip': {'packages': [
            '%s-%d-%d-' % (name, version, i) + 'x' * 4000
            for i in range(max(1, n // 4))]}}}}
    return r


def read_cache(env, count_files=True):
    """What a fresh process reads: per URL the data or an error."""
    db = env.database()
    res = {}
    for s in db.sources:
        url = s.arguments
        try:
            s.load_from_cache()
            res[url] = ('data', s.data)
        except FileNotFoundError:
            res[url] = ('none', None)
        except Exception as e:
            res[url] = ('broken', '%s: %s' % (type(e).__name__, e))
    return res


def do_update(env):
    from xylem.update import update
    update(config=env.config())


def p11(chk):
    rng = chk.rng
    modes = [(faults.KILL, 'EIO'), (faults.KILL, 'ENOSPC'),
             (faults.FAIL, 'EIO'), (faults.FAIL, 'ENOSPC'),
             (faults.STICKY, 'ENOSPC'), (faults.FAIL, 'EACCES'),
             (faults.STICKY, 'EROFS')]
    for sc in chk.loop(3, 12, cap_quick=100):
        env = Env()
        n = rng.randint(2, 4)
        new_source = rng.random() < .6      # one source has no cache yet
        no_cache = sc % 4 == 1              # no cache directory yet
        names = ['s%d.yaml' % j for j in range(n)]
        size = [rng.choice([0, 5, 80]) for _ in names]
        size[rng.randrange(n)] = 80
        old = {}
        for j, f in enumerate(names):
            old[env.url(f)] = big_rules(f, 1, size[j])
            env.write_rules(f, old[env.url(f)])
        listed = [env.url(f) for f in names]
        if no_cache:
            old = {}
        else:
            first = listed[:-1] if new_source else listed
            env.write_sources('s.yaml', first)
            if not chk.returns(quiet(do_update, env), 'update-raises',
                               'update'):
                return
            for u in set(listed) - set(first):
                del old[u]
        env.write_sources('s.yaml', listed)
        new = {}
        for j, f in enumerate(names):
            new[env.url(f)] = big_rules(f, 2, size[j] + rng.choice(
                [-4, 0, 8]))
            env.write_rules(f, new[env.url(f)])
        backup = env.cache + '.orig'
        if not no_cache:
            shutil.copytree(env.cache, backup)

        def restore():
            shutil.rmtree(env.cache, ignore_errors=True)
            if not no_cache:
                shutil.copytree(backup, env.cache)

        # fault-free run: which operations there are
        r = faults.run(do_update, env, fault=faults.Fault(env.cache,
                                                          log=True))
        if not chk.check(r.status == 'ok', 'update-raises', lambda:
                         'update: %r' % r):
            return
        total = r.seen
        ops = [l.split(' ', 2)[1] for l in r.log]
        chk.count('operations_per_update', total)
        got = faults.run(read_cache, env).value
        for u in listed:
            chk.check(got and got[u] == ('data', new[u]), 'update-incomplete',
                      lambda: 'undisturbed update left %s' % short(got))
        for mode, err in modes:
            for at in range(1, total + 1):
                restore()
                fault = faults.Fault(env.cache, mode, at, err)
                r = faults.run(do_update, env, fault=fault)
                if r.status in ('timeout', 'lost'):
                    chk.problems.append('faulted update: %r %r' % (fault, r))
                    return
                op = ops[at - 1] if at <= len(ops) else '?'
                chk.count('faults_' + ('kill' if mode == faults.KILL
                                       else 'error'))
                chk.count('fault_at_' + op)
                if mode == faults.KILL:
                    chk.count('killed', r.status == 'killed')
                else:
                    chk.count('errors_injected', r.injected)
                    if op != 'mkdir':
                        chk.check(r.status == 'ok', 'error-not-isolated',
                                  lambda: 'an I/O error (%r at %s) aborted '
                                  'the update: %r' % (fault, op, r))
                got = faults.run(read_cache, env)
                if not chk.check(got.status == 'ok', 'cache-unreadable',
                                 lambda: 'after %r: %r' % (fault, got)):
                    continue
                stale = []
                for u in listed:
                    kind, data = got.value[u]
                    is_new = kind == 'data' and same_data(data, new[u])
                    is_old = (kind == 'data' and u in old and
                              same_data(data, old[u]) or
                              kind == 'none' and u not in old)
                    chk.check(is_new or is_old, 'cache-damaged', lambda:
                              'after %r (%s) the cache of %s is neither the '
                              'old nor the new data: %s %s' % (
                                  fault, op, u, kind, short(data)))
                    if not is_new:
                        stale.append(u)
                if mode != faults.KILL and r.status == 'ok':
                    for u in stale:
                        chk.check(u in r.err, 'save-error-not-reported',
                                  lambda: 'after %r (%s) %s is not updated '
                                  'but not reported: %r' % (
                                      fault, op, u, short(r.err)))
                    if mode == faults.FAIL:
                        chk.check(len(stale) <= 1, 'error-not-isolated',
                                  lambda: 'one I/O error (%r at %s) kept %d '
                                  'sources from being updated' % (
                                      fault, op, len(stale)))
                chk.case((sc, mode, err, at), sample=repr(fault) + ' ' + op)
                # recovery
                if at % 3 == sc % 3 or mode == faults.KILL:
                    r = faults.run(do_update, env)
                    got = faults.run(read_cache, env)
                    ok = r.status == 'ok' and got.status == 'ok' and all(
                        got.value[u][0] == 'data' and
                        same_data(got.value[u][1], new[u]) for u in listed)
                    chk.count('recoveries')
                    chk.check(ok, 'no-recovery', lambda: 'update after %r '
                              '(%s): %r, cache %s' % (fault, op, r,
                                                      short(got.value)))
        shutil.rmtree(env.root)
    if not chk.counters['truncated_by_time']:
        chk.counters['exhausted'] = 1


# --- P12 --------------------------------------------------------------

def p12(chk):
    from xylem.sources import RulesDatabase
    from xylem.update import update
    rng = chk.rng
    for i in chk.loop(110, 2500):
        env = Env()
        n = rng.randint(1, 5)
        names = ['r%02d.yaml' % rng.randrange(100) for _ in range(n)]
        names = sorted(set(names), key=names.index)
        n = len(names)
        files = {}
        for f in names:
            files.setdefault(rng.choice(['a.yaml', 'b.yaml']), []).append(f)
        for sf, fs in files.items():
            env.write_sources(sf, [env.url(f) for f in fs])
        order = [f for sf in sorted(files) for f in files[sf]]
        old, new = {}, {}
        cached_before = rng.random() < .8
        if cached_before:
            # some may have failed in the first update as well
            for f in names:
                old[f] = versioned_rules(f, 1)
                if rng.random() < .8:
                    env.write_rules(f, old[f])
                else:
                    del old[f]
            if not chk.returns(quiet(update, config=env.config()),
                               'update-raises', 'first update'):
                continue
        failing = {}
        for f in names:
            p = os.path.join(env.rules, f)
            if rng.random() < .45:
                how = rng.choice(['gone', 'dir', 'save', 'text', 'text',
                                  'text'])
                if how == 'text':
                    write(p, rng.choice(BAD_RULES))
                elif how in ('gone', 'dir'):
                    if os.path.exists(p):
                        os.remove(p)
                    if how == 'dir':
                        os.mkdir(p)
                else:
                    env.write_rules(f, versioned_rules(f, 2))
                failing[f] = how
            else:
                new[f] = versioned_rules(f, 2)
                env.write_rules(f, new[f])
        # saving fails where a directory is in the way
        db = env.database()
        blocked = {}
        for s in db.sources:
            f = os.path.basename(s.arguments)
            if failing.get(f) == 'save':
                p = s.cache_file_path()
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.exists(p):
                    os.remove(p)
                os.makedirs(os.path.join(p, 'in-the-way'))
                old.pop(f, None)

        def check_reports(err, fails, what):
            for f in names:
                u = env.url(f)
                if f in fails:
                    chk.check(u in err, 'failure-not-reported', lambda: '%s: '
                              '%s (%s) is not reported: %r' % (
                                  what, f, failing[f], short(err)))
                else:
                    chk.check(u not in err, 'success-reported-as-failure',
                              lambda: '%s: %s is reported although it is '
                              'fine: %r' % (what, f, short(err)))

        if rng.random() < .4:
            # what is cached may be old
            for f in glob.glob(os.path.join(env.cache, '**'), recursive=True):
                if os.path.isfile(f) and rng.random() < .8:
                    t = time.time() - rng.choice([1, 3600, 86400 * 8,
                                                  86400 * 100, 86400 * 4000])
                    os.utime(f, (t, t))
                    chk.count('aged_files')

        # dry run
        snap = tree(env.root)
        use_cli = rng.random() < .4
        if use_cli:
            args = ['--sources-dir', env.sources, '--cache-dir', env.cache,
                    '--prefix', env.root, '--no-color']
            cmd = ['update', rng.choice(['-n', '--dry-run'])]
            o = cli(args + cmd if rng.random() < .5 else cmd + args)
            chk.check(o.exc is None, 'update-raises', lambda: 'dry run: %r'
                      % o)
        else:
            o = quiet(update, dry_run=True, config=env.config())
            chk.returns(o, 'update-raises', 'dry run')
        chk.count('dry_runs')
        check_reports(o.err, {f for f in failing if failing[f] != 'save'},
                      'dry run')
        now = tree(env.root)
        chk.check(now == snap, 'dry-run-writes', lambda: 'dry run changed %s'
                  % sorted(set(now.items()) ^ set(snap.items()))[:6])
        # errors that are to be raised
        if failing:
            db = env.database()
            loadfail = [f for f in order if f in failing and
                        failing[f] != 'save']
            o = quiet(db.load_from_source)
            chk.check(o.ok == (not loadfail), 'failure-not-raised', lambda:
                      'loading with failing sources %s %r' % (loadfail, o))
            if not cached_before or set(old) != set(names):
                db = env.database()
                o = quiet(db.load_from_cache)
                chk.check(not o.ok, 'failure-not-raised', lambda: 'loading '
                          'an incomplete cache %r' % o)
            chk.count('raising_loads')
        # the actual update
        way = rng.random()
        if way < .3:
            o = cli(['update', '--sources-dir', env.sources, '--cache-dir',
                     env.cache, '--prefix', env.root, '--no-color'])
            chk.check(o.exc is None, 'update-raises', lambda: 'update: %r' % o)
        elif way < .5:
            # in two steps
            db = env.database()
            db.raise_on_error = False
            db.sources_context.ensure_cache_dir()

            def both():
                db.load_from_source()
                db.save_to_cache()
            o = quiet(both)
            chk.returns(o, 'update-raises', 'loading and saving',
                        failing=failing)
            chk.count('two_steps')
        else:
            o = quiet(update, config=env.config())
            chk.returns(o, 'update-raises', 'update', failing=failing)
        check_reports(o.err, failing, 'update')
        got = {os.path.basename(u): r for u, r in read_cache(env).items()}
        for f in names:
            kind, data = got[f]
            if f in failing:
                chk.count('failing_sources')
                if failing[f] == 'save':
                    continue
                want = ('data', old[f]) if f in old else ('none', None)
                chk.check(kind == want[0] and same_data(data, want[1]),
                          'failing-source-touched', lambda: 'cache of the '
                          'failing source %s (%s) is %s %s, expected %s' % (
                              f, failing[f], kind, short(data), short(want)))
            else:
                chk.count('fine_sources')
                chk.check(kind == 'data' and same_data(data, new[f]),
                          'fine-source-not-updated', lambda: 'cache of %s is '
                          '%s %s after an update in which %s failed' % (
                              f, kind, short(data), failing))
        chk.case((order, sorted(failing.items()), cached_before),
                 sample=failing, nontrivial=0 < len(failing) < n)
        shutil.rmtree(env.root)


# --- P13 --------------------------------------------------------------

def p13(chk):
    """Concurrent updaters and readers; versions identify writes."""
    rng = chk.rng

    def tagged(name, writer, version, n):
        tag = '%s/%s/%d' % (name, writer, version)
        return {'k%d' % i: {'any_os': {'any_version': {'pip': {
            'packages': [tag]}}}} for i in range(n)}

    def tag_of(data, n):
        """The single tag in the data, or None if it is torn."""
        tags = {p for od in data.values() for p in
                od['any_os']['any_version']['pip']['packages']}
        if len(tags) == 1 and len(data) == n:
            return tags.pop()

    def updater(env, writer, names, sizes, rounds):
        """Each round: rewrite the rules (own copy), then update."""
        from xylem.update import update
        log = []
        for r in range(1, rounds + 1):
            for f in names:
                env_w = os.path.join(env.root, 'rules-' + writer)
                write(os.path.join(env_w, f), dump(
                    tagged(f, writer, r, sizes[f])))
            t0 = time.monotonic_ns()
            update(config=env.config())
            log.append((r, t0, time.monotonic_ns()))
        return log

    def reader(env, stop, names, limit):
        log = []
        while len(log) < limit:
            t0 = time.monotonic_ns()
            res = read_cache(env)
            log.append((t0, time.monotonic_ns(), {
                os.path.basename(u): (k, d if k != 'data' else d)
                for u, (k, d) in res.items()}))
            if os.path.exists(stop):
                break
        return log

    for i in chk.loop(5, 60, cap_quick=150):
        env = Env()
        nw = rng.choice([1, 2, 3])
        nr = rng.choice([2, 3])
        names = ['a.yaml', 'b.yaml'][:rng.randint(1, 2)]
        sizes = {f: rng.choice([1, 30, 150]) for f in names}
        rounds = chk.n(6, 10)
        # all writers update the same sources, but each has its own rules
        # files behind the same URL: the URL goes through a symbolic link
        # of /proc/self/cwd
        writers = ['w%d' % w for w in range(nw)]
        for w in writers:
            os.makedirs(os.path.join(env.root, 'rules-' + w))
            for f in names:
                write(os.path.join(env.root, 'rules-' + w, f),
                      dump(tagged(f, w, 0, sizes[f])))
        env.write_sources('s.yaml', ['file:///proc/self/cwd/' + f
                                     for f in names])

        def in_dir(w, fn, *a):
            os.chdir(os.path.join(env.root, 'rules-' + w))
            return fn(*a)
        first = faults.run(in_dir, writers[0], do_update, env)
        if not chk.check(first.status == 'ok', 'update-raises', lambda:
                         'update: %r' % first):
            return
        stop = os.path.join(env.root, 'stop')
        ws = [faults.Child(in_dir, (w, updater, env, w, names, sizes, rounds),
                           faults.Fault(env.cache, delay_us=3000,
                                        seed=rng.getrandbits(30)))
              for w in writers]
        rs = [faults.Child(reader, (env, stop, names, 3000))
              for _ in range(nr)]
        wres = [w.wait(150) for w in ws]
        write(stop, '')
        rres = [r.wait(150) for r in rs]
        if any(r.status in ('timeout', 'lost') for r in wres + rres):
            chk.problems.append('processes lost: %r' % (wres + rres))
            return
        for r in wres + rres:
            chk.check(r.status == 'ok', 'process-failed', lambda: 'a process '
                      'failed: %r' % r)
            chk.check(not r.err.strip(), 'error-reported', lambda: 'an error '
                      'was reported: %r' % short(r.err))
        if any(r.status != 'ok' for r in wres + rres):
            continue
        spans = {w: {r: (a, b) for r, a, b in res.value}
                 for w, res in zip(writers, wres)}
        seen = set()
        for res in rres:
            last = {}
            for t0, t1, got in res.value:
                chk.count('reads')
                for f in names:
                    kind, data = got[f]
                    if not chk.check(kind == 'data', 'torn-cache', lambda:
                                     'a reader got %s for %s: %s' % (
                                         kind, f, short(data))):
                        continue
                    tag = tag_of(data, sizes[f])
                    if not chk.check(tag is not None, 'torn-cache', lambda:
                                     'a reader got mixed data: %s' % short(
                                         data)):
                        continue
                    n, w, v = tag.rsplit('/', 2)
                    v = int(v)
                    seen.add(tag)
                    if not chk.check(n == f and w in spans, 'wrong-data',
                                     lambda: '%s has data %s' % (f, tag)):
                        continue
                    started = v == 0 or spans[w][v][0] <= t1
                    chk.check(started, 'data-from-the-future', lambda:
                              '%s read before update %d of %s started' % (
                                  tag, v, w))
                    # not overwritten by a later update of the same writer
                    if nw == 1:
                        chk.check(last.get(f, -1) <= v, 'went-back', lambda:
                                  'a reader saw version %d of %s after '
                                  'version %d' % (v, f, last[f]))
                        last[f] = v
                    # some update that cannot have been replaced: all
                    # updates that started after it ended would have to
                    # have ended before the read began
                    end = spans[w][v][1] if v else 0
                    newer = [x for w2 in spans for x, (a, b) in
                             spans[w2].items() if a > end and b < t0]
                    chk.check(not newer, 'stale-read', lambda: 'a reader saw '
                              '%s although an update that started after it '
                              'ended has completed' % tag)
        final = faults.run(read_cache, env)
        chk.check(final.status == 'ok', 'cache-unreadable', lambda:
                  'final read: %r' % final)
        if final.status == 'ok':
            for u, (kind, data) in final.value.items():
                f = os.path.basename(u)
                tag = tag_of(data, sizes[f]) if kind == 'data' else None
                lastround = {'%s/%s/%d' % (f, w, rounds) for w in writers}
                # any of the updates that overlap the last ones may win
                ok = set()
                for w in writers:
                    for v, (a, b) in spans[w].items():
                        if not any(a2 > b for w2 in writers
                                   for a2, b2 in spans[w2].values()):
                            ok.add('%s/%s/%d' % (f, w, v))
                chk.check(tag in ok, 'no-convergence', lambda: 'after all '
                          'updates %s has %s, expected one of %s' % (
                              f, tag, sorted(ok)))
        left = [x for x in os.listdir(os.path.join(env.cache, 'sources'))]
        chk.check(len(left) == len(names), 'files-left', lambda: 'files in '
                  'the cache after all updates: %s' % left)
        chk.count('updates', nw * rounds)
        chk.count('versions_seen', len(seen))
        chk.count('histories')
        chk.case((nw, nr, sizes, i), sample='%d updaters x %d rounds, %d '
                 'readers, versions seen: %s' % (nw, rounds, nr,
                                                 sorted(seen)[:12]),
                 nontrivial=len(seen) > 2)
        shutil.rmtree(env.root)
