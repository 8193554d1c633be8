"""P01-P07: lookup, merging, expansion, validation, compaction, keys."""
import copy
import itertools
import os

import model
from common import (deepcopy, fresh_dir, observe, quiet, same_data, short,
                    write)
from rules_common import Env, StubContext, cli, ctx, dump

KNOWN_OS = {'ubuntu': ['lucid', 'precise', 'trusty'],
            'debian': ['wheezy', 'jessie'],
            'osx': ['lion', 'mountain lion', 'mavericks']}
# the names of any installers that could be reported for these OSs
OTHER = ('other', 'plain', '7', 'üb')


# --- P01 --------------------------------------------------------------

def p01(chk):
    from xylem.sources.rules_dict import lookup_rules
    from xylem.specs.plugins.rules import RulesSpec
    rng = chk.rng
    spec = RulesSpec()
    for i in chk.loop(350, 12000):
        rules = model.hollow(rng, model.gen_rules(rng))
        before = deepcopy(rules)
        qs = list(model.queries([rules]))
        rng.shuffle(qs)
        qs = qs[:60] + qs[:10]          # some queries repeated
        shadow = nontrivial = 0
        for k, o, v in qs:
            d = model.DEFAULTS.get(o, 'otherinst')
            want = model.lookup(before, k, o, v, d)
            for how in ('dict', 'spec'):
                if how == 'dict':
                    out = observe(lookup_rules, rules, k, o, v, d)
                else:
                    out = observe(spec.lookup, rules, k, StubContext(o, v, d))
                if not chk.returns(out, 'lookup-raises', 'lookup %r'
                                   % ((k, o, v),), rules=before):
                    continue
                chk.check(same_data(out.value, want), 'wrong-lookup',
                          lambda: 'looking up %r on %s:%s (default installer '
                          '%s) gave %s, expected %s' % (
                              k, o, v, d, short(out.value), short(want)),
                          rules=before.get(k))
                chk.count('lookups')
            e = before.get(k, {})
            levels = [bool(e.get(o, {}).get(v)),
                      bool(e.get(o, {}).get('any_version')),
                      bool(e.get('any_os', {}).get('any_version'))]
            if sum(levels) > 1:
                shadow += 1
                chk.count('lookups_over_several_levels')
            if any('default_installer' in e.get(o, {}).get(x, {})
                   for x in (v, 'any_version')):
                chk.count('lookups_with_default_installer')
            nontrivial += bool(want)
        chk.check(same_data(rules, before), 'lookup-changes-rules',
                  lambda: 'rules changed by lookups: %s -> %s' % (
                      short(before), short(rules)))
        chk.case((before,), sample=before, nontrivial=shadow and nontrivial)
    # through files, the cache and the public function
    from xylem.lookup import lookup
    from xylem.update import update
    for i in chk.loop(12, 200):
        env = Env()
        rules = model.gen_rules(rng, oss=list(KNOWN_OS), versions=KNOWN_OS)
        url = env.write_rules('a.yaml', model.shorten(rng, rules))
        env.write_sources('a.yaml', [url])
        o = quiet(update, config=env.config())
        if not chk.returns(o, 'update-raises', 'update', rules=rules):
            continue
        qs = [q for q in model.queries([rules], list(KNOWN_OS), KNOWN_OS)
              if q[2] in KNOWN_OS.get(q[1], ())]
        for k, osn, v in rng.sample(qs, min(len(qs), 6)):
            conf = env.config(os_override='%s:%s' % (osn, v))
            out = quiet(lookup, k, config=conf)
            if not chk.returns(out, 'lookup-raises', 'lookup()', rules=rules):
                continue
            want = model.lookup(rules, k, osn, v, model.DEFAULTS[osn])
            chk.check(same_data(out.value, want), 'wrong-lookup',
                      lambda: 'lookup(%r) on %s:%s from cache gave %s, '
                      'expected %s' % (k, osn, v, short(out.value),
                                       short(want)), rules=rules.get(k))
            chk.count('lookups_from_cache')
            chk.case((rules, k, osn, v), nontrivial=bool(want))


# --- P02 --------------------------------------------------------------

def p02(chk):
    from xylem.lookup import lookup
    from xylem.update import update
    rng = chk.rng
    for i in chk.loop(60, 1200):
        env = Env()
        tag = model.Tags()
        keys = rng.sample(model.KEYS, 3)
        nfiles = rng.randint(1, 4)
        names = rng.sample(['00-x.yaml', '10-a.yaml', '2-b.yaml', 'a.yaml',
                            'aa.yaml', 'b.yaml', 'zz.yaml', '99.yaml'],
                           nfiles)
        per_file = {}
        n = 0
        for f in names:
            per_file[f] = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                per_file[f].append(n)
                n += 1
        if n == 0:
            per_file[names[0]].append(0)
            n = 1
        rules = {}
        urls = {}
        # the URLs are unrelated to the order of the sources
        ids = list(range(n))
        rng.shuffle(ids)
        for s in range(n):
            rules[s] = model.hollow(rng, model.gen_rules(
                rng, tag, keys=rng.sample(keys, rng.randint(1, 3)),
                oss=list(KNOWN_OS), versions=KNOWN_OS))
            urls[s] = env.write_rules('r%d.yaml' % ids[s],
                                      model.shorten(rng, rules[s]))
        order = list(names)
        rng.shuffle(order)
        for f in order:
            if per_file[f]:
                env.write_sources(f, [urls[s] for s in per_file[f]])
            else:
                env.write_sources(f, [], text='[]\n')
        in_order = [rules[s] for f in sorted(names) for s in per_file[f]]
        db = env.database()
        o = quiet(db.load_from_source)
        if not chk.returns(o, 'load-raises', 'loading', rules=rules):
            continue
        o = quiet(update, config=env.config())
        chk.returns(o, 'update-raises', 'update()', rules=rules)
        db2 = env.database()
        o = quiet(db2.load_from_cache)
        if not chk.returns(o, 'load-raises', 'loading from cache'):
            continue
        qs = [q for q in model.queries(in_order, list(KNOWN_OS), KNOWN_OS)]
        rng.shuffle(qs)
        contested = 0
        e2e = 0
        for k, osn, v in qs[:40]:
            d = model.DEFAULTS.get(osn, 'otherinst')
            parts = [model.lookup(r, k, osn, v, d) for r in in_order]
            want = model.overlay(parts)
            if sum(len(p) for p in parts) > len(want):
                contested += 1
            for how, base in (('source', db), ('cache', db2)):
                out = quiet(base.lookup, k, StubContext(osn, v, d))
                if chk.returns(out, 'lookup-raises', 'database lookup'):
                    chk.check(same_data(out.value, want), 'wrong-source-wins',
                              lambda: 'lookup of %r on %s:%s (rules from %s) '
                              'gave %s, expected %s' % (
                                  k, osn, v, how, short(out.value),
                                  short(want)),
                              sources=in_order, files=per_file)
                chk.count('lookups')
            if e2e < 3 and osn in KNOWN_OS and v in KNOWN_OS[osn] and want:
                e2e += 1
                out = quiet(lookup, k, config=env.config(
                    os_override='%s:%s' % (osn, v)))
                if chk.returns(out, 'lookup-raises', 'lookup()'):
                    chk.check(same_data(out.value, want), 'wrong-source-wins',
                              lambda: 'lookup() of %r on %s:%s gave %s, '
                              'expected %s' % (k, osn, v, short(out.value),
                                               short(want)),
                              sources=in_order, files=per_file)
                chk.count('lookups_from_cache')
        # the same database after its sources changed
        for s in rng.sample(range(n), rng.randint(1, n)):
            rules[s] = model.gen_rules(
                rng, tag, keys=rng.sample(keys, rng.randint(1, 3)),
                oss=list(KNOWN_OS), versions=KNOWN_OS)
            env.write_rules('r%d.yaml' % ids[s],
                            model.shorten(rng, rules[s]))
        in_order = [rules[s] for f in sorted(names) for s in per_file[f]]
        o = quiet(db.load_from_source)
        if not chk.returns(o, 'load-raises', 'loading again', rules=rules):
            continue
        o = quiet(update, config=env.config())
        chk.returns(o, 'update-raises', 'update() again', rules=rules)
        o = quiet(db2.load_from_cache)
        if not chk.returns(o, 'load-raises', 'loading from cache again'):
            continue
        for k, osn, v in qs[:40]:
            d = model.DEFAULTS.get(osn, 'otherinst')
            want = model.overlay([model.lookup(r, k, osn, v, d)
                                  for r in in_order])
            for how, base in (('source', db), ('cache', db2)):
                out = quiet(base.lookup, k, StubContext(osn, v, d))
                if chk.returns(out, 'lookup-raises', 'database lookup'):
                    chk.check(same_data(out.value, want), 'wrong-after-reload',
                              lambda: 'after loading again from %s the lookup '
                              'of %r on %s:%s gave %s, expected %s' % (
                                  how, k, osn, v, short(out.value),
                                  short(want)), sources=in_order)
                chk.count('lookups_after_reload')
        chk.count('contested_lookups', contested)
        chk.case(in_order, sample=in_order, nontrivial=contested > 0)


# --- P03 --------------------------------------------------------------

def p03(chk):
    from xylem.sources.rules_dict import merge_rules, verify_rules_dict
    rng = chk.rng
    for i in chk.loop(700, 30000):
        tag = model.Tags()
        keys = rng.sample(model.KEYS, rng.randint(1, 3))
        dicts = [model.gen_rules(rng, tag, keys=rng.sample(
            keys, rng.randint(0, len(keys))))
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        for d in dicts:
            model.hollow(rng, d)
        defaults = {o: model.DEFAULTS[o] for o in
                    rng.sample(model.OSS, rng.randint(1, len(model.OSS)))}
        before = deepcopy(dicts)
        dbefore = dict(defaults)
        out = observe(merge_rules, dicts, defaults)
        if not chk.returns(out, 'merge-raises', 'merge_rules', dicts=before):
            continue
        merged = out.value
        chk.check(same_data(dicts, before) and defaults == dbefore,
                  'merge-changes-input', lambda: 'inputs changed: %s -> %s'
                  % (short(before), short(dicts)))
        v = observe(verify_rules_dict, merged, False)
        chk.returns(v, 'merged-invalid', 'verifying the merged rules',
                    dicts=before, merged=merged)
        for k, od in merged.items():
            for o in od:
                chk.check(o == 'any_os' or o in defaults, 'unsupported-os',
                          'merged rules mention unsupported OS %r' % o,
                          dicts=before, merged=merged)
        contested = 0
        for k, o, ver in model.queries(before):
            if o not in defaults:
                continue
            parts = [model.lookup(r, k, o, ver, defaults[o]) for r in before]
            want = model.overlay(parts)
            got = model.lookup(merged, k, o, ver, defaults[o])
            chk.count('queries')
            if sum(map(len, parts)) > len(want):
                contested += 1
            if not same_data(got, want):
                chk.violate('merge-changes-lookup',
                            'lookup of %r on %s:%s in merged rules gives %s, '
                            'overlay of the inputs is %s' % (
                                k, o, ver, short(got), short(want)),
                            dicts=[x.get(k) for x in before],
                            merged=merged.get(k), defaults=defaults)
                break
        chk.count('contested_queries', contested)
        chk.case(before, sample=before, nontrivial=contested > 0)


# --- P04 --------------------------------------------------------------

ODD = ['yes', '1.10', 'null', '~', 'käse', 'a: b', '2014-01-01', '0x1f', 'on',
       '- x', "it's", '"q"', '#c', '1', 'É', '@x', '%d', '{}', '[a]', 'x y']


def p04(chk):
    from xylem.specs.plugins.rules import expand_rules
    from xylem.sources.rules_dict import verify_rules_dict
    from xylem.yaml_utils import load_yaml
    rng = chk.rng

    class OddTags(model.Tags):
        def __call__(self):
            if rng.random() < .3:
                return rng.choice(ODD)
            return model.Tags.__call__(self)

    for i in chk.loop(400, 15000):
        rules = model.gen_rules(rng, OddTags())
        if rng.random() < .3:
            # equal parts, so that aliases are possible
            k = rng.choice(list(rules))
            for k2 in rules:
                if rng.random() < .5:
                    rules[k2] = deepcopy(rules[k])
        short1 = model.shorten(rng, rules)
        how = rng.choice(['data', 'yaml', 'alias', 'alias'])
        if how == 'data':
            out = observe(expand_rules, deepcopy(short1))
        else:
            text = dump(short1) if how == 'yaml' else dump_levels(short1)
            if '&' in text and how == 'alias':
                chk.count('texts_with_aliases')
            out = observe(lambda: expand_rules(load_yaml(text)))
        chk.count('expanded_' + how)
        if not chk.returns(out, 'expand-raises', 'expanding', rules=short1):
            continue
        chk.check(same_data(out.value, rules), 'wrong-expansion',
                  lambda: 'expanding %s gave %s, expected %s' % (
                      short(short1), short(out.value), short(rules)), how=how)
        chk.returns(observe(verify_rules_dict, out.value), 'expanded-invalid',
                    'verifying expanded rules', rules=short1)
        again = observe(expand_rules, deepcopy(out.value))
        if chk.returns(again, 'expand-raises', 'expanding again',
                       rules=out.value):
            chk.check(same_data(again.value, rules), 'not-idempotent',
                      lambda: 'expanding %s again gave %s' % (
                          short(rules), short(again.value)))
        chk.case(short1, sample=short1, nontrivial=short1 != rules)
    # through source files
    for i in chk.loop(20, 300):
        env = Env()
        rules = model.gen_rules(rng, OddTags())
        text = dump_levels(model.shorten(rng, rules))
        want = rules
        if i % 4 == 0:
            text = rng.choice(['---\n', '# nothing\n', '{}', 'null\n',
                               '--- \n# x\n...\n'])
            want = {}
        env.write_sources('s.yaml', [env.write_rules('r.yaml', None, text)])
        db = env.database()
        out = quiet(db.load_from_source)
        if chk.returns(out, 'load-raises', 'loading', text=text):
            chk.check(same_data(db.sources[0].data, want), 'wrong-expansion',
                      lambda: 'loading %s gave %s' % (
                          short(text), short(db.sources[0].data)))
        chk.count('loaded_files')
        chk.case(text)


def dump_levels(data):
    """YAML where equal structures on the same level become aliases."""
    import yaml
    memo = {}

    def share(x, depth):
        if isinstance(x, dict):
            x = {k: share(v, depth + 1) for k, v in x.items()}
        elif isinstance(x, list):
            x = [share(v, depth + 1) for v in x]
        else:
            return x
        return memo.setdefault((depth, repr(x)), x)
    return yaml.safe_dump(share(data, 0), allow_unicode=True)


# --- P05 --------------------------------------------------------------

class Invalid(Exception):
    pass


def valid_name(x, allow=()):
    """True, False or None (if it is not documented)."""
    if not isinstance(x, str):
        return False
    if x in allow:
        return True
    if x in model.KEYWORDS:
        return False
    if x == 'mountain lion':
        return True
    return bool(x) and all(c.isalnum() or c in "_.’+-" for c in x)


def need_name(x, allow=()):
    if not valid_name(x, allow):
        raise Invalid('name %r' % (x,))


def m_definition(d):
    if d is None:
        d = []
    if isinstance(d, str):
        d = [d]
    if isinstance(d, list):
        d = {'packages': d}
    if not isinstance(d, dict):
        raise Invalid('definition')
    d = dict(d)
    for k in ('packages', 'depends'):
        if k in d:
            if d[k] is None:
                d[k] = []
            if isinstance(d[k], str):
                d[k] = [d[k]]
            if not isinstance(d[k], list):
                raise Invalid(k)
    if 'depends' in d:
        if not d['depends']:
            del d['depends']
        else:
            for x in d['depends']:
                need_name(x)
    for k in d:
        if not isinstance(k, str):
            raise Invalid('rule key')
    return d


def m_installers(d, any_os):
    if d is None:
        d = []
    if isinstance(d, str):
        d = [d]
    if isinstance(d, list):
        d = {'default_installer': d}
    if not isinstance(d, dict):
        raise Invalid('installer dict')
    for k in d:
        need_name(k, () if any_os else ('default_installer',))
    return {k: m_definition(v) for k, v in d.items()}


def m_versions(o, d):
    if d is None:
        d = []
    if isinstance(d, str):
        d = [d]
    if isinstance(d, list):
        d = {'any_version': d}
    if not isinstance(d, dict):
        raise Invalid('version dict')
    if o == 'any_os':
        if 'any_version' in d:
            if len(d) != 1:
                raise Invalid('any_os versions')
        else:
            d = {'any_version': d}
    for k in d:
        need_name(k, ('any_version',))
    return {k: m_installers(v, o == 'any_os') for k, v in d.items()}


def m_rules(d):
    if d is None:
        d = {}
    if not isinstance(d, dict):
        raise Invalid('rules')
    res = {}
    for k, od in d.items():
        need_name(k)
        if not isinstance(od, dict):
            raise Invalid('os dict')
        res[k] = {}
        for o, vd in od.items():
            need_name(o, ('any_os',))
            res[k][o] = m_versions(o, vd)
    return res


BAD_NAMES = ['a b', 'a/b', 'x:y', '', 'foo\n', '*', '(x)', 'a@b', 'a,b', '\t',
             'foo ', ' foo', 'a\nb', '\nfoo', 'a=b', '~', '$x', 'a"b']
ODD_KEYS = [1, None, True, 1.5, 0, False]
SCALARS = [1, 0, True, False, 1.5, 10 ** 20]
GOOD_ODD = ['a.b', 'c++', 'a-b', '_x', 'käse', '0', 'O’x', '.', '-', 'x_1',
            'ñ', '日本']


def paths(data, prefix=()):
    yield prefix
    if isinstance(data, dict):
        for k, v in data.items():
            for p in paths(v, prefix + (k,)):
                yield p


def get(data, path):
    for k in path:
        data = data[k]
    return data


def put(data, path, value):
    if not path:
        return value
    data = copy.copy(data)
    data[path[0]] = put(data[path[0]], path[1:], value)
    return data


def rename(data, path, old, new):
    """Replace the key ``old`` of the dict at ``path``, keeping order."""
    d = get(data, path)
    return put(data, path, {(new if k == old and type(k) is type(old) else k):
                            v for k, v in d.items()})


def mutate(rng, data):
    """One random change at a random place of a rules structure."""
    ps = list(paths(data))
    for _ in range(20):
        p = rng.choice(ps)
        v = get(data, p)
        op = rng.randrange(9)
        if op >= 7:
            # a rule of any shape in place of a rule
            rs = [q for q in ps if len(q) == 4 and isinstance(
                get(data, q), (dict, list, str))]
            if not rs:
                continue
            p = rng.choice(rs)
            good = rng.random() < .4
            parts = {'packages': ['a', 'b'], 'depends': ['foo', 'bar'],
                     'options': {'x': [1]}, 'id': 'y', 'other': None}
            new = {k: parts[k] for k in rng.sample(
                sorted(parts), rng.randint(0, 3))}
            if not good and new:
                k = rng.choice(sorted(new))
                new[k] = rng.choice(
                    [7, True, {'a': 'b'}, ['foo', 'a b'], ['foo', 1],
                     ['any_os'], ['foo', None, 'bar'], 'a b', '', [['foo']],
                     ['foo', ''], 1.5, ['foo', 'default_installer']])
            return put(data, p, new), p + ('rule',)
        if op == 5 and isinstance(v, dict) and v:
            gone = rng.choice(list(v))
            return put(data, p, {k: x for k, x in v.items()
                                 if k != gone}), p + ('-', gone)
        if op >= 5 and isinstance(v, list) and v:
            new = list(v)
            new.insert(rng.randint(0, len(v)), rng.choice(
                [rng.choice(BAD_NAMES), rng.choice(ODD_KEYS), 'any_key', [],
                 rng.choice(GOOD_ODD), {'a': 'b'}, 'default_installer']))
            return put(data, p, new), p + ('+',)
        if op <= 1 or op >= 5 and not isinstance(v, dict):
            new = rng.choice(
                [rng.choice(SCALARS), None, [], {}, 'text', '', ['x'],
                 [1], {'x': 'y'}, {'x': {'y': 'z'}}, [['x']], ['a b'],
                 ['any_os'], {1: 2}, [{'a': 1}]])
            return put(data, p, new), p
        if isinstance(v, dict) and v:
            old = rng.choice(list(v))
            if op in (2, 3):
                new = rng.choice([rng.choice(BAD_NAMES), rng.choice(ODD_KEYS),
                                  rng.choice(sorted(model.KEYWORDS)),
                                  rng.choice(GOOD_ODD)])
                if new in v:
                    continue
                return rename(data, p, old, new), p + (new,)
            new = dict(v)
            name = rng.choice(['packages', 'depends', 'any_version', 'any_os',
                               'default_installer', 'precise', 'x'])
            if name in new:
                continue
            new[name] = deepcopy(rng.choice([v[old], None, [], 'x', 3]))
            return put(data, p, new), p + (name,)
    return data, ()


def chain_text(e):
    texts = []
    while e is not None:
        texts.append(str(e))
        e = e.__cause__
    return '\n'.join(texts)


def p05(chk):
    from xylem.sources.rules_dict import verify_rules_dict
    from xylem.specs.plugins.rules import RulesSpec
    from xylem.exception import XylemError
    rng = chk.rng
    env = Env()
    spec = RulesSpec()
    path = os.path.join(env.rules, 'r.yaml')
    url = env.url('r.yaml')

    def load(text):
        write(path, text)
        data = spec.load_data(url)
        spec.verify_data(data, url)
        return data

    for i in chk.loop(1000, 40000):
        rules = model.gen_rules(rng, keys=rng.sample(
            model.KEYS + ['mountain lion'], rng.randint(1, 3)))
        data = model.shorten(rng, rules) if rng.random() < .6 else rules
        where = ()
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            data, where = mutate(rng, data)
        text = dump(data)
        try:
            want = m_rules(data)
        except Invalid as e:
            want = None
            why = str(e)
        before = text
        out = observe(load, text)
        if want is None:
            chk.count('rejected')
            if chk.check(not out.ok, 'invalid-accepted',
                         lambda: 'invalid rules (%s) accepted: %s' % (
                             why, short(text)), where=where):
                chk.check(isinstance(out.exc, (ValueError, XylemError)),
                          'unconstructible-expansion-error'
                          if isinstance(out.exc, TypeError) and
                          'SpecParsingError' in str(out.exc)
                          else 'wrong-exception', lambda: 'invalid rules (%s) gave '
                          '%r for %s' % (why, out, short(text)), where=where)
                # which of several keys is at fault is only clear if the
                # others are fine
                if isinstance(data, dict):
                    bad = [k for k in data if not fine({k: data[k]})]
                    if bad and isinstance(out.exc, (ValueError, XylemError)):
                        txt = chain_text(out.exc)
                        chk.count('errors_checked_for_entry')
                        chk.check(any(str(k) in txt for k in bad),
                                  'entry-not-named', lambda: 'error for %s '
                                  'does not mention %s: %s' % (
                                      short(text), bad, short(txt)))
        else:
            chk.count('accepted')
            if chk.returns(out, 'valid-rejected', 'loading valid rules %s'
                           % short(text)):
                chk.check(same_data(out.value, want), 'wrong-content',
                          lambda: '%s loaded as %s' % (
                              short(text), short(out.value)))
                # where default installers are not allowed
                has = any('default_installer' in d for od in want.values()
                          for vd in od.values() for d in vd.values())
                o2 = observe(verify_rules_dict, out.value, False)
                if has:
                    chk.count('default_installer_disallowed')
                    chk.raises(o2, ValueError, 'default-accepted',
                               'verifying rules with default installer '
                               'disallowed', rules=want)
                else:
                    chk.returns(o2, 'valid-rejected', 'verifying rules '
                                'without default installer', rules=want)
        chk.case(data, sample=text, nontrivial=where != ())


def fine(d):
    try:
        m_rules(d)
        return True
    except Invalid:
        return False


# --- P06 --------------------------------------------------------------

def p06(chk):
    from xylem.specs.plugins.rules import compact_rules, expand_rules
    from xylem.sources.rules_dict import verify_rules_dict
    from xylem.yaml_utils import dump_yaml, load_yaml
    rng = chk.rng

    class OddTags(model.Tags):
        def __call__(self):
            if rng.random() < .2:
                return rng.choice(ODD)
            return model.Tags.__call__(self)

    def some_rules(**kw):
        rules = model.gen_rules(rng, OddTags(), **kw)
        # entries that repeat others are what compaction drops
        for k, od in rules.items():
            for o, vd in od.items():
                if 'any_version' in vd and o != 'any_os':
                    for v in vd:
                        if rng.random() < .3:
                            vd[v] = deepcopy(vd['any_version'])
        return rules

    def same_lookups(rules, again, defaults, oss, versions, **w):
        for k, o, v in model.queries([rules, again], oss, versions):
            d = defaults.get(o, 'otherinst')
            a, b = (model.lookup(r, k, o, v, d) for r in (rules, again))
            chk.count('queries')
            if not same_data(a, b):
                chk.violate('compaction-changes-lookup', 'lookup of %r on '
                            '%s:%s was %s, after compaction %s' % (
                                k, o, v, short(a), short(b)),
                            rules=rules.get(k), **w)
                return False
        return True

    for i in chk.loop(500, 20000):
        rules = some_rules()
        defaults = {o: model.DEFAULTS[o] for o in
                    rng.sample(model.OSS, rng.randint(2, len(model.OSS)))}
        before = deepcopy(rules)
        out = quiet(lambda: dump_yaml(compact_rules(rules, defaults)))
        if not chk.returns(out, 'compact-raises', 'compacting', rules=before):
            continue
        text = out.value
        out = observe(lambda: expand_rules(load_yaml(text)))
        if not chk.returns(out, 'reload-raises', 'loading compacted rules',
                           rules=before, text=text):
            continue
        again = out.value
        chk.returns(observe(verify_rules_dict, again), 'compacted-invalid',
                    'verifying reloaded rules', rules=before, text=text)
        # rules under an OS that has no default installer keep the keyword
        full = dict(model.DEFAULTS)
        if same_lookups(before, again, full, model.OSS, model.VERSIONS,
                        text=text):
            out = quiet(lambda: dump_yaml(compact_rules(deepcopy(again),
                                                        defaults)))
            if chk.returns(out, 'compact-raises', 'compacting again'):
                lone = out.value != text and same_data(
                    collapse(load_yaml(text)), load_yaml(out.value))
                chk.check(out.value == text, 'lone-any-version-left'
                          if lone else 'compact-not-idempotent', lambda: 'compacting again changed\n%s\nto\n%s' % (
                              short(text, 1500), short(out.value, 1500)))
        chk.case(before, sample=text, nontrivial=text != dump_yaml(before))
    # the maintenance command on files
    osv = {k: v for k, v in KNOWN_OS.items()}
    for i in chk.loop(25, 400):
        d = fresh_dir()
        rules = some_rules(oss=list(osv), versions=osv)
        if rng.random() < .3:
            rules['odd'] = {rng.choice(list(osv)): {'any_version': {
                rng.choice(['apt', 'pip', 'other']): {'packages': rng.sample([
                    'a\tb', "it's", 'x  y', '"q"', 'ä\u3042', '\\n', '#x',
                    ' s ', 'a: b'], 3)}}}}
        p = os.path.join(d, rng.choice(['rules.yaml'] * 3 + [
            '$HOME.yaml', 'a b', '~', '%s.yaml', '*.yaml', 'r\u00e4']))
        text = dump(model.shorten(rng, rules))
        if rng.random() < .2:
            # characters as they are, which a dump would escape
            odd = rng.choice(['a\tb', 'a\u00a0b', 'e\u0301', '\u200b', ' x'])
            text += 'verbatim: {ubuntu: {any_version: {apt: ["%s"]}}}\n' % odd
            rules['verbatim'] = {'ubuntu': {'any_version': {
                'apt': {'packages': [odd]}}}}
        bad = i % 3 == 0
        if bad:
            text = rng.choice([
                'foo: [\n', 'foo: 3\n', '[1, 2]\n', 'any_os: {ubuntu: x}\n',
                'foo:\n  any_os: [x]\n', '@@@\n',
                text + '\nlast key: {ubuntu: x}\n',
                text + '\nlast:\n  ubuntu: 7\n'])
        write(p, text)
        mode = rng.choice([0o644, 0o600, 0o640, 0o664, 0o755, 0o666])
        os.chmod(p, mode)
        base = ['--prefix', d, '--no-color', '_compact_rules_file']
        o3 = cli(base + [p])
        chk.equal(open(p, encoding='utf-8').read(), text, 'printing-writes',
                  'file after printing')
        out = cli(base + [p, '-w'])
        now = open(p, encoding='utf-8').read()
        chk.equal(oct(os.stat(p).st_mode & 0o7777), oct(mode),
                  'permissions', 'permissions of the file after rewriting')
        if bad:
            chk.count('files_invalid')
            chk.check(out.status != 0, 'invalid-compacted',
                      'compacting invalid rules did not fail', text=text)
            chk.check(now == text, 'invalid-file-changed', lambda:
                      'file with invalid rules was changed from %s to %s' % (
                          short(text), short(now)))
        else:
            chk.count('files_compacted')
            if chk.check(out.status == 0, 'compact-raises', lambda:
                         'compacting %s: %r' % (short(text), out)):
                o2 = observe(lambda: expand_rules(load_yaml(now)))
                if chk.returns(o2, 'reload-raises', 'loading compacted file',
                               text=text, now=now):
                    same_lookups(rules, o2.value, model.DEFAULTS, list(osv),
                                 osv, text=text, now=now)
                    o4 = quiet(lambda: dump_yaml(compact_rules(
                        expand_rules(load_yaml(text)), model.DEFAULTS)))
                    if chk.returns(o4, 'compact-raises', 'compacting'):
                        chk.equal(now, o4.value, 'library', 'file, compared '
                                  'with compacting by the library', text=text)
                chk.equal(o3.status, 0, 'compact-raises', 'exit status of '
                          'printing the compaction %r' % o3)
                chk.equal(o3.out.strip(), now.strip(), 'printed-differs',
                          'printed compaction, compared with the written one')
        chk.case(text)
    # versions whose rules differ from the general one only slightly
    slight = [(1, True), (0, False), (1, 1.0), ('1', 1), ('x', 'X'), ([], {}),
              (None, []), (None, False), ('', None), (['a'], 'a'), (0, ''),
              (['a', 'b'], ['b', 'a']), ({'a': None}, {}), (2, 2.5),
              ('true', True), ('a', 'a '), ({'a': 1}, {'a': True})]
    for i in chk.loop(20, 200):
        a, b = rng.sample(rng.choice(slight), 2)
        general = {'packages': ['p'], 'options': a}
        special = deepcopy(general)
        where = rng.choice(['value', 'element'])
        if where == 'element':
            general['options'], a, b = [a], [a], [b]
        special['options'] = b
        name = rng.choice(['default_installer', 'pip'])
        rules = {'k': {'ubuntu': {'any_version': {name: general},
                                  'precise': {name: special}}}}
        before = deepcopy(rules)
        out = quiet(lambda: expand_rules(load_yaml(dump_yaml(compact_rules(
            rules, model.DEFAULTS)))))
        if chk.returns(out, 'compact-raises', 'compacting', rules=before):
            got = model.lookup(out.value, 'k', 'ubuntu', 'precise',
                               model.DEFAULTS['ubuntu'])
            want = model.lookup(before, 'k', 'ubuntu', 'precise',
                                model.DEFAULTS['ubuntu'])
            chk.count('slight_differences')
            chk.check(same_data(got, want), 'equal-numbers-merged'
                      if a == b else 'compaction-changes-lookup',
                      lambda: 'rules with %r and for one version %r: lookup '
                      'for that version was %s, after compaction %s' % (
                          a, b, short(want), short(got)), rules=before)
        chk.case(('slight', repr(a), repr(b), name))
    # keys that share an OS dict by means of YAML aliases
    for i in chk.loop(8, 60):
        rules = some_rules(keys=['a'], oss=list(osv), versions=osv)
        text = dump(rules).replace('a:', 'a: &x', 1) + 'b: *x\n'
        rules['b'] = rules['a']
        p = write(os.path.join(fresh_dir(), 'rules.yaml'), text)
        out = cli(['--prefix', os.path.dirname(p), '--no-color',
                   '_compact_rules_file', p, '-w'])
        now = open(p, encoding='utf-8').read()
        chk.count('files_with_shared_entries')
        if chk.check(out.status == 0, 'aliased-os-dict' if
                     isinstance(out.exc, (KeyError, TypeError,
                                          AttributeError))
                     else 'compact-raises', lambda: 'compacting %s: %r' % (
                         short(text), out)):
            same_lookups(rules, expand_rules(load_yaml(now)), model.DEFAULTS,
                         list(osv), osv, text=text, now=now)
        else:
            chk.check(now == text, 'invalid-file-changed',
                      'a failing compaction changed the file')
        chk.case(text)


def collapse(compacted):
    """OSs with nothing but a plain any_version entry, written shorter."""
    return {k: {o: vd['any_version'] if o != 'any_os' and
                isinstance(vd, dict) and list(vd) == ['any_version'] and
                isinstance(vd['any_version'], list) else vd
                for o, vd in od.items()} for k, od in compacted.items()}


# --- P07 --------------------------------------------------------------

def p07(chk):
    from xylem.specs.plugins.rules import RulesSpec
    rng = chk.rng
    spec = RulesSpec()

    def check(keys, dicts, c, how):
        o, v = c.get_os_tuple()
        if not chk.check(isinstance(keys, list), 'no-list', 'not a list'):
            return
        chk.check(len(keys) == len(set(keys)), 'listed-twice', lambda:
                  'keys listed more than once: %s' % sorted(keys))
        listed = set(keys)
        every = {k for r in dicts for k in r}
        found = {k for k in every if any(
            model.lookup(r, k, o, v, c.d) for r in dicts)}
        appl = {k for k in every if any(
            model.applicable(r, k, o, v) for r in dicts)}
        chk.check(found <= listed, 'key-missing', lambda: 'keys %s are '
                  'defined for %s:%s but not listed (%s)' % (
                      sorted(found - listed), o, v, how), dicts=dicts)
        chk.check(listed <= appl, 'key-not-applicable', lambda: 'keys %s '
                  'are listed but have no entry for %s:%s (%s)' % (
                      sorted(listed - appl, key=str), o, v, how), dicts=dicts)
        chk.count('keys_listed', len(listed))
        chk.count('keys_not_listed', len(every - listed))

    for i in chk.loop(600, 20000):
        rules = model.gen_rules(rng, keys=rng.sample(model.KEYS, 5))
        before = deepcopy(rules)
        for o in model.OSS + ['otheros']:
            v = rng.choice(model.near_versions(model.VERSIONS.get(o, [])))
            c = ctx(o, v)
            out = observe(spec.keys, rules, c)
            if chk.returns(out, 'keys-raises', 'listing keys'):
                check(list(out.value), [before], c, 'one source')
        chk.check(same_data(rules, before), 'keys-changes-rules',
                  'listing the keys changed the rules')
        chk.case(before, sample=before)
    for i in chk.loop(25, 500):
        env = Env()
        tag = model.Tags()
        dicts = [model.gen_rules(rng, tag, keys=rng.sample(
            model.KEYS, rng.randint(0, 4))) for _ in range(rng.randint(1, 4))]
        env.write_sources('s.yaml', [
            env.write_rules('r%d.yaml' % j, model.shorten(rng, r))
            for j, r in enumerate(dicts)])
        db = env.database()
        out = quiet(db.load_from_source)
        if not chk.returns(out, 'load-raises', 'loading'):
            continue
        for o in model.OSS + ['otheros']:
            v = rng.choice(model.near_versions(model.VERSIONS.get(o, [])))
            c = ctx(o, v)
            out = quiet(db.keys, c)
            if chk.returns(out, 'keys-raises', 'listing keys'):
                check(out.value, dicts, c, '%d sources' % len(dicts))
                for k in {k for r in dicts for k in r}:
                    lk = quiet(db.lookup, k, c)
                    if chk.returns(lk, 'lookup-raises', 'lookup'):
                        chk.count('lookups')
                        chk.check(not lk.value or k in out.value,
                                  'key-missing', lambda: 'lookup of %r on '
                                  '%s:%s gives %s but it is not listed' % (
                                      k, o, v, short(lk.value)))
        chk.case(dicts, nontrivial=len(dicts) > 1)
