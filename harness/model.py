"""Reference models, written from the documentation, and data generators."""
import copy

OSS = ['ubuntu', 'debian', 'osx', 'fedora']
VERSIONS = {'ubuntu': ['lucid', 'precise', 'trusty'],
            'debian': ['wheezy', 'jessie'],
            'osx': ['lion', 'mountain lion', '10.9', '10', '10.10'],
            'fedora': ['20', 'heisenbug', '2']}
DEFAULTS = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew',
            'fedora': 'yum'}
INSTALLERS = ['apt', 'homebrew', 'yum', 'pip', 'gem', 'macports', 'pip3', 'yu']
KEYS = ['foo', 'bar', 'baz', 'libfoo-dev', 'python.x', 'c++', 'käse', 'k_1',
        'O’Reilly', '7zip', 'Foo', 'K_1']


class Tags(object):
    """Unique package names, so that every rule identifies its place."""

    def __init__(self, prefix='p'):
        self.prefix = prefix
        self.n = 0

    def __call__(self):
        self.n += 1
        return '%s%d' % (self.prefix, self.n)


def gen_rule(rng, tag, rich=True):
    rule = {'packages': [tag() for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]}
    if rich and rng.random() < .25:
        rule['depends'] = [rng.choice(KEYS) for _ in range(rng.randint(1, 2))]
    if rich and rng.random() < .25:
        rule['options'] = rng.choice(
            [['--with-x'], {'a': [1, None, True], 'b': {'c': 'd'}}, 'text', 7])
    if not rule['packages'] or rich and rng.random() < .1:
        rule['id'] = tag()     # still identifiable without packages
    return rule


def gen_installer_dict(rng, tag, default=None, allow_empty=True):
    """``default`` is the explicit name of the default installer here.

    'default_installer' and that explicit name are never used together
    because what is meant by that is not documented.
    """
    names = rng.sample(INSTALLERS, rng.randint(0 if allow_empty and
                                               rng.random() < .1 else 1, 3))
    res = {}
    for n in names:
        if default is not None and rng.random() < .3:
            n = 'default_installer'
        if n == 'default_installer' and default in res:
            continue
        if n == default and 'default_installer' in res:
            continue
        res[n] = gen_rule(rng, tag)
    return res


def gen_os_dict(rng, tag, oss=OSS, versions=VERSIONS, defaults=DEFAULTS,
                allow_empty=True):
    res = {}
    for os_name in rng.sample(['any_os'] + list(oss),
                              rng.randint(1, min(4, 1 + len(oss)))):
        if os_name == 'any_os':
            res['any_os'] = {'any_version': gen_installer_dict(
                rng, tag, None, allow_empty)}
            continue
        vd = {}
        pool = ['any_version'] + list(versions[os_name])
        for v in rng.sample(pool, rng.randint(1, len(pool))):
            vd[v] = gen_installer_dict(rng, tag, defaults[os_name],
                                       allow_empty)
        res[os_name] = vd
    return res


def gen_rules(rng, tag=None, keys=None, **kw):
    """An expanded, valid rules dict."""
    tag = tag or Tags()
    if keys is None:
        keys = rng.sample(KEYS, rng.randint(1, 5))
    return {k: gen_os_dict(rng, tag, **kw) for k in keys}


def hollow(rng, rules, share=.06):
    """Some rules say nothing, which overrides others all the same."""
    for od in rules.values():
        for vd in od.values():
            for names in vd.values():
                for n in names:
                    if rng.random() < share:
                        names[n] = {}
    return rules


def lookup(rules, key, os_name, version, default):
    """What looking up must return: per installer the most specific rule."""
    entry = rules.get(key) or {}
    res = {}
    levels = [entry.get(os_name, {}).get(version, {}),
              entry.get(os_name, {}).get('any_version', {}),
              entry.get('any_os', {}).get('any_version', {})]
    for level in levels:
        for name, rule in level.items():
            name = default if name == 'default_installer' else name
            if name not in res:
                res[name] = rule
    return res


def overlay(dicts):
    """First dict wins, per installer."""
    res = {}
    for d in dicts:
        for k, v in d.items():
            res.setdefault(k, v)
    return res


def applicable(rules, key, os_name, version):
    entry = rules.get(key) or {}
    return ('any_os' in entry or 'any_version' in entry.get(os_name, {}) or
            version in entry.get(os_name, {}))


def queries(rules_list=(), oss=OSS, versions=VERSIONS):
    keys = ['nosuchkey']
    for r in rules_list:
        for k in r:
            if k not in keys:
                keys.append(k)
    for k in keys:
        for o in list(oss) + ['otheros']:
            for v in near_versions(versions.get(o, [])):
                yield k, o, v


def near_versions(known):
    """The given versions and others whose names are similar."""
    res = list(known) + ['otherversion']
    for v in known[:3]:
        for w in (v + '.1', v + 'x', v[:-1], v.upper(), v.split('.')[0]):
            if w and w not in res:
                res.append(w)
    return res


# --- shorthands -------------------------------------------------------

def shorten(rng, rules):
    """A random shorthand spelling of an expanded rules dict.

    Returns a new structure; every step undone here is documented to be
    done by expansion.
    """
    return {k: {o: _short_version_dict(rng, o, vd) for o, vd in od.items()}
            for k, od in rules.items()}


def _short_list(rng, x):
    x = list(x)
    if x == [] and rng.random() < .4:
        return None
    if len(x) == 1 and rng.random() < .5:
        return x[0]
    return x


def _short_definition(rng, rule):
    rule = copy.deepcopy(rule)
    if set(rule) == {'packages'} and rng.random() < .6:
        return _short_list(rng, rule['packages'])
    if 'packages' in rule:
        rule['packages'] = _short_list(rng, rule['packages'])
    if 'depends' in rule:
        rule['depends'] = _short_list(rng, rule['depends'])
    elif rng.random() < .2:
        rule['depends'] = rng.choice([None, []])
    return rule


def _short_installer_dict(rng, d):
    d = {k: _short_definition(rng, r) for k, r in d.items()}
    if set(d) == {'default_installer'} and rng.random() < .7:
        v = d['default_installer']
        if not isinstance(v, dict):
            return v
    return d


def _short_version_dict(rng, os_name, vd):
    vd = {v: _short_installer_dict(rng, d) for v, d in vd.items()}
    if os_name == 'any_os':
        # installers may be given directly under any_os
        if isinstance(vd['any_version'], dict) and \
                'any_version' not in vd['any_version'] and rng.random() < .6:
            return vd['any_version']
        return vd
    if set(vd) == {'any_version'} and rng.random() < .7:
        v = vd['any_version']
        if not isinstance(v, dict):
            return v
    return vd


# --- validity of rules as written in YAML ----------------------------

KEYWORDS = {'any_os', 'any_version', 'default_installer', 'unset_installers',
            'any_key'}
