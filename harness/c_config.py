"""P26-P29: configuration."""
import argparse
import json
import os

import yaml

from common import (SCRATCH, deepcopy, fresh_dir, observe, quiet, same_data,
                    short, write)
from rules_common import cli, dump

HOME = os.path.join(SCRATCH, 'home')
USER_DIR = os.path.join(HOME, '.config', 'xylem')

WORDS = ['foo', 'a-b', 'x.y', 'käse', 'two words', '日本', 'Yes', '12', 'null',
         'a:b', "it's", 'q"q', '#no', 'a,b', '[x', '@{y}', '', '~', '1.5']


class Opt(object):
    """One option: how its values are written and what they mean."""

    def __init__(self, name, kind, default=None, arg=None):
        self.name, self.kind, self.default, self.arg = (name, kind, default,
                                                        arg)
        self.merging = kind.startswith('merging')


XYLEM = [
    Opt('os_override', 'string', arg='os'),
    Opt('os_options/features', 'list', arg='os-features'),
    Opt('core_installers', 'list', arg='core-installers'),
    Opt('use_additional_installers', 'bool', True,
        'use-additional-installers'),
    Opt('install_from', 'merging-lists', {}, 'install-from'),
    Opt('installer_options', 'merging-dicts', {}, 'installer-options'),
    Opt('user_sources', 'bool', False, 'user-sources'),
    Opt('cache_dir', 'path', arg='cache-dir'),
    Opt('sources_dir', 'path', arg='sources-dir'),
    Opt('disabled_plugins/os', 'list', [], 'disable-os-plugins'),
    Opt('disabled_plugins/installer', 'list', [],
        'disable-installer-plugins'),
    Opt('disabled_plugins/spec', 'list', [], 'disable-spec-plugins'),
]

PATHS = ['/abs/x', 'rel', 'a/../b/./c', '~/in home', '~', '/', '.', 'x//y/',
         '~nosuchuser/z', 'ä/ö', '$HOME/x']


def path_meaning(p):
    return os.path.abspath(os.path.expanduser(p))


def any_data(rng, depth=2):
    k = rng.randrange(10 if depth else 7)
    if k == 7:
        return [any_data(rng, depth - 1) for _ in range(rng.randrange(3))]
    if k > 7:
        return {rng.choice(WORDS[:6]): any_data(rng, depth - 1)
                for _ in range(rng.randrange(3))}
    return rng.choice([True, False, 3, -1, 2.5, None] + WORDS[:12])


def gen(rng, kind):
    """A value as written in a file."""
    if kind == 'string':
        return rng.choice(WORDS)
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'path':
        return rng.choice(PATHS)
    if kind == 'list':
        return [rng.choice(WORDS) for _ in range(rng.randrange(4))]
    if kind == 'merging-lists':
        return {rng.choice(['pip', 'apt', 'x y', '7']):
                [rng.choice(WORDS) for _ in range(rng.randrange(3))]
                for _ in range(rng.randrange(4))}
    if kind in ('merging-dicts', 'dict'):
        return {rng.choice(['pip', 'apt', 'x y', '7']):
                {rng.choice(WORDS[:6]): any_data(rng)
                 for _ in range(rng.randrange(3))}
                for _ in range(rng.randrange(4))}
    if kind == 'any':
        v = any_data(rng)
        return 'x' if v is None else v
    raise AssertionError(kind)


def meaning(kind, value):
    return path_meaning(value) if kind == 'path' else value


def flow(x):
    return json.dumps(x, ensure_ascii=False)


def args_for(rng, opt, value):
    """Command line arguments giving ``value`` for ``opt``."""
    a = '--' + opt.arg

    def join(v):
        if rng.random() < .5 and not v.startswith('-'):
            return [a, v]
        return [a + '=' + v]
    if opt.kind in ('string', 'path'):
        return join(value)
    if opt.kind == 'bool':
        return join(rng.choice(['yes', 'true', 'on', 'True'] if value else
                               ['no', 'false', 'off', 'False']))
    if opt.kind == 'list':
        if value and rng.random() < .4:
            # repeated arguments are concatenated
            i = rng.randrange(len(value) + 1)
            parts = [p for p in (value[:i], value[i:]) if p]
        else:
            parts = [value]
        res = []
        for p in parts:
            t = flow(p)
            if p and rng.random() < .6:
                t = t[1:-1]
            res += join(t)
        return res
    if opt.kind == 'any':
        return join(flow(value))
    items = list(value.items())
    if len(items) > 1 and rng.random() < .4:
        i = rng.randrange(1, len(items))
        parts = [dict(items[:i]), dict(items[i:])]
    else:
        parts = [value]
    res = []
    for p in parts:
        t = flow(p)
        if p and rng.random() < .6:
            t = t[1:-1]
        res += join(t)
    return res


class Places(object):
    """Random values for options in several places, and what they mean."""

    def __init__(self, rng, opts, files, with_args=True, density=None):
        self.rng, self.opts, self.files = rng, opts, files
        density = rng.choice([.2, .5, .8]) if density is None else density
        self.raw = []       # per file: name -> value or None
        self.argv = []
        self.from_args = {}
        if with_args:
            for o in opts:
                if o.arg and rng.random() < density * .6:
                    v = gen(rng, o.kind)
                    self.from_args[o.name] = v
            chunks = [args_for(rng, o, self.from_args[o.name]) for o in opts
                      if o.name in self.from_args]
            rng.shuffle(chunks)
            self.argv = [a for c in chunks for a in c]
        for path in files:
            raw = {}
            for o in opts:
                r = rng.random()
                if r < density:
                    raw[o.name] = gen(rng, o.kind)
                elif r < density + .1:
                    raw[o.name] = None
            self.raw.append(raw)
            self.write(path, raw)

    def write(self, path, raw):
        rng = self.rng
        data = {}
        groups = set()
        for name in rng.sample(sorted(raw), len(raw)):
            if '/' in name:
                g, n = name.split('/')
                groups.add(g)
                data.setdefault(g, {})[n] = raw[name]
            else:
                data[name] = raw[name]
        for o in self.opts:
            if '/' in o.name:
                g = o.name.split('/')[0]
                if g not in groups and rng.random() < .2:
                    data[g] = rng.choice([None, {}])
                elif g in groups and rng.random() < .2:
                    data[g]['unknown'] = any_data(rng)
        if rng.random() < .3:
            data[rng.choice(['unknown', 'os', 'features', 'cache-dir',
                             'os-override'])] = any_data(rng)
        d = os.path.dirname(path)
        if os.path.exists(path):
            os.unlink(path)
        if not data and rng.random() < .5:
            if rng.random() < .5:
                os.path.isdir(d) or os.makedirs(d)
                write(path, rng.choice(['', '# nothing\n', '---\n', '{}\n',
                                        'null\n']))
            return
        os.path.isdir(d) or os.makedirs(d)
        text = dump(data)
        if rng.random() < .3:
            text = yaml.safe_dump(data, default_flow_style=True)
        write(path, text)

    def expected(self, used):
        """Effective values, ``used``: indices of files by priority."""
        res = {}
        for o in self.opts:
            values = []
            if self.from_args.get(o.name) is not None:
                values.append(self.from_args[o.name])
            for i in used:
                if self.raw[i].get(o.name) is not None:
                    values.append(self.raw[i][o.name])
            if o.default is not None:
                values.append(o.default)
            if o.merging:
                v = {}
                for x in reversed(values):
                    v.update(x)
            else:
                v = values[0] if values else None
                if v is not None:
                    v = meaning(o.kind, v)
            res[o.name] = v
        return res


def get(config, name):
    for n in name.split('/'):
        config = config[n]
    return config


def override_meaning(text):
    """(name, version), features of an OS override."""
    features = None
    if '&' in text:
        text, _, f = text.partition('&')
        f = f.strip()
        features = [x.strip() for x in f.split(',')] if f else []
    if ':' in text:
        n, _, v = text.partition(':')
        return (n.strip(), v.strip()), features
    return (text.strip(), None), features


def xylem_args(argv):
    """The arguments parsed as by the command line tool."""
    from xylem.arguments import add_global_arguments
    from xylem.config import add_config_arguments
    parser = argparse.ArgumentParser(add_help=False)
    add_config_arguments(parser)
    add_global_arguments(parser)
    return parser.parse_args(argv)


def load_xylem(argv):
    """Load the configuration as the command line tool does."""
    import xylem.config as config
    from xylem.arguments import handle_global_arguments
    saved = config.get_config()
    try:
        args = xylem_args(argv)
        handle_global_arguments(args)
        config.handle_config_arguments(args)
        return config.get_config()
    finally:
        config.set_config(saved)


def compare(chk, config, want, opts, what, skip=(), **w):
    for o in opts:
        if o.name in skip:
            continue
        g = observe(get, config, o.name)
        if not chk.returns(g, 'value', 'option %r %s' % (o.name, what), **w):
            continue
        chk.check(same_data(g.value, want[o.name]), 'value',
                  lambda: 'option %r %s: got %s, expected %s' % (
                      o.name, what, short(g.value), short(want[o.name])), **w)
        chk.count('options')


# --- P26 --------------------------------------------------------------

def p26(chk):
    import xylem.config_utils as cu
    from xylem.config import ensure_config
    rng = chk.rng
    TYPES = {'string': lambda: cu.String, 'bool': lambda: cu.Boolean,
             'path': lambda: cu.Path, 'list': lambda: cu.List(cu.String),
             'merging-lists': lambda: cu.MergingDict(cu.List(cu.String)),
             'merging-dicts': lambda: cu.MergingDict(cu.Dict(cu.Any)),
             'dict': lambda: cu.Dict(cu.Dict(cu.Any)), 'any': lambda: cu.Any}
    for i in chk.loop(450, 12000):
        root = fresh_dir('conf')
        mode = rng.choice(['xylem', 'xylem', 'local', 'random', 'dict'])
        if mode == 'random':
            # another tool with another description of its configuration
            tool = 'tool%d' % rng.randrange(3)
            files = [os.path.join(HOME, '.config', tool, 'conf.yaml'),
                     os.path.join(root, 'etc', tool, 'conf.yaml')]
            desc = cu.ConfigDescription('conf.yaml')
            opts, names = [], set()
            for _ in range(rng.randint(1, 8)):
                n = rng.choice(['a', 'b', 'c_d', 'g/a', 'g/b', 'h/a', 'long',
                                'h/c_d', 'e_e'])
                if n in names:
                    continue
                names.add(n)
                kind = rng.choice(sorted(TYPES))
                o = Opt(n, kind)
                kw = {}
                if rng.random() < .5:
                    o.default = gen(rng, kind)
                    if kind == 'path':
                        o.default = path_meaning(o.default)
                    kw['default'] = o.default
                elif o.merging:
                    o.default = {}
                r = rng.random()
                if r < .4:
                    kw['command_line'] = True
                    o.arg = n.replace('/', '-').replace('_', '-')
                elif r < .7:
                    o.arg = 'arg-%d' % len(names)
                    kw['command_line_argument'] = rng.choice(
                        ['--', '']) + o.arg
                elif r < .8:
                    kw['command_line_metavar'] = 'X'
                    o.arg = n.replace('/', '-').replace('_', '-')
                desc.add(n, type=TYPES[kind](), **deepcopy(kw))
                opts.append(o)
            p = Places(rng, opts, files)
            argv = ['--prefix', root]
            used = [0, 1]
            if rng.random() < .3:
                argv.append('--no-user-config')
                used = [1]
            parser = argparse.ArgumentParser()
            desc.add_arguments(parser)
            cu.add_global_config_arguments(parser, tool)
            argv = argv + p.argv

            def load():
                args = parser.parse_args(argv)
                cu.handle_global_config_arguments(args, tool)
                return cu.load_config(args, desc, tool)
            o = quiet(load)
            chk.count('descriptions')
            want = p.expected(used)
            if chk.returns(o, 'load', 'loading the configuration', argv=argv,
                           raw=p.raw):
                compare(chk, o.value, want, opts, 'for %s' % (argv,),
                        raw=p.raw)
            for f in files:
                if os.path.exists(f):
                    os.unlink(f)
        elif mode == 'dict':
            p = Places(rng, XYLEM, [os.path.join(root, 'x.yaml')],
                       with_args=False)
            f = p.files[0]
            data = {}
            if os.path.exists(f):
                data = yaml.safe_load(open(f, encoding='utf-8')) or {}
            # whatever the current configuration is, it is not used
            import xylem.config as config
            saved = config.get_config()
            other = Places(rng, XYLEM, [os.path.join(root, 'x2.yaml')],
                           with_args=False)
            if os.path.exists(other.files[0]):
                o = quiet(config.config_from_parsed_yaml,
                          yaml.safe_load(open(other.files[0],
                                              encoding='utf-8')) or {},
                          config.get_config_description(), use_defaults=True)
                if o.ok:
                    config.set_config(o.value)
            try:
                o = quiet(ensure_config, data)
            finally:
                config.set_config(saved)
            want = p.expected([0])
            if want['os_override'] is not None:
                want['os_override'], feats = override_meaning(
                    want['os_override'])
                if feats is not None:
                    want['os_options/features'] = feats
            chk.count('dicts')
            if chk.returns(o, 'load', 'configuration from a dictionary',
                           data=data):
                compare(chk, o.value, want, XYLEM, 'from a dict', data=data)
            argv = []
        else:
            local = mode == 'local'
            files = [os.path.join(USER_DIR, 'config.yaml'),
                     os.path.join(root, 'etc', 'xylem', 'config.yaml'),
                     os.path.join(root, 'local', 'config.yaml')]
            p = Places(rng, XYLEM, files)
            argv = ['--prefix', root] + p.argv
            if local:
                argv += ['--xylem-dir', os.path.join(root, 'local')]
                used = [2]
            else:
                used = [0, 1]
            if rng.random() < .3:
                argv.append('--no-user-config')
                used = [2] if local else [1]
            want = p.expected(used)
            skip = [n for n in ('cache_dir', 'sources_dir')
                    if want[n] is None]
            if want['os_override'] is not None:
                want['os_override'], feats = override_meaning(
                    want['os_override'])
                if feats is not None:
                    want['os_options/features'] = feats
            o = quiet(load_xylem, argv)
            if chk.returns(o, 'load', 'loading the configuration', argv=argv,
                           raw=p.raw):
                compare(chk, o.value, want, XYLEM, 'for %s' % (argv,),
                        skip, raw=p.raw)
                chk.count('local' if local else 'layered')
            if rng.random() < .15:
                # the same is printed
                c = cli(argv + ['--print-config', 'lookup', 'x'])
                chk.count('printed')
                chk.check(c.status == 0 and c.exc is None, 'print-config',
                          '--print-config: %r' % (c,), argv=argv)
                text = c.out.replace('\x1b[0m', '')
                y = observe(yaml.safe_load, text)
                if chk.returns(y, 'print-config', 'printed configuration',
                               text=text) and chk.check(
                        isinstance(y.value, dict), 'print-config',
                        'no configuration printed: %r' % text):
                    if want['os_override'] is not None:
                        want['os_override'] = list(want['os_override'])
                    compare(chk, y.value, want, XYLEM, 'printed for %s' % (
                        argv,), skip, raw=p.raw)
            for f in files:
                if os.path.exists(f):
                    os.unlink(f)
        several = sum(
            1 for op in p.opts
            if sum(r.get(op.name) is not None for r in
                   p.raw + [p.from_args]) > 1)
        chk.count('options_set_in_several_places', several)
        chk.case((mode, argv, p.raw), sample=dict(argv=argv, files=p.raw),
                 nontrivial=several > 0)


# --- P27 --------------------------------------------------------------

class Rejected(Exception):
    pass


def make_type(rng, depth=2):
    """A random option type: (constructor name, element types)."""
    k = rng.choice(['Any', 'String', 'Boolean', 'Path', 'List', 'Dict',
                    'MergingDict', 'List', 'Dict'])
    if k in ('List', 'Dict', 'MergingDict'):
        if depth == 0:
            return (rng.choice(['Any', 'String', 'Boolean', 'Path']),)
        return (k, make_type(rng, depth - 1))
    return (k,)


def build_type(cu, t):
    if len(t) == 1:
        return getattr(cu, t[0])
    return getattr(cu, t[0])(build_type(cu, t[1]))


def convert(t, v, top=True):
    """What a value means for an option of this type."""
    k = t[0]
    if v is None:
        return {} if k == 'MergingDict' else None
    if k == 'Any':
        return v
    if k in ('String', 'Path'):
        if not isinstance(v, str):
            raise Rejected()
        return path_meaning(v) if k == 'Path' else v
    if k == 'Boolean':
        if not isinstance(v, bool):
            raise Rejected()
        return v
    if k == 'List':
        if not isinstance(v, list):
            raise Rejected()
        return [convert(t[1], e, False) for e in v]
    if not isinstance(v, dict):
        raise Rejected()
    res = {}
    for n, e in v.items():
        if not isinstance(n, str):
            raise Rejected()
        res[n] = convert(t[1], e, False)
    return res


def value_for(rng, t, wrong=.12):
    if rng.random() < wrong:
        return rng.choice([True, 3, 2.5, 'text', [], ['x'], {}, {'a': 'b'},
                           {3: 4}, [[]], [{'x': 1}], '', 0, False])
    k = t[0]
    if k == 'Any':
        v = any_data(rng)
        return 'x' if v is None else v
    if k == 'String':
        return rng.choice(WORDS)
    if k == 'Path':
        return rng.choice(PATHS)
    if k == 'Boolean':
        return rng.random() < .5
    if k == 'List':
        return [value_for(rng, t[1], wrong / 2)
                for _ in range(rng.randrange(4))]
    return {(rng.choice(WORDS) if rng.random() > wrong / 4 else
             rng.choice([1, True, 2.5])): value_for(rng, t[1], wrong / 2)
            for _ in range(rng.randrange(4))}


def well_typed(t, v, inner=False):
    """Is ``v`` an allowed converted value of this type?"""
    k = t[0]
    if v is None:
        # null inside of lists and dictionaries is not judged
        return True
    if k == 'Any':
        return True
    if k == 'String':
        return isinstance(v, str)
    if k == 'Path':
        return isinstance(v, str) and v == os.path.abspath(v)
    if k == 'Boolean':
        return isinstance(v, bool)
    if k == 'List':
        return isinstance(v, list) and all(well_typed(t[1], e, True)
                                           for e in v)
    return isinstance(v, dict) and all(
        (n is None or isinstance(n, str)) and well_typed(t[1], e, True)
        for n, e in v.items())


def has_null(v):
    if isinstance(v, dict):
        return any(map(has_null, list(v) + list(v.values())))
    return any(map(has_null, v)) if isinstance(v, list) else v is None


def verifiable(t, v):
    """Is a value without null acceptable as it is?"""
    k = t[0]
    if k == 'Any':
        return True
    if k in ('String', 'Path'):
        return isinstance(v, str)
    if k == 'Boolean':
        return isinstance(v, bool)
    if k == 'List':
        return isinstance(v, list) and all(verifiable(t[1], e) for e in v)
    return isinstance(v, dict) and all(
        isinstance(n, str) and verifiable(t[1], e) for n, e in v.items())


FUZZ = ['[', ']', '{', '}', ':', ',', ' ', '\n', '"', "'", 'a', 'b', '1', '-',
        '#', '&x', '*x', '!!', '!!int', '!!python/name:os.x', '? ', '<<', '=',
        '2001-99-99', '~', 'null', 'yes', '\t', '\x01', '%', '@', '`', '|', '>',
        'ä', '\ue000', '0x', '1e9', '.inf', 'a: b', '[a]', '{a: b}', '\x85',
        'a]: [b', 'a}: {b', 'x}, {y', 'a], [b', 'a] #', 'a} #', '}, ', '], ']


def p27(chk):
    import xylem.config_utils as cu
    from xylem.config import ensure_config
    rng = chk.rng
    E = cu.ConfigValueError
    for i in chk.loop(2500, 80000):
        t = make_type(rng)
        ty = cu.maybe_instantiate(build_type(cu, t))
        if i % 25 == 0:
            _p27_files(chk, cu, ensure_config)
        v = value_for(rng, t) if rng.random() > .03 else None
        try:
            want, bad = convert(t, v), False
        except Rejected:
            want, bad = None, True
        before = deepcopy(v)
        o = observe(ty.from_yaml, v)
        chk.check(same_data(v, before), 'changed-input',
                  'converting changed the input %r to %r' % (before, v))
        if bad:
            chk.raises(o, E, 'rejected', '%s from %r' % (t, v))
            chk.count('rejected')
        elif chk.returns(o, 'accepted', '%s from %r' % (t, v)):
            chk.count('accepted')
            chk.check(same_data(o.value, want), 'converted',
                      '%s from %r: got %r, expected %r' % (t, v, o.value,
                                                           want))
            again = observe(ty.from_yaml, deepcopy(o.value))
            if chk.returns(again, 'again', '%s from converted %r' % (
                    t, o.value)):
                chk.check(same_data(again.value, o.value), 'again',
                          '%s: converting %r again gives %r' % (
                              t, o.value, again.value))
            ver = observe(ty.verify, o.value)
            chk.returns(ver, 'verify', 'verifying %r as %s' % (o.value, t))
        # values are verified without being converted
        if not has_null(v):
            ver = observe(ty.verify, v)
            if verifiable(t, v):
                if chk.returns(ver, 'verify', 'verifying %r as %s' % (v, t)):
                    chk.check(ver.value is v and same_data(v, before),
                              'verify', 'verifying %r as %s changes it to %r'
                              % (before, t, ver.value))
            else:
                chk.raises(ver, E, 'verify', 'verifying %r as %s' % (v, t))
                chk.count('verify_rejected')
        # as text on the command line
        if t[0] in ('String', 'Path') and isinstance(v, str):
            text, want_c, bad_c = v, convert(t, v), False
        elif v is None or t[0] in ('String', 'Path'):
            text = None
        else:
            text = flow(v) if not has_odd_keys(v) else None
            want_c, bad_c = want, bad
            if t[0] == 'List' and not isinstance(v, list):
                # a single element without brackets
                w = [v]
                try:
                    want_c, bad_c = convert(t, w), False
                except Rejected:
                    bad_c = True
            elif t[0] in ('Dict', 'MergingDict') and not isinstance(v, dict):
                text = None     # may be read as an entry
        if text is not None:
            arg = text
            if ty.command_line_multiple() and rng.random() < .7:
                arg = [text]
            o = observe(ty.from_command_line, arg)
            if bad_c:
                chk.raises(o, E, 'rejected-argument', '%s from argument %r'
                           % (t, arg))
                chk.count('rejected_arguments')
            elif chk.returns(o, 'accepted-argument', '%s from argument %r'
                             % (t, arg)):
                chk.count('accepted_arguments')
                chk.check(same_data(o.value, want_c), 'argument',
                          '%s from argument %r: got %r, expected %r' % (
                              t, arg, o.value, want_c))
        # arbitrary text
        text = ''.join(rng.choice(FUZZ) for _ in range(rng.randrange(1, 9)))
        arg = [text] if ty.command_line_multiple() else text
        o = observe(ty.from_command_line, arg)
        chk.count('arbitrary_arguments')
        if o.ok:
            chk.check(well_typed(t, o.value), 'arbitrary-argument',
                      '%s from argument %r is %r' % (t, text, o.value))
            chk.count('arbitrary_arguments_accepted')
        else:
            chk.raises(o, E, 'arbitrary-argument', '%s from argument %r' % (
                t, text))
        chk.case((t, v), sample='%s from %r' % (t, v), nontrivial=len(t) > 1)


def has_odd_keys(v):
    if isinstance(v, dict):
        return any(not isinstance(k, str) for k in v) or any(
            has_odd_keys(x) for x in v.values())
    if isinstance(v, list):
        return any(has_odd_keys(x) for x in v)
    return False


WRONG = {
    'os_override': [3, True, [], {}, 1.5],
    'os_options': ['x', 3, [], True, ['a']],
    'os_options/features': ['x', 3, {}, [3], [['a']], [True], [None]],
    'core_installers': ['apt', 3, {'a': 1}, [1.5], [{}], True, [None],
                        ['apt', None]],
    'use_additional_installers': ['yes please', 1, 0, [], {}, 'True'],
    'install_from': ['pip: foo', ['a'], {'pip': 'foo'}, {'pip': [3]}, 3,
                     {'pip': {'a': 1}}, {3: ['foo']}, True, {'pip': [None]}],
    'installer_options': [['a'], {'pip': 'foo'}, {'pip': [1]}, 'x',
                          {'pip': True}, {3: {}}],
    'user_sources': ['x', 1, []],
    'cache_dir': [3, True, ['a'], {}],
    'sources_dir': [3, True, ['a'], {}],
    'disabled_plugins': ['apt', ['apt'], 3, False],
    'disabled_plugins/os': ['x', {}, [3], 3, [None]],
    'disabled_plugins/installer': ['x', {}, [3], 3, [None]],
    'disabled_plugins/spec': ['x', {}, [3], 3, [None]],
}

BAD_FILES = ['- a\n- b\n', 'text', '3', '[', '{a', 'a: b: c', 'x: [1\n',
             '1: 2\n', 'null: 3\n', 'true: 1\n', '? [a]\n: b\n', '\t- x',
             'a: *b\n', 'a: !!int x\n', 'a: !foo x\n', 'a: 2001-99-99\n',
             b'a: \xff\x00\n', 'a: "\n', '--- a\n--- b\n',
             'a: b\n- c\n', '@x', 'a: `x`', '[]', 'false', "''", '0']


def _p27_files(chk, cu, ensure_config):
    rng = chk.rng
    root = fresh_dir('conf')
    path = os.path.join(root, 'config.yaml')
    # one option of a wrong type among right ones
    p = Places(rng, XYLEM, [path], with_args=False, density=.5)
    data = {}
    if os.path.exists(path):
        data = yaml.safe_load(open(path, encoding='utf-8')) or {}
    name = rng.choice(sorted(WRONG))
    bad = deepcopy(rng.choice(WRONG[name]))
    if '/' in name:
        g, n = name.split('/')
        if not isinstance(data.get(g), dict):
            data[g] = {}
        data[g][n] = bad
    else:
        data[name] = bad
    write(path, dump(data))
    argv = ['--xylem-dir', root]
    o = quiet(load_xylem, argv)
    chk.raises(o, cu.ConfigValueError, 'wrong-type',
               'file with %s: %r' % (name, bad), data=data)
    o = quiet(ensure_config, data)
    chk.raises(o, cu.ConfigValueError, 'wrong-type',
               'dictionary with %s: %r' % (name, bad), data=data)
    chk.count('wrong_types')
    # a file that is no configuration
    text = rng.choice(BAD_FILES)
    write(path, text)
    o = quiet(load_xylem, argv)
    chk.raises(o, cu.ConfigValueError, 'bad-file', 'file %r' % (text,))
    chk.count('bad_files')
    # a file that cannot be read
    if os.geteuid() != 0:
        write(path, 'user_sources: true\n')
        os.chmod(path, 0)
        o = quiet(load_xylem, argv)
        chk.raises(o, cu.ConfigValueError, 'bad-file', 'unreadable file')
        os.chmod(path, 0o600)
        chk.count('unreadable_files')
    # unknown options change nothing
    good = {'core_installers': ['a', 'b'],
            'disabled_plugins': {'os': ['x']}}
    base = quiet(ensure_config, deepcopy(good))
    more = deepcopy(good)
    for _ in range(rng.randint(1, 4)):
        d = rng.choice([more, more['disabled_plugins']])
        d[rng.choice(['unknown', 'Core_installers', 'core-installers', 'os_',
                      'user', 'os options'])] = any_data(rng)
    ext = quiet(ensure_config, more)
    if chk.returns(base, 'unknown', 'known options') and chk.returns(
            ext, 'unknown', 'unknown options %r' % (more,)):
        for op in XYLEM:
            chk.equal(get(ext.value, op.name), get(base.value, op.name),
                      'unknown', 'option %r with unknown options %r' % (
                          op.name, more))
        chk.count('unknown_options')
    # other kinds of objects are no configuration
    x = rng.choice([3, 'text', ['a'], True, object()])
    chk.raises(observe(ensure_config, x), ValueError, 'no-config',
               'configuration %r' % (x,))
    # on the command line of the tool
    arg, texts = rng.choice([
        ('use-additional-installers', ['maybe', '1', '[]', '{', '']),
        ('user-sources', ['x', '{a: b}', '[yes]', '"yes"']),
        ('install-from', ['[a]', 'pip: foo', 'pip: [1]', 'pip: {}', '"a": 1',
                          '{', ': [', '3']),
        ('installer-options', ['pip: 3', 'pip: [x]', '[', '}', '[a, b]']),
        ('core-installers', ['[', 'a]', '1', '[1.5]', 'a: b', '"', '{}',
                             'yes'])])
    text = rng.choice(texts)
    if (arg, text) == ('use-additional-installers', ''):
        # empty: not set
        return
    os.unlink(path)
    argv = ['--xylem-dir', root, '--%s=%s' % (arg, text)]
    o = quiet(load_xylem, argv)
    chk.raises(o, cu.ConfigValueError, 'bad-argument', 'argument %r' % argv)
    chk.count('bad_arguments')
    if arg in ('install-from', 'installer-options'):
        one = 'pip: [a]' if arg == 'install-from' else 'pip: {x: 1}'
        n = rng.randint(2, 4)
        args = [one] + [one.replace('pip', 'k%d' % k) for k in range(n)]
        rng.shuffle(args)
        argv = ['--xylem-dir', root] + ['--%s=%s' % (arg, x) for x in args]
        o = quiet(load_xylem, argv)
        if chk.returns(o, 'repeated-argument', 'arguments %r' % argv):
            got = get(o.value, arg.replace('-', '_'))
            chk.equal(sorted(got), sorted(['pip'] + ['k%d' % k for k in
                                                     range(n)]),
                      'repeated-argument', 'arguments %r' % argv)
        argv.insert(rng.randint(2, len(argv)), '--%s=%s' % (arg, one))
        o = quiet(load_xylem, argv)
        chk.raises(o, cu.ConfigValueError, 'repeated-argument',
                   'arguments %r' % argv)
        chk.count('repeated_arguments')


# --- P28 --------------------------------------------------------------

def p28(chk):
    from xylem.config import ensure_config
    from xylem.sources import SourcesContext
    rng = chk.rng
    MARK = ['m%d' % i for i in range(8)]
    for i in chk.loop(700, 20000):
        root = fresh_dir('loc')
        cwd = os.getcwd()
        sub = os.path.join(root, 'cwd')
        os.makedirs(os.path.join(sub, 'deeper'))
        name = 'p%d' % i

        def spelled(path):
            """The path as it may be given by the user."""
            r = rng.random()
            if r < .3:
                return os.path.relpath(path, sub)
            if r < .45:
                return os.path.join(sub, 'deeper', '..', os.path.relpath(
                    path, sub))
            if r < .6:
                return path + rng.choice(['/', '//', '/.', '/x/..'])
            if r < .7 and path.startswith(HOME):
                return '~' + path[len(HOME):]
            return path
        inhome = os.path.join(HOME, name)
        # a path is also taken literally if a part of it is a link
        os.mkdir(os.path.join(root, 'linked'))
        os.symlink('linked', os.path.join(root, 'ln'))
        places = dict(
            prefix_arg=rng.choice([os.path.join(root, 'pa'), inhome + 'pa',
                                   os.path.join(root, 'ln', 'pa'),
                                   os.path.join(root, 'pa ')]),
            prefix_env=rng.choice([os.path.join(root, 'pe'),
                                   os.path.join(root, 'ln', 'pe')]),
            dir_arg=rng.choice([os.path.join(root, 'da'), inhome + 'da']),
            dir_env=rng.choice([os.path.join(root, 'de'), inhome + 'de',
                                os.path.join(root, 'ln', 'de '),
                                os.path.join(root, ' de')]))
        given = {k for k in places if rng.random() < (
            .6 if k.startswith('prefix') else .3)}
        argv, env = [], {}
        if 'prefix_arg' in given:
            argv += ['--prefix', spelled(places['prefix_arg'])]
        if 'dir_arg' in given:
            argv += ['--xylem-dir', spelled(places['dir_arg'])]
        if 'prefix_env' in given:
            env['XYLEM_PREFIX'] = spelled(places['prefix_env'])
        if 'dir_env' in given:
            env['XYLEM_DIR'] = spelled(places['dir_env'])
        prefix = (places['prefix_arg'] if 'prefix_arg' in given else
                  places['prefix_env'] if 'prefix_env' in given else '/')
        cdir = (places['dir_arg'] if 'dir_arg' in given else
                places['dir_env'] if 'dir_env' in given else None)
        # every possible configuration file is marked
        candidates = [USER_DIR]
        for p in sorted(places):
            candidates.append(os.path.join(places[p], 'etc', 'xylem'))
            candidates.append(places[p])
        no_user = rng.random() < .3
        if cdir:
            used = [cdir]
        else:
            used = [USER_DIR] if not no_user else []
            used.append(os.path.join(prefix, 'etc', 'xylem'))
        if no_user:
            argv.append('--no-user-config')
        written, expect = [], {}
        explicit = {}
        user_sources = None
        for n, d in enumerate(dict.fromkeys(candidates)):
            data = {'install_from': {'f%d' % n: []}}
            written.append((d, 'f%d' % n))
            for opt in ('cache_dir', 'sources_dir'):
                if rng.random() < .15:
                    data[opt] = rng.choice(
                        ['rel/%s%d' % (opt, n), '~/%s%d' % (opt, n),
                         '$HOME/%s%d' % (opt, n), '/a/${HOME}%d' % n,
                         '/abs/%s%d' % (opt, n), './x/../y%d' % n,
                         ' rel %d' % n, 'rel%d ' % n, '../ln/r%d' % n])
            if rng.random() < .35:
                data['user_sources'] = rng.random() < .6
            os.path.isdir(d) or os.makedirs(d)
            write(os.path.join(d, 'config.yaml'), dump(data))
            expect[d] = data
        for d in used:
            data = expect.get(d, {})
            for opt in ('cache_dir', 'sources_dir'):
                if opt in data:
                    explicit.setdefault(opt, data[opt])
            if 'user_sources' in data and user_sources is None:
                user_sources = data['user_sources']
        for opt in ('cache_dir', 'sources_dir'):
            if rng.random() < .15:
                v = rng.choice(['rel/arg', '~/arg', '/abs/arg', '/a$HOME/b',
                                'sub/$USER', '%(x)s/{0}', ' sp/x ',
                                '../ln/y'])
                argv += ['--' + opt.replace('_', '-'), v]
                explicit[opt] = v
        if rng.random() < .3:
            user_sources = rng.random() < .6
            argv += ['--user-sources', 'yes' if user_sources else 'no']
        if cdir:
            want = dict(cache_dir=os.path.join(cdir, 'cache'),
                        sources_dir=os.path.join(cdir, 'sources.d'))
        elif user_sources:
            want = dict(cache_dir=os.path.join(USER_DIR, 'cache'),
                        sources_dir=os.path.join(USER_DIR, 'sources.d'))
        else:
            want = dict(
                cache_dir=os.path.join(prefix, 'var', 'cache', 'xylem'),
                sources_dir=os.path.join(prefix, 'etc', 'xylem',
                                         'sources.d'))
        for k, v in explicit.items():
            v = os.path.expanduser(v)
            want[k] = os.path.normpath(os.path.join(sub, v))
        saved = dict(os.environ)
        os.environ.update(env)
        os.chdir(sub)
        try:
            o = quiet(load_xylem, argv)
            if chk.returns(o, 'load', 'loading the configuration', argv=argv,
                           env=env):
                w = dict(argv=argv, env=env, cwd=sub, files=expect)
                for k in sorted(want):
                    chk.equal(get(o.value, k), want[k], 'location',
                              '%s for %r and %r' % (k, argv, env), **w)
                marks = {m for d, m in written if d in used}
                chk.equal(set(get(o.value, 'install_from')), marks, 'files',
                          'configuration files used for %r and %r' % (
                              argv, env), **w)
                ctx = quiet(SourcesContext, config=o.value)
                if chk.returns(ctx, 'context', 'sources context'):
                    chk.equal(ctx.value.sources_dir, want['sources_dir'],
                              'context', 'sources directory used', **w)
                    c = ctx.value.cache_dir
                    chk.check(c == want['cache_dir'] or c.startswith(
                        want['cache_dir'].rstrip('/') + '/'), 'context',
                        'cache directory used: %r instead of %r' % (
                            c, want['cache_dir']), **w)
                os.chdir(root)
                chk.equal(get(o.value, 'cache_dir'), want['cache_dir'],
                          'location', 'cache_dir in another directory', **w)
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(saved)
        for d, _ in written:
            os.unlink(os.path.join(d, 'config.yaml'))
        chk.count('with_directory' if cdir else 'user_sources'
                  if user_sources else 'with_prefix')
        if len(given) > 1:
            chk.count('several_places_given')
        if explicit:
            chk.count('explicit')
        if i % 40 == 0:
            _p28_effect(chk, root)
        chk.case((argv, sorted(env.items()), sorted(explicit.items())),
                 sample=dict(argv=argv, env=env),
                 nontrivial=len(given) > 1 or bool(explicit))


def _p28_effect(chk, root):
    """The files are really read and written in these places."""
    rng = chk.rng
    d = os.path.join(root, 'real')
    os.makedirs(d)
    rules = write(os.path.join(d, 'r.yaml'), dump(
        {'k': {'any_os': {'pip': {'packages': ['p']}}}}))
    src = dump([{'rules': 'file://' + rules}])
    case = rng.choice(['prefix', 'dir', 'user', 'explicit'])
    base = os.path.join(d, 'base')
    argv = ['--prefix', base]
    if case == 'prefix':
        s = os.path.join(base, 'etc', 'xylem', 'sources.d')
        c = os.path.join(base, 'var', 'cache', 'xylem')
    elif case == 'dir':
        argv += ['--xylem-dir', os.path.join(d, 'local')]
        s = os.path.join(d, 'local', 'sources.d')
        c = os.path.join(d, 'local', 'cache')
    elif case == 'user':
        argv += ['--user-sources', 'yes']
        s = os.path.join(USER_DIR, 'sources.d')
        c = os.path.join(USER_DIR, 'cache')
    else:
        s, c = os.path.join(d, 'my sources'), os.path.join(d, 'my cache')
        argv += ['--sources-dir', s, '--cache-dir', c]
    os.makedirs(s)
    write(os.path.join(s, 'x.yaml'), src)
    r = cli(argv + ['update'])
    chk.check(r.status == 0 and os.path.isdir(c) and os.listdir(c), 'effect',
              'update with %r writes to %r: %r' % (argv, c, r))
    made = []
    for b, ds, fs in os.walk(d):
        made += [os.path.join(b, f) for f in fs]
    stray = [f for f in made if not f.startswith(c + os.sep) and
             f not in (rules, os.path.join(s, 'x.yaml'))]
    chk.equal(stray, [], 'effect', 'files elsewhere after update %r' % argv)
    chk.count('updates')
    import shutil
    shutil.rmtree(s)
    shutil.rmtree(c, ignore_errors=True)


# --- P29 --------------------------------------------------------------

def plain_data(x):
    if isinstance(x, dict):
        return {k: plain_data(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_data(v) for v in x]
    return x


def defaults_of(desc):
    return {n: plain_data(i.default) for n, i in desc.items.items()}


def p29(chk):
    import xylem.config as xc
    import xylem.config_utils as cu
    from xylem.sources import SourcesContext
    rng = chk.rng
    desc = xc.get_config_description()
    defaults = defaults_of(desc)
    for i in chk.loop(500, 12000):
        root = fresh_dir('iso')
        path = os.path.join(root, 'config.yaml')
        p = Places(rng, XYLEM, [path])
        data = {}
        if os.path.exists(path):
            data = yaml.safe_load(open(path, encoding='utf-8')) or {}
        pristine = deepcopy(data)
        argv = ['--xylem-dir', root] + p.argv
        args = xylem_args(argv)
        from xylem.arguments import handle_global_arguments
        handle_global_arguments(args)
        args_before = deepcopy(vars(args))
        configs = {}

        def make(kind):
            if kind == 'default':
                return xc.get_default_config()
            if kind == 'dict':
                return xc.ensure_config(data)
            if kind == 'parsed':
                return cu.config_from_parsed_yaml(data, desc)
            if kind == 'parsed-with-defaults':
                return cu.config_from_parsed_yaml(data, desc,
                                                  use_defaults=True)
            if kind == 'file':
                return cu.config_from_file(path, desc)
            if kind == 'args':
                return cu.config_from_args(args, desc)
            if kind == 'loaded':
                return cu.load_config(args, desc, 'xylem')
            if kind == 'merged':
                a = cu.config_from_args(args, desc)
                b = cu.config_from_parsed_yaml(data, desc)
                c = cu.config_from_defaults(desc)
                before = plain_data([a, b, c])
                m = cu.merge_configs(desc, a, b, c)
                chk.check(same_data(plain_data([a, b, c]), before),
                          'inputs', 'merging changed its inputs')
                configs['in-a'], configs['in-b'], configs['in-c'] = a, b, c
                return m
            if kind == 'with-defaults':
                a = cu.config_from_parsed_yaml(data, desc)
                before = plain_data(a)
                m = cu.merge_with_defaults(desc, a)
                chk.check(same_data(plain_data(a), before), 'inputs',
                          'merging with defaults changed its input')
                configs['in-d'] = a
                return m
            a = xc.ensure_config(data)
            before = plain_data(a)
            if kind == 'coerced':
                m = cu.ceorce_config_dict(
                    a if rng.random() < .5 else cu.copy_to_dict(a),
                    copy=True)
                chk.check(same_data(plain_data(a), before), 'inputs',
                          'copying changed its input')
                chk.check(same_data(plain_data(m), before) and isinstance(
                    m.os_options, cu.ConfigDict), 'copy',
                    'copy %r of %r' % (m, before))
                configs['in-f'] = a
                return m
            m = cu.copy_to_dict(a)
            chk.check(same_data(plain_data(a), before), 'inputs',
                      'copying changed its input')
            chk.check(same_data(plain_data(m), before), 'copy',
                      'copy %r of %r' % (m, before))
            configs['in-e'] = a
            return m
        kinds = ['default', 'dict', 'parsed', 'parsed-with-defaults', 'file',
                 'args', 'loaded', 'merged', 'with-defaults', 'copy',
                 'coerced']
        for k in rng.sample(kinds, rng.randint(2, 6)):
            for n in range(rng.choice([1, 1, 2])):
                o = quiet(make, k)
                if chk.returns(o, 'make', 'making a configuration (%s)' % k,
                               data=data, argv=argv):
                    if n and not k.startswith('in'):
                        chk.check(same_data(plain_data(o.value),
                                            plain_data(configs[k])),
                                  'repeat', lambda: '%s again: %r, %r' % (
                                      k, o.value, configs[k]), data=data)
                    configs[k + ('2' if n else '')] = o.value
        configs['global'] = xc.get_config()
        chk.check(same_data(data, pristine), 'inputs',
                  'the dictionary %r became %r' % (pristine, data))
        chk.check(same_data(vars(args), args_before), 'inputs',
                  'the arguments %r became %r' % (args_before, vars(args)))
        chk.equal(defaults_of(desc), defaults, 'defaults', 'the defaults')
        chk.count('configurations', len(configs))
        for step in range(rng.randint(1, 6)):
            name = rng.choice(sorted(set(configs) - {'global'}))
            cfg = configs[name]
            others = {n: plain_data(c) for n, c in configs.items()
                      if n != name}
            before = plain_data(cfg)
            op = rng.choice(['set', 'attr', 'inplace', 'inplace', 'use',
                             'grow'])
            o = rng.choice(XYLEM)
            value = rng.choice([gen(rng, o.kind), 'changed', None])
            group, _, leaf = o.name.rpartition('/')
            target = cfg[group] if group else cfg
            changed = True
            if op == 'set':
                target[leaf] = value
            elif op == 'attr':
                if not isinstance(target, cu.ConfigDict):
                    target[leaf] = value
                else:
                    setattr(target, leaf, value)
                    chk.check(target[leaf] is value, 'attribute',
                              'setting %s as attribute' % o.name)
                    chk.check(getattr(target, leaf) is value, 'attribute',
                              'getting %s as attribute' % o.name)
            elif op == 'inplace':
                # values that come from the defaults or copies are its own
                kind = name.rstrip('2')
                unset = (p.raw[0].get(o.name) is None and
                         o.name not in p.from_args)
                if not (kind in ('default', 'copy') or unset and kind in (
                        'dict', 'parsed-with-defaults', 'loaded')):
                    continue
                v = target[leaf]
                if isinstance(v, list):
                    v.append('changed')
                elif isinstance(v, dict):
                    v['changed'] = ['x']
                else:
                    continue
                chk.count('changed_in_place')
            elif op == 'grow':
                # converted lists and dictionaries are new ones
                if name.rstrip('2') not in ('dict', 'parsed', 'file', 'args',
                                            'loaded', 'copy',
                                            'parsed-with-defaults'):
                    continue
                v = target[leaf]
                if isinstance(v, list):
                    v.insert(0, 'changed')
                elif isinstance(v, dict):
                    v['changed'] = ['x']
                else:
                    continue
                chk.count('grown')
            else:
                # using a configuration does not change it
                use = rng.choice(['sources', 'ensure', 'print'])
                if use == 'sources':
                    quiet(SourcesContext, config=cfg if isinstance(
                        cfg, cu.ConfigDict) else None)
                elif use == 'ensure' and isinstance(cfg, cu.ConfigDict):
                    r = quiet(xc.ensure_config, cfg)
                    chk.check(r.ok and r.value is cfg, 'ensure',
                              'a configuration is used as it is: %r' % r)
                else:
                    from xylem.yaml_utils import dump_yaml
                    quiet(dump_yaml, cfg)
                chk.check(same_data(plain_data(cfg), before), 'used',
                          'using (%s) changed the configuration' % use,
                          before=before, after=cfg)
                chk.count('used')
            for n, b in others.items():
                chk.check(same_data(plain_data(configs[n]), b), 'isolation',
                          lambda: '%s of %r in %s configuration changed %s '
                          'configuration: %s became %s' % (
                              op, o.name, name, n, short(b),
                              short(plain_data(configs[n]))))
            chk.equal(defaults_of(desc), defaults, 'defaults',
                      'the defaults after %s of %r in %s configuration' % (
                          op, o.name, name))
            chk.check(same_data(data, pristine), 'inputs',
                      'the dictionary %r became %r after %s of %r in %s' % (
                          pristine, data, op, o.name, name))
            chk.count('changes')
        for _ in range(4):
            # values of any type
            t = make_type(rng)
            ty = cu.maybe_instantiate(build_type(cu, t))
            v = value_for(rng, t, .02)
            v0 = deepcopy(v)
            r = observe(ty.from_yaml, v)
            chk.check(same_data(v, v0), 'inputs', lambda: 'converting %r to '
                      '%r changed it to %r' % (v0, t, v))
            if r.ok and t[0] in ('List', 'Dict', 'MergingDict'):
                if isinstance(r.value, list):
                    r.value.append('changed')
                elif isinstance(r.value, dict):
                    r.value['changed'] = 1
                chk.check(same_data(v, v0), 'inputs', lambda: 'changing the '
                          '%r converted from %r changed that to %r' % (
                              t, v0, v))
                chk.count('conversions')
        fresh = quiet(xc.get_default_config)
        if chk.returns(fresh, 'defaults', 'fresh defaults'):
            for o in XYLEM:
                chk.check(same_data(get(fresh.value, o.name), o.default),
                          'defaults', 'fresh default of %s is %r' % (
                              o.name, get(fresh.value, o.name)))
        chk.case((argv, pristine, sorted(configs)),
                 sample=sorted(configs), nontrivial=len(configs) > 2)
