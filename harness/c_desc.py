"""P47: descriptions of options."""
import argparse

import yaml

from common import quiet, same_data
from rules_common import dump

NAMES = ['a', 'b', 'b_c', 'b-c', 'g', 'h_i', 'long_name', 'x1', 'Up', 'é']
GROUPS = ['g', 'h_i', 'a', 'b', 'new', 'x1']
TYPES = ['Any', 'String', 'Boolean', 'List', 'MergingDict', 'Dict']
VALUES = {
    'Any': [1, 'text', [1, {'x': None}], {'k': 2.5}, True],
    'String': ['text', 'a b', '1', 'ünï', 'x: y'],
    'Boolean': [True, False],
    'List': [['a'], ['b', 'c d'], []],
    'MergingDict': [{'k': 1}, {'l': [2]}, {}],
    'Dict': [{'k': 1}, {'m': {'n': 2}}],
}


class Item(object):

    def __init__(self, rng, names, arguments):
        r = rng.random()
        if r < .2 and names:
            self.name = rng.choice(names)       # again
        elif r < .6:
            self.name = rng.choice(NAMES)
        else:
            self.name = '%s/%s' % (rng.choice(GROUPS), rng.choice(NAMES))
        self.type = rng.choice(TYPES)
        self.default = rng.choice(VALUES[self.type]) \
            if rng.random() < .6 else None
        self.kw = {}
        self.help = 'helps ' + self.name if rng.random() < .8 else None
        self.argument = None
        r = rng.random()
        if r < .35:
            self.kw['command_line'] = True
            self.argument = self.dashed()
        elif r < .65:
            a = rng.choice(arguments) if arguments and rng.random() < .35 \
                else rng.choice(['opt', 'other-opt', 'b-c', 'g-a', 'third',
                                 'an_opt', 'Opt', 'UP', 'x.y', 'o'])
            self.kw['command_line_argument'] = rng.choice(['', '--']) + a
            self.argument = a
            if rng.random() < .2:
                self.kw['command_line'] = False
                self.argument = None
        elif r < .75:
            self.kw['command_line_metavar'] = 'META'
            self.argument = self.dashed()
        elif r < .85:
            self.kw['command_line'] = False

    def dashed(self):
        return self.name.replace('_', '-').replace('/', '-')

    def unset(self):
        return {'MergingDict': {}}.get(self.type)

    def usual(self):
        """Without any setting."""
        return self.unset() if self.default is None else self.default

    def add(self, description):
        import xylem.config_utils as cu
        t = getattr(cu, self.type)
        description.add(self.name, help=self.help,
                        type=t(cu.Any) if self.type == 'List' else t,
                        default=self.default, **self.kw)

    def __repr__(self):
        return '%s (%s, %r, default %r)' % (self.name, self.type, self.kw,
                                            self.default)


def place(config, name, value):
    if '/' in name:
        g, n = name.split('/')
        config.setdefault(g, {})[n] = value
    else:
        config[name] = value


def plain_data(x):
    return {k: plain_data(v) for k, v in x.items()} \
        if isinstance(x, dict) else x


def conflict(items, new):
    """Why the new one must be refused."""
    names = {i.name for i in items}
    groups = {i.name.split('/')[0] for i in items if '/' in i.name}
    if new.name in names:
        return 'name'
    if new.name in groups:
        return 'group of that name'
    if '/' in new.name and new.name.split('/')[0] in names:
        return 'name of the group'
    if new.argument and new.argument in {i.argument for i in items}:
        return 'argument'


def p47(chk):
    from xylem.config_utils import split_group
    for i in chk.loop(150, 6000):
        one(chk, chk.rng)
        parts = [chk.rng.choice(NAMES) for _ in range(chk.rng.randint(2, 4))]
        chk.equal(tuple(split_group('/'.join(parts))),
                  ('/'.join(parts[:-1]), parts[-1]), 'group',
                  'group and name in %r' % '/'.join(parts))


def one(chk, rng):
    from xylem.config_utils import ConfigDescription, ConfigDescriptionError
    d = ConfigDescription('x.yaml')
    items, said = [], []
    for step in range(rng.randint(3, 14)):
        new = Item(rng, [i.name for i in items],
                   [i.argument for i in items if i.argument])
        why = conflict(items, new)
        said.append(new)
        wit = dict(added=said)
        o = quiet(new.add, d)
        if why:
            chk.raises(o, ConfigDescriptionError, 'refuse',
                       'adding %r (%s)' % (new, why), **wit)
            chk.count('refused_' + why.split(' ')[0])
        else:
            chk.returns(o, 'accept', 'adding %r' % new, **wit)
            items.append(new)
            chk.count('accepted')
        if why or rng.random() < .4:
            effect(chk, rng, d, items, said)
        chk.case((step, [repr(s) for s in said]), sample=repr(new),
                 nontrivial=bool(why))


def effect(chk, rng, d, items, said):
    """What configurations look like."""
    from xylem.config_utils import (
        ConfigHelpFormatter, config_from_args, config_from_defaults,
        config_from_parsed_yaml, merge_configs, merge_with_defaults)
    wit = dict(added=said)
    want = {}
    for i in items:
        place(want, i.name, i.usual())
    o = quiet(config_from_defaults, d)
    if chk.returns(o, 'defaults', 'defaults', **wit):
        chk.check(same_data(plain_data(o.value), want), 'defaults',
                  'defaults: %r, expected %r' % (o.value, want), **wit)
    # some set in a file, some on the command line
    data, argv, on_file, on_line = {}, [], {}, {}
    for i in items:
        if rng.random() < .4:
            on_file[i.name] = v = rng.choice(VALUES[i.type])
            place(data, i.name, v)
        if i.argument and rng.random() < .4:
            on_line[i.name] = v = rng.choice(VALUES[i.type])
            text = v if i.type == 'String' else yaml.safe_dump(
                v, default_flow_style=True).replace('\n...', '').strip()
            argv.append('--%s=%s' % (i.argument, text))
    if rng.random() < .3:
        data['unknown_entry'] = 7
    rng.shuffle(argv)
    parser = argparse.ArgumentParser(prog='t', add_help=False,
                                     formatter_class=ConfigHelpFormatter)
    o = quiet(d.add_arguments, parser)
    if not chk.returns(o, 'arguments', 'adding arguments', **wit):
        return
    known = sorted(s for a in parser._actions for s in a.option_strings)
    chk.equal(known, sorted('--' + i.argument for i in items if i.argument),
              'arguments', 'arguments of the parser', **wit)
    o = quiet(parser.format_help)
    if chk.returns(o, 'help', 'help', **wit):
        for i in items:
            if i.argument:
                chk.check('--' + i.argument in o.value and (i.help or '')
                          in ' '.join(o.value.split()), 'help', '%r is not '
                          'in the help: %s' % (i, o.value), **wit)
    args = quiet(parser.parse_args, argv)
    if not chk.returns(args, 'arguments', 'parsing %r' % argv, **wit):
        return
    o = quiet(lambda: merge_configs(
        d, config_from_args(args.value, d), config_from_parsed_yaml(data, d),
        config_from_defaults(d)))
    if not chk.returns(o, 'settings', '%r with %r' % (data, argv), **wit):
        return
    want = {}
    for i in items:
        v = [x[i.name] for x in (on_line, on_file) if i.name in x]
        if i.type == 'MergingDict':
            m = {}
            for part in v + [i.usual()]:
                for k, x in part.items():
                    m.setdefault(k, x)
            place(want, i.name, m)
        else:
            place(want, i.name, v[0] if v else i.usual())
    chk.check(same_data(plain_data(o.value), want), 'settings', '%r with %r '
              'gives %r, expected %r' % (data, argv, o.value, want), **wit)
    if not argv:
        o = quiet(lambda: merge_with_defaults(
            d, config_from_parsed_yaml(data, d)))
        chk.check(o.ok and same_data(plain_data(o.value), want), 'settings',
                  '%r gives %r, expected %r' % (data, o, want), **wit)
    chk.count('configurations')
    chk.count('set_values', len(on_file) + len(on_line))
