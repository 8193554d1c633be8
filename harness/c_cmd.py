"""P42: commands of other distributions."""
import os
import sys
import types

import yaml

import faults
from common import fresh_dir, observe, same_data, tree, write
from plugdist import add_dist, remove_dist
from rules_common import Env, cli
from stubs import plain

BUILTIN = ['install', 'lookup', 'resolve', 'update', '_compact_rules_file']
DEFECTS = ['import', 'syntax', 'raises', 'nomodule', 'noattr', 'notdict',
           'title', 'description', 'main', 'prepare_arguments',
           'prepare_config']
NAMES = ['frob', 'check-it', 'check_it', '_hidden', 'zap', 'a', 'list_keys', 'Upper',
         'lookup2', 'in', '_up', 'resolver']
ENDS = ['none', 'none', 'zero', 'status', 'xylem', 'chained', 'os', 'key',
        'exit', 'interrupt', 'eof', 'internal']


class Command(object):
    """A random command and what running it must give."""

    def __init__(self, rng, name, serial, events):
        from xylem.exception import (XylemError, XylemInternalError,
                                     raise_from)
        from xylem.config import get_config
        from xylem.config_utils import String
        self.name, self.modname = name, 'xvcmd%d' % serial
        self.defect = rng.choice(DEFECTS) if rng.random() < .3 else None
        self.flag = '--flag-%d' % serial
        self.positional = rng.random() < .5
        self.returns_parser = rng.random() < .5
        self.description = rng.choice([
            'Makes what number %d is for' % serial] * 5 + [''])
        self.end = rng.choice(ENDS)
        self.status = rng.randint(1, 120)
        self.item = 'xv_item_%d' % serial if rng.random() < .4 else None
        self.on_command_line = rng.random() < .5
        self.serial = serial

        def prepare_arguments(parser):
            parser.add_argument(self.flag, dest='flag', default='unset',
                                help='flag of %d' % serial)
            if self.positional:
                parser.add_argument('words', nargs='*')
            if self.returns_parser:
                return parser

        def prepare_config(description):
            if self.item:
                description.add(self.item, type=String, default='usual',
                                command_line=self.on_command_line,
                                help='item of %d' % serial)

        def main(args=None):
            events.append((serial, args.flag, getattr(args, 'words', None),
                           get_config().cache_dir, dict(
                               get_config()).get(self.item)))
            print('output of %d' % serial)
            if self.end == 'zero':
                return 0
            if self.end == 'status':
                return self.status
            if self.end == 'xylem':
                raise XylemError('message %d' % serial)
            if self.end == 'internal':
                raise XylemInternalError('message %d' % serial)
            if self.end == 'chained':
                try:
                    raise ValueError('cause %d' % serial)
                except ValueError as e:
                    raise_from(XylemError, 'message %d' % serial, e)
            if self.end == 'os':
                raise OSError('message %d' % serial)
            if self.end == 'key':
                raise KeyError('message %d' % serial)
            if self.end == 'exit':
                sys.exit(self.status)
            if self.end == 'interrupt':
                raise KeyboardInterrupt
            if self.end == 'eof':
                raise EOFError
        d = dict(title=name, description=self.description, main=main,
                 prepare_arguments=prepare_arguments,
                 prepare_config=prepare_config)
        self.module = m = types.ModuleType(self.modname)
        if self.defect == 'import':
            self.module = 'import nosuchmodule_%d\n' % serial
        elif self.defect == 'syntax':
            self.module = 'def (:\n'
        elif self.defect == 'raises':
            self.module = rng.choice(['1 / 0\n', 'raise OSError("no")\n',
                                      'raise RuntimeError\n'])
        elif self.defect == 'nomodule':
            self.module = None
        elif self.defect == 'notdict':
            m.definition = rng.choice([None, 3, [d], 'text', main])
        elif self.defect != 'noattr':
            if self.defect:
                del d[self.defect]
            m.definition = d


def world(rng, serial, events):
    """Random distributions with commands; (dists, commands in order)."""
    dists, commands = [], []
    for n in range(rng.randint(1, 3)):
        entries, modules = [], {}
        for _ in range(rng.randint(0, 3)):
            serial[0] += 1
            taken = [e[0] for e in entries]
            name = rng.choice([x for x in NAMES * 4 + BUILTIN
                               if x not in taken])
            c = Command(rng, name, serial[0], events)
            entries.append((name, c.modname + ':definition'))
            if c.module is not None:
                modules[c.modname] = c.module
            commands.append(c)
        name = 'xvcmds%d' % n
        dists.append((add_dist(name, {'xylem.commands': entries}, modules),
                      name, modules))
    return dists, commands


def p42(chk):
    rng = chk.rng
    serial = [0]
    env = Env('cmds')
    env.write_rules('r.yaml', {'key': {'ubuntu': ['pkg']}})
    env.write_sources('s.yaml', [env.url('r.yaml')])
    env.updated()
    xdir = os.path.join(env.root, 'x')
    os.makedirs(xdir)
    base = ['--sources-dir', env.sources, '--os', 'ubuntu:trusty',
            '--xylem-dir', xdir]

    def run(argv, events):
        def child():
            r = cli(argv)
            return (r.status, plain(r.out), plain(r.err),
                    type(r.exc).__name__ if r.exc else None, events)
        return faults.run(child)
    for i in chk.loop(130, 4000):
        events = []
        dists, commands = world(rng, serial, events)
        try:
            one_world(chk, run, env, base, xdir, commands, events)
        finally:
            for d, name, modules in dists:
                remove_dist(d, name)
                for m in modules:
                    sys.modules.pop(m, None)


def one_world(chk, run, env, base, xdir, commands, events):
    rng = chk.rng
    first = {}
    for c in commands:
        if c.name not in BUILTIN:
            first.setdefault(c.name, c)
    good = [c for c in first.values() if c.defect is None]
    bad = [c for c in first.values() if c.defect is not None]
    kinds = [(c.name, c.defect) for c in commands]
    in_file = {c.item: 'file %d' % c.serial for c in good
               if c.item and rng.random() < .4}
    write(os.path.join(xdir, 'config.yaml'), yaml.safe_dump(in_file))

    def reported(err, what):
        for c in bad:
            chk.check(repr(c.name) in err.replace("u'", "'") and
                      c.modname in err, 'not-reported', '%s: command %s (%s)'
                      ' is not reported: %r' % (what, c.name, c.defect, err),
                      kinds=kinds)
    wit = dict(kinds=kinds, good=[c.name for c in good])
    # the built-in commands as ever
    r = run(base + ['--cache-dir', env.cache, 'resolve', 'key'], events)
    if chk.check(r.status == 'ok', 'lost', '%r' % r, **wit):
        status, out, err, exc, _ = r.value
        chk.check(status == 0 and exc is None and 'key --> pkg' in out and
                  'Traceback' not in err, 'builtin', 'resolve among other '
                  'commands: %r' % (r.value,), **wit)
        reported(err, 'resolve')
        chk.count('builtin')
    # each good command
    for c in good:
        cache = os.path.join(env.root, rng.choice(['cache', 'c1', 'c2']))
        before, after = [], []
        rng.choice([before, after]).extend(['--cache-dir', cache])
        flag, words = 'unset', []
        if rng.random() < .6:
            flag = rng.choice(['v1', 'x y', 'käse', '--', '']) or 'v2'
            flag = 'v3' if flag == '--' else flag
            after = rng.choice([[c.flag, flag] + after,
                                after + [c.flag + '=' + flag]])
        value = in_file.get(c.item, 'usual') if c.item else None
        if c.item and c.on_command_line and rng.random() < .6:
            value = 'given %d' % c.serial
            after += ['--' + c.item.replace('_', '-'), value]
        if c.positional and rng.random() < .6:
            words = ['w%d' % n for n in range(rng.randint(1, 3))]
            after = rng.choice([words + after, after + words])
        argv = base + before + [c.name] + after
        r = run(argv, events)
        if not chk.check(r.status == 'ok', 'lost', '%r: %r' % (argv, r),
                         **wit):
            continue
        status, out, err, exc, got = r.value
        want = [(c.serial, flag, words if c.positional else None, cache,
                 value)]
        chk.equal(got, want, 'run', 'calls of commands by %r' % argv,
                  result=r.value[:4], **wit)
        chk.check('output of %d' % c.serial in out, 'run',
                  'output of %r: %r' % (argv, r.value), **wit)
        want = {'none': 0, 'zero': 0, 'status': c.status,
                'exit': c.status}.get(c.end, 1)
        chk.equal(status, want, 'status', 'exit status of %r, a command '
                  'that ends with %s' % (argv, c.end), result=r.value[:4],
                  **wit)
        message = 'message %d' % c.serial
        if c.end in ('xylem', 'chained', 'os', 'internal'):
            chk.check(message in err and exc is None, 'message', '%r, a '
                      'command that ends with %s, shows %r' % (
                          argv, c.end, err), **wit)
            chk.equal('Traceback' in err, c.end == 'internal', 'message',
                      'traceback shown by %r' % argv, err=err)
            if c.end == 'chained':
                chk.check('cause %d' % c.serial in err, 'message',
                          'cause not shown by %r: %r' % (argv, err))
        elif c.end == 'key':
            chk.equal(exc, 'KeyError', 'message', 'unexpected error of %r'
                      % argv, **wit)
        else:
            chk.equal(exc, None, 'message', 'exception of %r' % argv, **wit)
            chk.check('Traceback' not in err, 'message', '%r shows %r' % (
                argv, err))
        reported(err, c.name)
        chk.count('runs')
        chk.count('end_' + c.end)
        chk.case((c.name, c.end, tuple(kinds), flag, words, value),
                 sample=argv, nontrivial=bool(bad))
    # bad ones are no commands
    for c in bad:
        r = run(base + [c.name], events)
        if chk.check(r.status == 'ok', 'lost', '%r' % r, **wit):
            status, out, err, exc, got = r.value
            chk.check(status == 2 and exc is None and not got, 'bad-run',
                      'running the invalid command %s: %r' % (
                          c.name, r.value), **wit)
            reported(err, 'running ' + c.name)
            chk.count('invalid')
    # duplicates of built-in commands
    for c in commands:
        if c.name in BUILTIN:
            chk.count('shadowed')
        elif first[c.name] is not c:
            chk.count('duplicates')
    # arguments that are given are used instead of those of the process
    if rng.random() < .2:
        saved, sys.argv = sys.argv, ['xylem', rng.choice(['--version', '-h'])]
        try:
            r = run([], events)
        finally:
            sys.argv = saved
        if chk.check(r.status == 'ok', 'lost', '%r' % r, **wit):
            chk.check(r.value[0] == 2 and not r.value[1], 'no-arguments',
                      'without arguments: %r' % (r.value,))
            chk.count('without_arguments')
    # help
    c = rng.choice([None] + good)
    argv = ['-h'] if c is None else [c.name, '--help']
    r = run(argv, events)
    if chk.check(r.status == 'ok', 'lost', '%r: %r' % (argv, r), **wit):
        status, out, err, exc, got = r.value
        chk.check(status == 0 and exc is None and not got, 'help',
                  '%r: %r' % (argv, r.value), **wit)
        if c is None:
            flat = ''.join(out.split())
            text = flat[flat.rindex('commands:'):] if \
                'commands:' in flat else flat
            listed = text[text.find('[') + 1:text.find(']')].split('|')
            chk.equal(sorted(listed), sorted(
                [n for n in BUILTIN if n[0] != '_'] +
                [g.name for g in good if g.name[0] != '_']), 'help',
                'commands listed by help', out=out[-900:], **wit)
        else:
            for part in [c.description, c.flag, 'flag of %d' % c.serial]:
                chk.check(part in out, 'help', '%r is missing in the help '
                          'of %s: %r' % (part, c.name, out), **wit)
        chk.count('helps')
