"""P49: unexpected errors and the debugger."""
import errno
import os
import pdb
import pty
import re
import select
import subprocess
import sys
import threading
import time
import traceback
from unittest import mock

from common import REPO, fresh_dir, observe, write
from stubs import plain

PY = sys.executable

COMMAND = '''
import sys
from xylem.exception import (XylemError, XylemInternalError, raise_from,
                             chain_exception)

ERRORS = dict(value=ValueError, key=KeyError, lookup=LookupError,
              assertion=AssertionError, memory=MemoryError, type=TypeError,
              stop=StopIteration, xylem=XylemError,
              internal=XylemInternalError, os=OSError,
              recursion=RecursionError, interrupt=KeyboardInterrupt,
              eof=EOFError, exit=SystemExit)


def build(kinds, words):
    if len(kinds) > 1:
        try:
            build(kinds[:-1], words[:-1])
        except Exception as e:
            raise_from(ERRORS[kinds[-1]], '-'.join(('word', words[-1])), e)
    if kinds[0] == 'exit':
        sys.exit(int(words[0]))
    raise ERRORS[kinds[0]]('-'.join(('word', words[0])))


def prepare_arguments(parser):
    parser.add_argument('kinds')
    parser.add_argument('words')


def prepare_config(config):
    pass


def main(args=None):
    print('printed before')
    build(args.kinds.split(','), args.words.split(','))


definition = dict(title='fail', description='fails', main=main,
                  prepare_arguments=prepare_arguments,
                  prepare_config=prepare_config)
'''

TOOL = '''#!%s -W ignore
import sys
sys.path.insert(0, %r)
sys.path.append(%r)
%s
from xylem.commands.main import main
if __name__ == '__main__':
    main()
'''

LIBRARY = '''
import sys
sys.path.insert(0, %r)
before = sys.excepthook, sys.displayhook
import xylem.commands.main, xylem.config, xylem.install, xylem.lookup
import xylem.update, xylem.log_utils, xylem.util, xylem.os_support
if (sys.excepthook, sys.displayhook) != before:
    print('hooks changed')
def cause():
    {1: 2}['-'.join(('word', sys.argv[1]))]
try:
    cause()
except KeyError as e:
    raise ValueError('-'.join(('word', sys.argv[2]))) from e
'''

HANDLED = ('xylem', 'internal', 'os', 'interrupt', 'eof', 'exit')
UNEXPECTED = ('value', 'key', 'lookup', 'assertion', 'memory', 'type',
              'stop', 'recursion')


def p49(chk):
    rng = chk.rng
    top = fresh_dir('unexpected')
    dist = os.path.join(top, 'dist')
    info = os.path.join(dist, 'xvfail-1.0.dist-info')
    os.makedirs(info)
    write(os.path.join(info, 'METADATA'),
          'Metadata-Version: 2.1\nName: xvfail\nVersion: 1.0\n')
    write(os.path.join(info, 'RECORD'), '')
    write(os.path.join(info, 'entry_points.txt'),
          '[xylem.commands]\nfail = xvfailing:definition\n')
    write(os.path.join(dist, 'xvfailing.py'), COMMAND)
    for i in chk.loop(24, 900):
        if i % 8 == 7:
            library(chk, rng, top)
        else:
            tool(chk, rng, top, dist)
        for _ in range(40):
            handler(chk, rng)


# --- the handler itself -----------------------------------------------

class Stream(object):
    """A stream that may claim to be a terminal."""

    encoding = 'utf-8'

    def __init__(self, tty):
        self.tty, self.text = tty, ''

    def isatty(self):
        return self.tty

    def write(self, text):
        self.text += text
        return len(text)

    def flush(self):
        pass


class Own(Exception):

    def __init__(self, text, code=3):
        Exception.__init__(self, text)
        self.code = code


def raised(rng, kinds, words):
    """A raised error with causes; the message is made at run time."""
    from xylem.exception import raise_from
    text = '-'.join(('word', words[-1]))
    if rng.random() < .2:
        text += rng.choice(['\nand another line', ' käse 日本', ' @{redf}x',
                            ' "quoted" <tag> %s'])
    try:
        try:
            if len(kinds) > 1:
                raise raised(rng, kinds[:-1], words[:-1])
        except Exception as e:
            if rng.random() < .5:
                raise_from(kinds[-1], text, e)
            raise kinds[-1](text) from e
        raise kinds[-1](text)
    except Exception as e:
        return e


def parts(exc):
    """The errors of the chain as Python itself shows them."""
    res = []
    while exc is not None:
        res.insert(0, ''.join(traceback.format_exception(
            type(exc), exc, exc.__traceback__, chain=False)).rstrip())
        exc = exc.__cause__
    return res


def handler(chk, rng):
    from xylem import util, terminal_color
    from xylem.exception import XylemError
    n = rng.choice([1, 1, 2, 3])
    kinds = [rng.choice([ValueError, KeyError, RuntimeError, Own, XylemError,
                         OSError, AttributeError]) for _ in range(n)]
    words = ['w%dx%d' % (rng.randrange(10 ** 6), k) for k in range(n)]
    exc = raised(rng, kinds, words)
    out, err = Stream(rng.random() < .6), Stream(rng.random() < .7)
    wanted, asked = rng.random() < .6, rng.random() < .2
    colours, pygments = rng.random() < .5, rng.random() < .7
    started = []

    def debugger(*args, **kw):
        started.append(err.text)
    patches = [mock.patch('pdb.' + x, debugger)
               for x in ('set_trace', 'post_mortem', 'pm', 'Pdb.set_trace',
                         'Pdb.interaction')]
    # wherever they were imported to
    patches += [mock.patch.object(m, n, debugger)
                for m in (util, sys.modules.get('xylem.exception'))
                for n, v in vars(m).items()
                if any(v is f for f in (pdb.set_trace, pdb.post_mortem,
                                        pdb.pm))]
    if asked:
        patches.append(mock.patch.object(sys, 'ps1', '>>> ', create=True))
    if not pygments:
        patches.append(mock.patch.dict(sys.modules, {
            'pygments': None, 'pygments.lexers': None,
            'pygments.formatters': None}))
    before = util.pdb_enabled()
    terminal_color.disable_ANSI_colors()
    if colours:
        terminal_color.enable_ANSI_colors()
    for p in patches:
        p.start()
    was = sys.stdout, sys.stderr
    try:
        util.enable_pdb(wanted)
        on = util.pdb_enabled()
        sys.stdout, sys.stderr = out, err
        o = observe(util.custom_exception_handler, type(exc), exc,
                    exc.__traceback__)
    finally:
        sys.stdout, sys.stderr = was
        util.enable_pdb(before)
        for p in reversed(patches):
            p.stop()
        terminal_color.enable_ANSI_colors()
    what = 'kinds %r, terminal %r, debugger %r, interactive %r, colours ' \
        '%r, pygments %r' % ([k.__name__ for k in kinds], err.tty, wanted,
                             asked, colours, pygments)
    if not chk.returns(o, 'handler', 'showing an error (%s)' % what):
        return
    chk.equal(bool(on), wanted, 'asked', 'whether the debugger was asked for')
    chk.equal(out.text, '', 'stream', 'on standard output (%s)' % what)
    text, at = plain(err.text), 0
    for p, w in zip(parts(exc), words):
        k = text.find(p, at)
        if not chk.check(k >= 0, 'complete', lambda: 'not shown, or not in '
                         'order (%s): %r' % (what, p), shown=text):
            break
        at = k + len(p)
    else:
        chk.equal(text[at:].strip(), '', 'complete', 'text after the error')
        chk.equal(len(re.findall('(?m)^Traceback', text)), n, 'complete',
                  'tracebacks (%s)' % what)
    chk.check(colours or '\x1b' not in err.text, 'colours',
              'escape sequences without colours (%s)' % what)
    want = wanted and err.tty and not asked
    chk.equal(len(started), int(want), 'debugger',
              'debuggers started (%s)' % what)
    if started:
        chk.equal(started[0], err.text, 'debugger', 'shown before the '
                  'debugger starts')
        chk.count('started')
    chk.count('handled')
    chk.count('handled_coloured', colours)
    chk.count('handled_chained', n > 1)


# --- processes --------------------------------------------------------

def process(argv, env, terminal, typed):
    """Run a program with some of its streams at a terminal.

    Returns (status, stdout, stderr); those at a terminal come as one
    text in each of them.
    """
    if not terminal:
        p = subprocess.run(argv, env=env, input=typed.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    master, slave = pty.openpty()
    try:
        p = subprocess.Popen(
            argv, env=env, stdin=subprocess.PIPE,
            stdout=slave if 'out' in terminal else subprocess.PIPE,
            stderr=slave if 'err' in terminal else subprocess.PIPE)
        os.close(slave)
        slave = None
        got = {'tty': b'', 'out': b'', 'err': b''}
        p.stdin.write(typed.encode())
        p.stdin.close()
        fds = {master: 'tty'}
        for name, f in (('out', p.stdout), ('err', p.stderr)):
            if f is not None:
                fds[f.fileno()] = name
        end = time.time() + 120
        while fds and time.time() < end:
            for fd in select.select(list(fds), [], [], 1)[0]:
                try:
                    data = os.read(fd, 65536)
                except OSError as e:
                    if e.errno != errno.EIO:
                        raise
                    data = b''
                if data:
                    got[fds[fd]] += data
                else:
                    del fds[fd]
        p.wait(10)
        tty = got['tty'].replace(b'\r\n', b'\n')
        return (p.returncode,
                (tty if 'out' in terminal else got['out']).decode(),
                (tty if 'err' in terminal else got['err']).decode())
    finally:
        os.close(master)
        if slave is not None:
            os.close(slave)
        if p.poll() is None:
            p.kill()
            p.wait()
        for f in (p.stdout, p.stderr):
            if f is not None:
                f.close()


def environment(**kw):
    e = dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONUTF8='1',
             PYTHONWARNINGS='ignore', **kw)
    for k in ('LD_PRELOAD', 'XYLEM_DEBUG', 'XYLEM_PDB', 'PYTHONBREAKPOINT'):
        if k not in kw:
            e.pop(k, None)
    return e


def tool(chk, rng, top, dist):
    """Failing commands of the tool."""
    n = rng.choice([1, 1, 2, 3])
    final = rng.choice(UNEXPECTED + UNEXPECTED + HANDLED)
    if final in ('exit', 'interrupt', 'eof'):
        n = 1
    kinds = [rng.choice(UNEXPECTED + ('xylem', 'os'))
             for _ in range(n - 1)] + [final]
    words = [''.join(rng.choice('bcdfghjklmnp') for _ in range(9))
             for _ in range(n)]
    status = 1
    if final == 'exit':
        status = rng.choice([0, 3, 77])
        words = [str(status)]
    # where the program is and how it is called
    d = fresh_dir('bin')
    name = os.path.join(d, 'xylem')
    write(name, TOOL % (PY, REPO, dist, ''))
    os.chmod(name, 0o755)
    if rng.random() < .3:
        link = os.path.join(d, rng.choice(['xy', 'xylem-tool', 'X']))
        os.symlink(name, link)
        name = link
    asked = rng.choice([None, None, 'option', 'option', 'variable'])
    terminal = rng.choice([(), (), ('err',), ('out', 'err'), ('out', 'err'),
                           ('out',)])
    options = []
    colours = True
    if asked == 'option':
        options.append('--pdb')
    if rng.random() < .4:
        options.append('--no-color')
        colours = False
    debug = rng.random() < .25
    if debug:
        options.append(rng.choice(['-d', '--debug']))
    before = [x for x in options if rng.random() < .5]
    after = [x for x in options if x not in before]
    x = os.path.join(d, 'x')
    argv = [name, '--prefix', os.path.join(d, 'p'), '--xylem-dir', x] + \
        before + ['fail'] + after + [','.join(kinds), ','.join(words)]
    env = environment(**({'XYLEM_PDB': '1'} if asked == 'variable' else {}))
    o = observe(process, [PY, '-W', 'ignore'] + argv, env, terminal,
                'c\n' * 3)
    what = '%r, debugger by %s, terminal %r' % (argv[1:], asked, terminal)
    if not chk.returns(o, 'process', 'running ' + what):
        return
    got, out, err = o.value
    text = plain(err)
    wit = dict(out=out[-1500:], err=err[-3000:])
    chk.equal(got, status, 'status', 'exit status of ' + what, **wit)
    chk.check('printed before' in plain(out), 'output', 'output of ' + what,
              **wit)
    start = asked and 'err' in terminal and final in UNEXPECTED
    chk.equal('(Pdb)' in out + err, bool(start), 'debugger',
              'whether a debugger was started by ' + what, **wit)
    chk.check(colours or '\x1b' not in out + err, 'colours',
              'escape sequences shown by ' + what, **wit)
    # without what was typed in the debugger
    shown = text.split('(Pdb)')[0]
    if final in UNEXPECTED + ('xylem', 'os', 'internal'):
        at = 0
        for w in words:
            chk.equal(len(re.findall('word-' + w, shown)), 1, 'complete',
                      'times the message of an error is shown by ' + what,
                      **wit)
            k = shown.find(w, at)
            chk.check(k >= 0, 'complete', 'messages in wrong order: ' + what,
                      **wit)
            at = max(at, k)
        tracebacks = n if final in UNEXPECTED + ('internal',) or debug else 0
        chk.equal(len(re.findall('(?m)^Traceback', shown)), tracebacks,
                  'complete', 'tracebacks shown by ' + what, **wit)
        if 'out' not in terminal:
            for w in words:
                chk.check('word-' + w not in out, 'stream',
                          'error on standard output: ' + what, **wit)
    else:
        chk.check('Traceback' not in shown, 'complete',
                  'traceback shown by ' + what, **wit)
    chk.count('processes')
    chk.count('process_started', bool(start))
    chk.count('process_not_started', bool(asked) and not start)
    chk.count('process_unexpected', final in UNEXPECTED)
    chk.count('process_terminal', bool(terminal))
    chk.case((kinds, argv[5:], asked, terminal), sample=argv,
             nontrivial=final in UNEXPECTED)


def library(chk, rng, top):
    """Other programs that import xylem."""
    d = fresh_dir('other')
    name = os.path.join(d, rng.choice(['other', 'xylem.py', 'run.py',
                                       'xylem-like', 'lookup', 'myxylem']))
    write(name, LIBRARY % REPO)
    if rng.random() < .3:
        # only the name of the program itself counts
        write(os.path.join(d, 'real'), LIBRARY % REPO)
        os.remove(name)
        name = os.path.join(d, 'xylem')
        os.symlink(os.path.join(d, 'real'), name)
    words = [''.join(rng.choice('bcdfghjklmnp') for _ in range(9))
             for _ in range(2)]
    env = environment(XYLEM_PDB='1')
    terminal = rng.choice([(), ('err',)])
    o = observe(process, [PY, '-W', 'ignore', name] + words, env, terminal,
                'c\n' * 3)
    if not chk.returns(o, 'process', 'running %s' % name):
        return
    got, out, err = o.value
    wit = dict(name=name, out=out[-500:], err=err[-2000:])
    chk.equal((got, out), (1, ''), 'library', 'status and output of a '
              'program that imports xylem', **wit)
    # what Python itself shows
    p = [err.find(x) for x in (
        "KeyError: 'word-" + words[0],
        'The above exception was the direct cause of the following '
        'exception:', 'ValueError: word-' + words[1])]
    chk.check(-1 not in p and p == sorted(p) and '\x1b' not in err and
              '(Pdb)' not in err + out, 'library', 'error of a program that '
              'imports xylem is shown as %r' % err, **wit)
    chk.count('libraries')
