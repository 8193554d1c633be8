"""P50: output streams, character sets and locales."""
import json
import os
import re
import shutil
import subprocess

import yaml

from common import HARNESS, PY, REPO, fresh_dir, same_data, short, write
from stubs import Machine, STYLES

INST = ['aptx', 'instä', 'уст', 'b2', 'ö']
KEYS = ['k1', 'käse', 'ключ', 'k_2', '日本', 'z9']
PACKAGES = ['p1', 'größe', 'пакет', 'p€', 'naïve-x', '日本', 'q+', 'ﬁ', '𝔵',
            'a-package-with-a-long-name' * 3]
TEXTS = ['größe', '日本語', 'ключ', '€', '😀', 'plain', 'ÿ']
CODES = ['ascii', 'ascii', 'latin-1', 'cp1252', 'koi8-r', 'euc-jp', 'cp437',
         'iso8859-15', 'utf-8']


class World(object):

    def __init__(self, rng, narrow):
        self.rng, self.narrow = rng, narrow
        self.root = fresh_dir('enc')
        self.dir = os.path.join(self.root, 'etc' if narrow else rng.choice(
            ['etc', 'größe', 'мой каталог']))
        self.installers = [
            [n, rng.random() < .3, rng.choice(STYLES)] for n in rng.sample(
                INST[::3] + ['c', 'dd'] if narrow else INST, 3)]
        self.keys = ['k1', 'k_2', 'z9', 'b', 'x.y'] if narrow else KEYS
        self.packages = ['p1', 'q+', 'r-2', 's', 't', PACKAGES[-1]] if narrow \
            else PACKAGES
        self.files, self.defined = {}, set()
        n = rng.randint(1, 3)
        names = ['r%d.yaml' % i for i in range(n)]
        for f in names:
            text = self.yaml(self.rules())
            r = rng.random()
            if r < .1:
                text = rng.choice(['größe: [1\n', '[ключ, 2\n', '日本: 3\n',
                                   '"日 本": {any_os: {apt: [x]}}\n',
                                   '{a: {any_os: {ö: {packages: ü}}}}\n'])
            elif r < .15:
                continue
            self.files['rules/' + f] = text
        urls = [{'rules': 'file://%s/rules/%s' % (self.root, f)}
                for f in names]
        k = rng.randint(0, n)
        odd = '20.yaml' if narrow else rng.choice(['20.yaml', '2ö.yaml'])
        base = os.path.basename(self.dir)
        for f, us in (('10.yaml', urls[:k]), (odd, urls[k:])):
            self.files['%s/sources.d/%s' % (base, f)] = self.yaml(us)
        if rng.random() < .1:
            self.files['%s/sources.d/30.yaml' % base] = '# größe\n- [ключ\n'
        config = {'os_override': 'ubuntu:trusty',
                  'core_installers': [i[0] for i in self.installers[:2]]}
        if rng.random() < .3:
            config['install_from'] = {rng.choice(self.installers)[0]:
                                      rng.sample(self.keys, 2)}
        if rng.random() < .3:
            config['installer_options'] = {
                self.installers[0][0]: {rng.choice(TEXTS): 1}}
        if rng.random() < .2:
            config['core_installers'].append(rng.choice(
                ['nosuch', 'nöt', 'нет']))
        if rng.random() < .1:
            config['use_additional_installers'] = 'größe'
        if rng.random() < .3:
            config[rng.choice(TEXTS)] = 'unused'
        self.files['%s/config.yaml' % base] = self.yaml(config)
        self.files['compact.yaml'] = self.yaml(self.rules())
        self.marks = {}
        for p in self.packages:
            if rng.random() < .08:
                self.marks['fail/' + p] = '3'
            elif rng.random() < .06:
                self.marks['lie/' + p] = ''
            elif rng.random() < .1:
                self.marks['done/%s %%%s' % (self.installers[0][0], p)] = ''
        self.requests = [self.request() for _ in range(rng.randint(8, 12))]
        self.requests.insert(0, ['update', '--xylem-dir', self.dir])
        self.requests.append(rng.choice([[], ['lookup'], ['install'], [
            '_compact_rules_file']]) + [rng.choice(['-h', '--help'])])
        self.requests.append(rng.choice([
            ['--version'], ['nosuch'], ['lookup'], ['install', '--nosuch'],
            ['resolve', 'x', '--нет'], []]))

    def yaml(self, data):
        """As people write it."""
        text = yaml.safe_dump(data, default_flow_style=False,
                              allow_unicode=self.rng.random() < .8)
        for _ in range(self.rng.randint(0, 2)):
            text = '# %s\n%s' % (self.rng.choice(TEXTS), text)
        return text

    def rules(self):
        rng = self.rng
        res = {}
        for k in rng.sample(self.keys, rng.randint(3, 5)):
            self.defined.add(k)
            res[k] = {rng.choice(['any_os', 'ubuntu']): {'any_version': {
                i[0]: {'packages': rng.sample(self.packages,
                                              rng.randint(1, 3)),
                       'options': rng.choice(TEXTS)}
                for i in rng.sample(self.installers, rng.randint(1, 3))}}}
            for v in res[k].values():
                for rule in v['any_version'].values():
                    if rng.random() < .1:
                        rule[rng.choice(TEXTS)] = rng.choice(TEXTS)
                    if rng.random() < .05:
                        rule['packages'] = rng.choice([[{'ä': 'ключ'}], [1]])
        return res

    def request(self):
        rng = self.rng
        op = rng.choice(['lookup', 'resolve', 'resolve', 'install', 'install',
                         'install', 'update', '_compact_rules_file'])
        if op == 'update':
            argv = [op] + rng.choice([[], ['-n']])
        elif op == '_compact_rules_file':
            argv = [op, os.path.join(self.root, 'compact.yaml')]
        else:
            known = sorted(self.defined) if rng.random() < .7 else self.keys
            keys = rng.sample(known, min(rng.randint(1, 3), len(known)))
            if rng.random() < .1:
                keys.append('nosuch' if self.narrow else 'неизвестный')
            argv = [op] + keys
            if op == 'resolve' and rng.random() < .5:
                argv.append('--show-default-installer')
            if op != 'lookup' and rng.random() < .2:
                argv.append('--all')
            if op == 'install':
                for flag, p in (('--reinstall', .3), ('--dry-run', .4),
                                ('--continue-on-error', .5)):
                    if rng.random() < p:
                        argv.append(flag)
        if rng.random() < .3:
            argv.append('-v')
        if rng.random() < .1:
            argv.append('--no-color')
        return argv + ['--xylem-dir', self.dir]

    def setup(self):
        """The same state again, at the same place."""
        shutil.rmtree(self.root)
        for f, text in sorted(self.files.items()):
            p = os.path.join(self.root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            write(p, text)
        self.machine = Machine([i[0] for i in self.installers])
        base = os.path.join(self.root, 'machine')
        shutil.rmtree(base, True)
        shutil.move(self.machine.base, base)
        for n in self.installers:
            p = os.path.join(base, 'bin', n[0])
            with open(p, encoding='utf-8') as f:
                text = f.read()
            write(p, text.replace(self.machine.base, base))
            os.chmod(p, 0o755)
        for f, text in self.marks.items():
            write(os.path.join(base, f), text)
        return base

    def run(self, how, env):
        base = self.setup()
        spec = dict(repo=REPO, machine=base, installers=self.installers,
                    requests=self.requests, how=how)
        sp = write(os.path.join(self.root, 'spec.json'), json.dumps(spec))
        out = os.path.join(self.root, 'out.json')
        scratch = os.path.join(self.root, 'scratch')
        os.makedirs(os.path.join(scratch, 'work'))
        e = dict(os.environ, XV_SCRATCH=scratch, **env)
        for k in [k for k in e if k.startswith('XYLEM_') or (
                k.startswith('LC_') and k not in env)]:
            del e[k]
        log = open(os.path.join(self.root, 'log'), 'w+b')
        p = subprocess.run(
            [PY, '-W', 'ignore', '-B', os.path.join(HARNESS, 'encdriver.py'),
             sp, out], stdin=subprocess.DEVNULL, stdout=log, stderr=log,
            env=e, cwd=self.root, timeout=300)
        if p.returncode or not os.path.exists(out):
            log.seek(0)
            raise RuntimeError('driver failed: %d %r' % (
                p.returncode, log.read()[-2000:]))
        log.close()
        with open(out, encoding='utf-8') as f:
            res = json.load(f)
        cache = os.path.join(self.dir, 'cache')
        res['cached'] = self.cached()
        res['left'] = sorted(os.path.relpath(os.path.join(d, f), cache)
                             for d, _, fs in os.walk(cache) for f in fs)
        return res

    def cached(self):
        from common import quiet
        from xylem.config import ensure_config
        from xylem.sources import RulesDatabase, SourcesContext
        config = ensure_config(dict(
            sources_dir=os.path.join(self.dir, 'sources.d'),
            cache_dir=os.path.join(self.dir, 'cache')))
        res = []
        o = quiet(RulesDatabase, SourcesContext(config))
        for s in o.value.sources if o.ok else ():
            o = quiet(s.load_from_cache)
            res.append((s.arguments, s.data if o.ok else None))
        return res


REFERENCE = dict(LC_ALL='C.UTF-8', PYTHONIOENCODING='utf-8', TERM='xterm')


def variant(rng, narrow):
    """(kind of standard output, environment, encoding)"""
    how = rng.choice(['file'] * 6 + ['terminal'] * 3 + ['closed'])
    env = dict(LC_ALL=rng.choice(['C.UTF-8', 'C.UTF-8', 'C', 'POSIX']),
               TERM=rng.choice(['xterm', 'dumb', 'vt100', '']),
               COLUMNS=rng.choice(['80', '20', '10', '300']),
               LINES=rng.choice(['24', '3', '100']))
    code = rng.choice(CODES)
    if narrow and rng.random() < .7:
        # the character set of the locale is used throughout
        env.update(LC_ALL=rng.choice(['C', 'POSIX']), PYTHONUTF8='0',
                   PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='')
        code = 'ascii'
        if rng.random() < .4:
            code = rng.choice(CODES)
            env['PYTHONIOENCODING'] = code
    else:
        env['PYTHONIOENCODING'] = code + rng.choice(['', ':strict'])
    return how, env, code


def readable(data, code):
    return re.sub('0x[0-9a-f]{6,}', 'ADDRESS',
                  data.encode('latin-1').decode(code, 'replace'))


def pattern(text, code):
    """What may be shown where ``text`` is written in UTF-8."""
    res = []
    for c in text:
        try:
            c.encode(code)
            res.append(re.escape(c))
        except UnicodeError:
            res.append(r'(?:\?|\\x..|\\u....|\\U........)')
    return ''.join(res)


def p50(chk):
    rng = chk.rng
    for i in chk.loop(14, 300, cap_quick=150):
        narrow = rng.random() < .4
        w = World(rng, narrow)
        a = w.run('file', REFERENCE)
        for _ in range(3):
            how, env, code = variant(rng, narrow)
            b = w.run(how, env)
            compare(chk, w, a, b, how, env, code)
            chk.count('runs_' + how)
            chk.count('locale_runs', 'PYTHONUTF8' in env)
        shutil.rmtree(w.root)


def compare(chk, w, a, b, how, env, code):
    wit = dict(environment=env, output=how, installers=w.installers,
               files=w.files)
    for argv, x, y in zip(w.requests, a['report'], b['report']):
        what = '%r with %s as standard output and %r' % (argv, how, env)
        out, err = readable(x[1], 'utf-8'), readable(x[2], 'utf-8')
        now, nerr = readable(y[1], code), readable(y[2], code)
        show = dict(wit, errors=nerr, reference=(x[0], out, err))
        if '--xylem-dir' not in argv:
            # help and usage are wrapped for the width of the terminal
            out, err, now, nerr = [''.join(t.split())
                                   for t in (out, err, now, nerr)]
            chk.count('helps', '-h' in argv or '--help' in argv)
            if how == 'closed' and '--version' in argv:
                nerr = err
        chk.equal(y[0], x[0], 'status', 'status of ' + what, **show)
        chk.equal(y[3], x[3], 'commands', 'commands of ' + what, **show)
        chk.equal(y[4], x[4], 'installed', 'installed by ' + what, **show)
        if how != 'closed':
            chk.check(re.fullmatch(pattern(out, code), now), 'output', lambda:
                      '%s printed %r instead of %r' % (what, now, out),
                      **show)
        chk.check(re.fullmatch(pattern(err, code), nerr), 'errors', lambda:
                  '%s printed %r as errors instead of %r' % (
                      what, nerr, err), **show)
        chk.check('Traceback' not in err, 'traceback', lambda: '%r ends with '
                  '%r' % (argv, err), **show)
        try:
            (out + err).encode(code)
            replaced = False
        except UnicodeError:
            replaced = True
        chk.count('requests')
        chk.count('requests_' + (argv or ['none'])[0])
        chk.count('replacing', replaced)
        chk.count('failing', x[0] != 0)
        chk.count('executing', bool(x[3]))
        chk.case((argv, sorted(env.items()), how, out, err), sample=what,
                 nontrivial=replaced or how != 'file')
    chk.check(same_data(a['cached'], b['cached']), 'cached', lambda:
              'cached with %r: %s, otherwise %s' % (
                  env, short(b['cached']), short(a['cached'])), **wit)
    chk.equal(b['left'], a['left'], 'cached', 'files in the cache', **wit)
