"""P36: the same results in every process."""
import json
import os
import subprocess

import model
from common import HARNESS, PY, REPO, fresh_dir, short, write
from rules_common import Env, dump

OSV = {'ubuntu': ['lucid', 'precise', 'trusty'],
       'debian': ['wheezy', 'jessie'],
       'osx': ['lion', 'mountain lion', 'mavericks']}
DEF = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew'}


def world(rng):
    env = Env('det')
    tags = model.Tags()
    all_keys = model.KEYS + rng.sample(
        [k.upper() for k in model.KEYS] + [k.title() for k in model.KEYS], 4)
    serial = 0
    flaws = rng.random() < .5
    names = rng.sample(['%s%s.yaml' % (a, b) for a in 'abkz0579'
                        for b in ('', '-x', '_1', '0', 'q')],
                       rng.randint(2, 7))
    for name in names:
        urls = []
        for _ in range(rng.randint(1, 3)):
            serial += 1
            n = 'r%d.yaml' % serial
            x = rng.random() if flaws else 1
            if x < .08:
                env.write_rules(n, None, text='[unclosed')
            elif x < .14:
                urls.append(env.url('missing%d' % serial))
                continue
            else:
                rules = model.gen_rules(
                    rng, tags, keys=rng.sample(all_keys, rng.randint(2, 9)),
                    oss=list(OSV), versions=OSV, defaults=DEF)
                if x < .2:
                    # several things are wrong at once
                    for k in list(rules)[:2]:
                        rules[k]['any os!'] = {'1': {'apt': 5}}
                        rules[k]['ubuntu'] = [3]
                for k in rules:
                    for od in rules[k].values():
                        if not isinstance(od, dict):
                            continue
                        for vd in od.values():
                            if not isinstance(vd, dict):
                                continue
                            for rule in vd.values():
                                if isinstance(rule, dict) and \
                                        rng.random() < .15:
                                    rule['options'] = 'unresolvable'
                env.write_rules(n, rules)
            urls.append(env.url(n))
        env.write_sources(name, urls)
    if flaws and rng.random() < .15:
        env.write_sources('mm%d.yaml' % serial, [], text='a: [')
    for junk in rng.sample(['.hidden.yaml', 'x.yml', 'README', 'y.yaml~'],
                           2):
        write(os.path.join(env.sources, junk), 'junk: [')
    os_name = rng.choice(list(OSV))
    version = rng.choice(OSV[os_name])
    installers = rng.sample(model.INSTALLERS, rng.randint(2, 6))
    core = rng.sample(installers, rng.randint(1, len(installers)))
    rest = [i for i in installers if i not in core]
    additional = rng.choice(rest) if rest else None
    config = {'sources_dir': env.sources, 'cache_dir': env.cache,
              'os_override': '%s:%s' % (os_name, version)}
    if rng.random() < .8:
        config['core_installers'] = core
    if rng.random() < .4:
        config['installer_options'] = {
            n: {'unknown%d' % k: k for k in rng.sample(range(30), 5)}
            for n in rng.sample(['apt', 'pip', 'homebrew'], 2)}
        config['os_options'] = {'features': ['z', 'a']}
    pins = {}
    for k in rng.sample(model.KEYS, rng.randint(0, 3)):
        pins.setdefault(rng.choice(installers + ['noplugin']), []).append(k)
    if pins:
        config['install_from'] = pins
    wanted = [rng.choice(all_keys + ['undefined', 'nokey'])
              for _ in range(rng.randint(2, 9))]
    write(os.path.join(env.root, 'rules.yaml'), dump(model.gen_rules(
        rng, tags, oss=list(OSV), versions=OSV, defaults=DEF)))
    write(os.path.join(env.root, 'config.yaml'), dump(config))
    base = ['--xylem-dir', env.root]
    cli = [['lookup'] + base + wanted[:4],
           ['resolve'] + base + wanted,
           ['resolve'] + base + ['--all'],
           ['resolve', '-v'] + base + wanted[:3],
           ['resolve'] + base + ['x'] + 2 * [
               '--install-from', 'pip: [a], apt: [b], gem: [c], d: []'],
           ['update', '-v', '--dry-run'] + base, ['update', '-v'] + base,
           ['install', '--simulate', '-v'] + base + wanted[:3],
           ['lookup', '-d'] + base + wanted[:2],
           ['_compact_rules_file', os.path.join(env.root, 'rules.yaml')],
           ['_compact_rules_file', '--help'], ['--help']]
    packages = ['pkg%d' % i for i in range(9)]
    rng.shuffle(packages)
    freeze = ''.join('%s==1.%d\\n' % (p, n) for n, p in enumerate(
        rng.sample(packages, 3)))
    programs = {n: "#!/bin/sh\nprintf '%s'\n" % freeze
                for n in ('apt', 'pip')}
    spec = dict(
        packages=packages, programs=programs, repo=REPO, config=config, keys=all_keys + ['undefined'],
        wanted=wanted, oss=[[o, v, DEF[o]] for o in OSV for v in OSV[o]],
        installers=[[i, i == additional, rng.choice(['each', 'all', 'pairs'])]
                    for i in installers],
        broken={i: [rng.choice(['filter', 'compose'])] for i in installers
                if rng.random() < .15},
        installed=['p%d' % i for i in range(80) if rng.random() < .2],
        cli=cli)
    return env, spec


def p36(chk):
    rng = chk.rng
    runs = chk.n(5, 10)
    for i in chk.loop(8, 60, cap_quick=150, cap_thorough=800):
        env, spec = world(rng)

        def start(n, update):
            spec['update'] = update
            spec['config']['cache_dir'] = os.path.join(env.root, 'cache')
            where = os.path.join(env.root, 'cache')
            d = fresh_dir('detrun')
            sp = write(os.path.join(d, 'spec.json'), json.dumps(spec))
            out = os.path.join(d, 'out.json')
            e = dict(os.environ, PYTHONHASHSEED=str(rng.randint(0, 2**32 - 1)),
                     XV_DET_SCRATCH=d, HOME=d)
            log = open(os.path.join(d, 'log'), 'wb')
            p = subprocess.Popen(
                [PY, '-W', 'ignore', '-B',
                 os.path.join(HARNESS, 'detdriver.py'), sp, out, str(n)],
                stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e,
                cwd=env.root)
            log.close()
            return p, d, out, where

        def finish(run):
            p, d, out, where = run
            try:
                p.wait(120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                chk.problems.append('a run did not end')
                return None
            if p.returncode or not os.path.exists(out):
                with open(os.path.join(d, 'log'), encoding='utf-8',
                          errors='replace') as f:
                    chk.violate('run-failed', f.read()[-2000:])
                return None
            with open(out, encoding='utf-8') as f:
                r = json.load(f)
            chk.count('processes')
            chk.count('directory_listings', r['listings'])
            return r

        first = finish(start(0, True))
        if first is None:
            continue
        # the cache that the first run wrote is read by the next ones,
        # then each run writes it again
        results = []
        writes = "cli ['update', '-v', '--xylem-dir'"
        live = [start(n + 1, False) for n in range(runs)]
        results += [(False, finish(x)) for x in live]
        for n in range(max(2, runs // 2)):
            results.append((True, finish(start(100 + n, True))))
        seeds = {first['seed']}
        base = {w: (s, v) for w, s, v in first['report']}
        for update, r in results:
            if r is None:
                continue
            seeds.add(r['seed'])
            mine = {w: (s, v) for w, s, v in r['report']}
            names = [w for w in list(base) + [w for w in mine
                                              if w not in base]
                     if update or not w.startswith(('update', writes))]
            for w in names:
                chk.count('comparisons')
                chk.check(mine.get(w) == base.get(w), 'differs', lambda: (
                    '%s differs between two runs with other hash seeds and '
                    'directory orders: %s and %s' % (
                        w, short(base.get(w), 1200), short(mine.get(w), 1200)
                    )), config=spec['config'], wanted=spec['wanted'])
        chk.count('hash_seeds', len(seeds))
        kinds = {w.split()[0]: s for w, s, v in first['report']}
        for w, s, v in first['report']:
            if s == 'raised':
                chk.count('errors_compared')
            if w.startswith('cli') and s == 0:
                chk.count('commands_succeeded')
            if w == 'update printed errors':
                chk.count('updates_with_errors')
        chk.case((first['seed'], sorted(base)), sample=short(
            first['report'][:2], 600),
            nontrivial=kinds.get('sources') == 'ok')
