"""One run of the code under test, reported as JSON (for P36)."""
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    spec = json.load(open(sys.argv[1], encoding='utf-8'))
    out, shuffle = sys.argv[2], sys.argv[3]
    os.environ['XV_REPO'] = spec['repo']
    os.environ['XV_SCRATCH'] = os.environ['XV_DET_SCRATCH']
    sys.path.insert(0, HERE)
    sys.path.insert(0, spec['repo'])

    # the file system lists directories in an order of its own
    listdir, scandir, iterations = os.listdir, os.scandir, [0]
    rng = random.Random(shuffle)

    def shuffled_listdir(*a, **kw):
        res = listdir(*a, **kw)
        rng.shuffle(res)
        iterations[0] += 1
        return res

    class Entries(object):
        def __init__(self, entries):
            self.entries = iter(entries)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.entries)

        def close(self):
            pass

    def shuffled_scandir(*a, **kw):
        with scandir(*a, **kw) as it:
            res = list(it)
        rng.shuffle(res)
        iterations[0] += 1
        return Entries(res)

    import six.moves  # noqa: F401
    import pkg_resources  # noqa: F401
    os.listdir, os.scandir = shuffled_listdir, shuffled_scandir

    from common import quiet
    from stubs import make_stub_class, plain
    from rules_common import StubContext, cli
    from xylem.config import ensure_config
    from xylem.sources import SourcesContext, RulesDatabase
    from xylem.installers import InstallerContext
    from xylem.lookup import lookup
    from xylem.resolve import resolve
    from xylem.install import install
    from xylem.update import update

    report = []

    def put(what, o, conv=None):
        if o.ok:
            v = conv(o.value) if conv else o.value
            report.append([what, 'ok', v])
        else:
            report.append([what, 'raised', type(o.exc).__name__ + ': ' +
                           plain(str(o.exc))])
        if getattr(o, 'out', None):
            report.append([what + ' printed', 'ok', plain(o.out)])
        if getattr(o, 'err', None):
            report.append([what + ' printed errors', 'ok', plain(o.err)])

    def data(x):
        """Order is kept where it can be seen."""
        return json.loads(json.dumps(x, default=str))

    def unordered(x):
        return json.loads(json.dumps(x, default=str, sort_keys=True))

    kw = spec['config']
    cfg = ensure_config(dict(kw))
    sc = SourcesContext(config=cfg)
    db = quiet(RulesDatabase, sc)
    put('sources', db, lambda d: [
        [s.origin, s.spec.name, s.arguments, s.unique_id()]
        for s in d.sources])
    if spec['update']:
        put('update', quiet(update, config=cfg))
    put('dry run', quiet(update, dry_run=True, config=cfg))
    if db.ok:
        db = db.value
        db.raise_on_error = False
        put('from cache', quiet(db.load_from_cache), lambda _: [
            [s.origin, data(s.arguments), unordered(s.data)]
            for s in db.sources])
        put('cache files', quiet(
            lambda: sorted(listdir(sc.cache_dir))))
        db.sources = [s for s in db.sources if s.data is not None]
        for osn, ver, default in spec['oss']:
            c = StubContext(osn, ver, default)
            keys = quiet(db.keys, c)
            put('keys %s:%s' % (osn, ver), keys, sorted)
            for k in spec['keys']:
                put('lookup %s %s:%s' % (k, osn, ver),
                    quiet(db.lookup, k, c), unordered)
    Stub = make_stub_class()

    class Machine(object):
        calls = []

        def exe(self, n):
            return n

        def installed(self, n, p):
            return p in spec['installed']

    def context():
        ic = InstallerContext(config=cfg, setup_installers=False)
        machine = Machine()
        ic.installer_plugins = [
            Stub(machine, n, a, style) for n, a, style in spec['installers']]
        for s in ic.installer_plugins:
            for op in spec['broken'].get(s.name, []):
                from xylem.installers import InstallerError
                s.broken[op] = InstallerError
        ic.setup_installers()
        return ic
    out_ic = quiet(context)
    put('installers', out_ic, lambda ic: [
        ic.core_installer_names, sorted(ic.additional_installer_names)])
    if out_ic.ok:
        ic = out_ic.value
        for args in (dict(), dict(all_keys=True)):
            put('resolve %r' % (args,), quiet(
                resolve, spec['wanted'], config=cfg, installer_context=ic,
                **args), lambda r: [
                    [[k, n, [unordered(dict(x)) for x in res]]
                     for k, (n, res) in r[0]],
                    [[k, type(e).__name__, plain(str(e))] for k, e in r[1]]])
        for args in (dict(continue_on_error=True), dict(),
                     dict(reinstall=True, continue_on_error=True)):
            put('plan %r' % (args,), quiet(
                install, spec['wanted'], simulate=True, config=cfg,
                installer_context=ic, **args), lambda r: [
                    [[k, str(e)] for k, e in r[0]],
                    [plain(str(e)) for e in r[1]]])
        report.append(['calls', 'ok', data(Machine.calls)])
        for k in spec['wanted'][:3]:
            for compact in (False, True):
                put('lookup() %s %s' % (k, compact), quiet(
                    lookup, k, compact=compact, config=cfg,
                    installer_context=ic), unordered)
    # what the built-in package managers still need to install
    bindir = os.path.join(os.environ['XV_DET_SCRATCH'], 'bin')
    os.mkdir(bindir)
    for n, text in spec['programs'].items():
        with open(os.path.join(bindir, n), 'w') as f:
            f.write(text)
        os.chmod(os.path.join(bindir, n), 0o755)
    os.environ['PATH'] = bindir + ':/usr/bin:/bin'
    real = InstallerContext(config=ensure_config(
        {'os_override': 'ubuntu:trusty'}))
    for n in sorted(spec['programs']):
        inst = real.lookup_installer(n)
        r = quiet(inst.resolve, {'packages': spec['packages']})
        put('packages of ' + n, r, lambda r: [unordered(dict(x)) for x in r])
        if r.ok:
            m = quiet(inst.filter_uninstalled, r.value)
            put('missing for ' + n, m, lambda r: [x['package'] for x in r])
            put('commands of ' + n, quiet(
                inst.get_install_commands, r.value), data)
    for argv in spec['cli']:
        if argv[0] == 'update' and '--dry-run' not in argv and not \
                spec['update']:
            continue
        r = cli(argv)
        report.append(['cli %r' % (argv,), r.status,
                       [plain(r.out), plain(r.err), repr(r.exc)]])
    json.dump(dict(report=report, listings=iterations[0],
                   seed=hash('xylem')), open(out, 'w', encoding='utf-8'))


main()
