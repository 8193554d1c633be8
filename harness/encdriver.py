"""Runs requests of the tool with real output streams (for P50)."""
import json
import os
import pty
import sys
import termios
import types

HERE = os.path.dirname(os.path.abspath(__file__))


def run(argv):
    """As a console script does; never returns."""
    from xylem.commands.main import main
    status = 1
    try:
        try:
            sys.argv = ['xylem'] + argv
            main()
            status = 0
        except SystemExit as e:
            status = e.code
            if status is None:
                status = 0
            elif not isinstance(status, int):
                print(status, file=sys.stderr)
                status = 1
        except BaseException:
            sys.excepthook(*sys.exc_info())
        try:
            if sys.stdout is not None:
                sys.stdout.flush()
        except Exception:
            status = 120
    finally:
        os._exit(status & 0xff)


def request(argv, how):
    """(status, output, errors) of one request."""
    import tempfile
    files = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]
    master = None
    if how == 'terminal':
        master, slave = pty.openpty()
        attr = termios.tcgetattr(slave)
        attr[1] &= ~termios.OPOST
        termios.tcsetattr(slave, termios.TCSANOW, attr)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.dup2(slave if how == 'terminal' else files[0].fileno(), 1)
        os.dup2(files[1].fileno(), 2)
        if how == 'closed':
            os.close(1)
            sys.stdout = None
        run(argv)
    out = b''
    if how == 'terminal':
        os.close(slave)
        while True:
            try:
                data = os.read(master, 65536)
            except OSError:
                break
            if not data:
                break
            out += data
        os.close(master)
    _, status = os.waitpid(pid, 0)
    res = []
    for f in files:
        f.seek(0)
        res.append(f.read())
        f.close()
    if how != 'terminal':
        out = res[0]
    return (os.waitstatus_to_exitcode(status), out.decode('latin-1'),
            res[1].decode('latin-1'))


def main():
    spec = json.load(open(sys.argv[1], encoding='utf-8'))
    os.environ['XV_REPO'] = spec['repo']
    sys.path.insert(0, HERE)
    sys.path.insert(0, spec['repo'])
    from plugdist import add_dist
    from stubs import Machine, make_stub_class
    machine = Machine.__new__(Machine)
    machine.base, machine.calls = spec['machine'], []
    machine.log = os.path.join(machine.base, 'log')
    Stub = make_stub_class()

    def plugin(name, additional, style):
        def init(self):
            Stub.__init__(self, machine, name, additional, style)
        return type(str('Enc'), (Stub,), {'__init__': init})
    mod = types.ModuleType('xvenc')
    entries = []
    for i, (name, additional, style) in enumerate(spec['installers']):
        setattr(mod, 'd%d' % i, dict(
            plugin_name=name, description='stub',
            installer=plugin(name, additional, style)))
        entries.append(('e%d' % i, 'xvenc:d%d' % i))
    add_dist('xvenc', {'xylem.installers': entries}, {'xvenc': mod})
    import xylem.commands.main  # noqa: F401
    report = []
    for argv in spec['requests']:
        before = len(machine.executed())
        r = request(argv, spec['how'])
        report.append(r + ([[os.path.basename(c[0])] + c[1:] for c in
                            machine.executed()[before:]],
                           sorted(os.listdir(os.path.join(machine.base,
                                                          'done')))))
    info = dict(report=report, encoding=sys.stdout.encoding)
    with open(sys.argv[2], 'w', encoding='utf-8',
              errors='surrogateescape') as f:
        json.dump(info, f)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
