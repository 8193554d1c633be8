"""Stubs shared by the checks of rules, sources and the cache."""
import os
import sys

import model
from common import fresh_dir, write


class StubOS(object):
    """The part of the OS plugin interface that describes the OS."""

    def __init__(self, name, version, default):
        self.name, self.version, self.d = name, version, default
        self.names = [name]
        self.default_installer = default
        self.options = {}
        self.override_version = version

    def is_os(self):
        return True

    def is_current_os(self):
        return True

    def get_version(self):
        return self.version

    def get_tuple(self):
        return self.name, self.version

    def get_default_installer_name(self):
        return self.d

    def get_core_installers(self, *a):
        return [self.d]

    def has_feature(self, name):
        return False


class StubOSSupport(object):

    def __init__(self, current):
        self.current_os = current
        self.os_plugins = [current]

    def get_current_os(self):
        return self.current_os

    def get_default_installer_names(self):
        return dict(model.DEFAULTS, **{
            self.current_os.name: self.current_os.default_installer})

    def get_os_names(self):
        return [self.current_os.name]


class StubContext(object):
    """Stands in for the installer context in lookups, with all of its
    public interface."""

    def __init__(self, os_name, version, default):
        self.t = (os_name, version)
        self.d = default
        self.os = StubOS(os_name, version, default)
        self.os_support = StubOSSupport(self.os)
        self.config = None
        self.installer_plugins = []
        self.core_installers = []
        self.additional_installers = []
        self.installers = []
        self.installer_names = []
        self.core_installer_names = []
        self.additional_installer_names = []
        self.installer_plugin_names = []

    def get_os(self):
        return self.os

    def get_os_tuple(self):
        return self.t

    def get_os_string(self):
        return '%s:%s' % self.t

    def get_default_installer_name(self):
        return self.d

    def lookup_installer(self, name):
        return None


def ctx(os_name, version):
    return StubContext(os_name, version,
                       model.DEFAULTS.get(os_name, 'otherinst'))


def dump(data):
    """YAML text independent of the code under test."""
    import yaml
    return yaml.safe_dump(data, allow_unicode=True, default_flow_style=False,
                          sort_keys=False)


class Env(object):
    """A sources directory, rules files and a cache in a scratch dir."""

    def __init__(self, name='env'):
        self.root = fresh_dir(name)
        self.sources = os.path.join(self.root, 'sources.d')
        self.cache = os.path.join(self.root, 'cache')
        self.rules = os.path.join(self.root, 'rules')
        os.makedirs(self.sources)
        os.makedirs(self.rules)

    def url(self, name):
        return 'file://' + os.path.join(self.rules, name)

    def write_rules(self, name, data, text=None):
        write(os.path.join(self.rules, name),
              dump(data) if text is None else text)
        return self.url(name)

    def write_sources(self, name, urls, text=None):
        return write(os.path.join(self.sources, name),
                     dump([{'rules': u} for u in urls])
                     if text is None else text)

    def config(self, **kw):
        from xylem.config import ensure_config
        d = {'sources_dir': self.sources, 'cache_dir': self.cache}
        d.update(kw)
        return ensure_config(d)

    def context(self, **kw):
        from xylem.sources import SourcesContext
        return SourcesContext(config=self.config(**kw))

    def database(self, **kw):
        from xylem.sources import RulesDatabase
        return RulesDatabase(self.context(**kw))

    def updated(self, **kw):
        """The database after an update of the cache."""
        context = self.context(**kw)
        context.ensure_cache_dir()
        from xylem.sources import RulesDatabase
        db = RulesDatabase(context)
        db.update()
        return db


class CliResult(object):
    def __init__(self, status, out, err, exc):
        self.status, self.out, self.err, self.exc = status, out, err, exc

    def __repr__(self):
        return 'exit %r (exception %r) out %r err %r' % (
            self.status, self.exc, self.out[-800:], self.err[-800:])


def cli(args, program=None):
    """Run the command line tool, or ``program``, in this process.

    ``status`` is what the process would exit with; ``exc`` is the
    exception that would have been shown as a traceback, if any.
    """
    from common import quiet
    from xylem.commands.main import main
    import xylem.config as config
    saved = config.get_config()
    try:
        if program:
            sys.argv = list(args)
            o = quiet(program)
        else:
            o = quiet(main, list(args))
    finally:
        config.set_config(saved)
    if o.ok:
        return CliResult(0, o.out, o.err, None)
    if isinstance(o.exc, SystemExit):
        code = o.exc.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            code = 1
        return CliResult(code & 0xff, o.out, o.err, None)
    return CliResult(1, o.out, o.err, o.exc)
