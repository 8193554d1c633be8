"""Stub installers whose commands are real, observable processes."""
import os
import re
import shutil
import sys

import model
from common import SCRATCH, fresh_dir, quiet, short, write
from rules_common import Env

SCRIPT = """#!/bin/sh
# stand-in for a package manager: log the call, then do as told
B='%(base)s'
N="${0##*/}"
{ printf '%%s' "$N"; for a; do printf '\\037%%s' "$a"; done; printf '\\036'; } >> "$B/log"
for a; do
  [ -e "$B/kill/$a" ] && kill -9 $$
done
for a in "$N" "$@"; do
  [ -e "$B/int/$a" ] && { kill -2 $PPID; kill -2 $$; }
done
rc=0
for a; do
  if [ -e "$B/fail/$a" ]; then rc=$(%(cat)s "$B/fail/$a"); fi
done
[ "$rc" != 0 ] && exit "$rc"
for a; do
  [ -e "$B/lie/$a" ] || : > "$B/done/$N %%$a"
done
exit 0
"""

ANSI = re.compile('\x1b\\[[0-9;]*m')


def plain(text):
    return ANSI.sub('', text)


class Machine(object):
    """What is installed, and what happened, on an imagined machine."""

    def __init__(self, names):
        self.base = fresh_dir('machine')
        for d in ('fail', 'kill', 'lie', 'int', 'done', 'bin'):
            os.makedirs(os.path.join(self.base, d))
        self.log = os.path.join(self.base, 'log')
        for n in names:
            p = self.exe(n)
            write(p, SCRIPT % dict(base=self.base, cat=shutil.which(
                'cat', path='/bin:/usr/bin')))
            os.chmod(p, 0o755)
        # things that cannot be executed
        write(os.path.join(self.base, 'bin', 'notexec'), 'x')
        write(os.path.join(self.base, 'bin', 'noformat'), 'x\n')
        os.chmod(os.path.join(self.base, 'bin', 'noformat'), 0o755)
        self.calls = []        # calls into the stub installers

    def exe(self, name):
        return os.path.join(self.base, 'bin', name)

    def mark(self, what, package, text=''):
        write(os.path.join(self.base, what, package), text)

    def installed(self, name, package):
        return os.path.exists(os.path.join(
            self.base, 'done', '%s %%%s' % (name, package)))

    def set_installed(self, name, package):
        write(os.path.join(self.base, 'done', '%s %%%s' % (name, package)),
              '')

    def executed(self):
        """The processes that ran: lists of arguments."""
        try:
            with open(self.log, encoding='utf-8') as f:
                text = f.read()
        except OSError:
            return []
        res = []
        for rec in text.split('\x1e')[:-1]:
            args = rec.split('\x1f')
            res.append([self.exe(args[0])] + args[1:])
        return res


def make_stub_class():
    from xylem.installers import InstallerBase
    from xylem.installers import InstallerError
    from xylem.installers import InstallerPrerequisiteError
    from xylem.config_utils import Any, Boolean

    class Stub(InstallerBase):

        def __init__(self, machine, name, additional=False, style='each'):
            super(Stub, self).__init__()
            self.options_description.items['as_root'].default = False
            self.options_description.add('stub_option', type=Any, default=0)
            self.installer_rule_description.add('options', type=Any)
            self.installer_rule_description.add('id', type=Any)
            self.machine = machine
            self._name = name
            self.additional = additional
            self.style = style
            self.broken = {}       # operation -> exception class
            self.picky = None      # prerequisites of this package only

        @property
        def name(self):
            return self._name

        def use_as_additional_installer(self, os_tuple):
            if callable(self.additional):
                return self.additional(os_tuple)
            return self.additional

        def _maybe(self, op):
            if op in self.broken:
                raise self.broken[op]('stub of %s: %s' % (self._name, op))

        def resolve(self, rule):
            if rule.get('options') == 'unresolvable':
                raise InstallerError('stub cannot resolve')
            return super(Stub, self).resolve(rule)

        def filter_uninstalled(self, resolutions):
            self.machine.calls.append(
                ('filter', self._name, [r['package'] for r in resolutions]))
            self._maybe('filter')
            return [r for r in resolutions
                    if not self.machine.installed(self._name, r['package'])]

        def is_installed(self, resolutions):
            if not isinstance(resolutions, list):
                resolutions = [resolutions]
            self._maybe('verify')
            return all(self.machine.installed(self._name, r['package'])
                       for r in resolutions)

        def get_install_commands_no_root(self, resolutions, interactive=True,
                                         reinstall=False):
            packages = [r['package'] for r in resolutions]
            self.machine.calls.append(('compose', self._name, packages))
            self._maybe('compose')
            if not packages and self.style == 'all':
                # all packages in one command, even if there are none
                return [[self.machine.exe(self._name)]]
            return commands(self.machine, self._name, self.style, packages,
                            interactive, reinstall)

        def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False,
                                        interactive=True):
            self._prerequisites('general', fix_unsatisfied, None, interactive)

        def check_install_prerequisites(self, resolutions, os_tuple,
                                        fix_unsatisfied=False,
                                        interactive=True):
            self._prerequisites('install', fix_unsatisfied,
                                [r['package'] for r in resolutions],
                                interactive)

        def _prerequisites(self, kind, fix, packages, interactive):
            self.machine.calls.append((kind, self._name, packages, fix,
                                       interactive))
            if kind in self.broken and (self.picky is None or
                                        self.picky in packages):
                if fix == 'simulate':
                    return
                if fix:
                    self.machine.calls.append(('fixed', self._name, kind))
                    del self.broken[kind]
                    return
                raise InstallerPrerequisiteError(
                    'stub of %s: %s prerequisites' % (self._name, kind))
    return Stub


def commands(machine, name, style, packages, interactive, reinstall):
    """The commands of the stub installers, also for the oracles."""
    flags = ([] if interactive else ['-y']) + (
        ['--again'] if reinstall else [])

    def command(pkgs):
        for p in pkgs:
            if p.startswith('noexec-'):
                return [machine.exe('notexec')] + flags + pkgs
            if p.startswith('nonul-'):
                return [machine.exe('no\0exe')] + flags + pkgs
            if p.startswith('noformat-'):
                return [machine.exe('noformat')] + flags + pkgs
            if p.startswith('nofile-'):
                return [machine.exe('nosuchfile')] + flags + pkgs
        return [machine.exe(name)] + flags + pkgs
    if not packages:
        return []
    if style == 'each':
        return [command([p]) for p in packages]
    if style == 'all':
        return [command(list(packages))]
    if style == 'prepare':
        return [[machine.exe(name), '--prepare']] + [
            command([p]) for p in packages]
    if style == 'again':
        res = []
        for p in packages:
            res += [[machine.exe(name), '--prepare'], command([p])]
        return res + [[machine.exe(name), '--clean']]
    if style == 'pairs':
        return [command(list(packages[i:i + 2]))
                for i in range(0, len(packages), 2)]
    return []


STYLES = ['each', 'all', 'prepare', 'pairs', 'again']


def make_context(config, stubs):
    """A real installer context whose plugins are the stubs."""
    from xylem.installers import InstallerContext
    ic = InstallerContext(config=config, setup_installers=False)
    ic.installer_plugins = list(stubs)
    ic.setup_installers()
    return ic
