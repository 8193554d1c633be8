"""Distributions with entry points, as an installed package would have."""
import importlib
import os
import sys

from common import fresh_dir, write


def add_dist(name, groups, modules):
    """Make a distribution importable and its entry points known.

    ``groups`` maps entry point groups to lists of (name, value);
    ``modules`` maps module names to source text or module objects.
    """
    import pkg_resources
    d = fresh_dir('dist')
    info = os.path.join(d, '%s-1.0.dist-info' % name)
    os.mkdir(info)
    write(os.path.join(info, 'METADATA'),
          'Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % name)
    write(os.path.join(info, 'RECORD'), '')
    text = ''
    for group, entries in groups.items():
        text += '[%s]\n' % group
        for n, value in entries:
            text += '%s = %s\n' % (n, value)
    write(os.path.join(info, 'entry_points.txt'), text)
    for m, source in modules.items():
        if isinstance(source, str):
            write(os.path.join(d, m + '.py'), source)
        else:
            sys.modules[m] = source
    sys.path.append(d)
    importlib.invalidate_caches()
    pkg_resources.working_set.add_entry(d)
    return d


def remove_dist(d, name):
    import pkg_resources
    sys.path.remove(d)
    ws = pkg_resources.working_set
    ws.entries.remove(d)
    ws.entry_keys.pop(d, None)
    ws.by_key.pop(name, None)
    importlib.invalidate_caches()
