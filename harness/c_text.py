"""P32-P35: printed text, YAML, chained errors and scoped helpers."""
import io
import math
import os
import re
import stat
import sys
import tempfile
import traceback

from common import (SCRATCH, fresh_dir, observe, quiet, same_data, short,
                    tree, write)

PIECES = ['foo', ' ', '\n', 'ä', 'ß', '日本', '🙂', '@', '@@', '@!', '@/', '@_',
          '@|', '@{', '@{redf}', '@{boldon}', '}', '{', '{0}', '{}', '%s',
          '%', '%(x)s', '$', '\\', '\\n', '\t', '!', '/', '_', '|', '\x00',
          '\x1b', '\x7f', '\x85', '\u2028', 'é', 'e\u0301', '\ufeff', '\r',
          '"', "'", '`', '#', 'redf', '@redf', '@name', '@1', '@@!', '@@{x}',
          '\U0010ffff', '-', 'x' * 90]


def any_text(rng, n=8, no=()):
    while True:
        t = ''.join(rng.choice(PIECES) for _ in range(rng.randrange(n)))
        if not any(x in t for x in no):
            return t


CODES = re.compile('(\x1b\\[[0-9;]*m)*')


# --- P32 --------------------------------------------------------------

class Thing(object):

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


ANNOTATIONS = {'@!': 'boldon', '@/': 'italicson', '@_': 'ulon',
               '@|': 'reset'}


def p32(chk):
    import xylem.log_utils as lu
    import xylem.terminal_color as tc
    from xylem.text_utils import to_bytes, to_str
    rng = chk.rng
    levels = ['info', 'warning', 'error', 'debug', 'info_v']
    encodings = ['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16',
                 'koi8-r', 'euc-jp']

    def restore():
        tc.enable_ANSI_colors()
        lu.enable_debug(False)
        lu.enable_verbose(False)
    try:
        for i in chk.loop(4000, 120000):
            color = rng.random() < .5
            (tc.enable_ANSI_colors if color else tc.disable_ANSI_colors)()
            if rng.random() < .2:
                # repeatedly
                (tc.enable_ANSI_colors if color else
                 tc.disable_ANSI_colors)()
            debugging, verbose = rng.random() < .5, rng.random() < .5
            lu.enable_debug(debugging)
            lu.enable_verbose(verbose)
            text = any_text(rng)
            if rng.random() < .03:
                text = any_text(rng, rng.choice([60, 400]))
            level = rng.choice(levels)
            fn = getattr(lu, level)
            # to an in-memory stream, given or the standard one
            visible = {'debug': debugging, 'info_v': verbose}.get(level, True)
            given = rng.random() < .5
            end = rng.choice(['\n', '\n', '', '!!'])
            out, err, file = io.StringIO(), io.StringIO(), io.StringIO()
            saved = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = out, err
            try:
                kw = {} if end == '\n' else {'end': end}
                if given:
                    kw['file'] = file
                o = observe(fn, text, **kw)
            finally:
                sys.stdout, sys.stderr = saved
            what = '%s(%r) with%s color' % (level, text,
                                            '' if color else 'out')
            if not chk.returns(o, 'prints', what):
                continue
            streams = dict(given=file.getvalue(), out=out.getvalue(),
                           err=err.getvalue())
            dest = 'given' if given else 'out' if level == 'info' else 'err'
            got = streams.pop(dest)
            chk.check(not any(streams.values()), 'stream',
                      '%s written to %r' % (what, streams))
            if not visible:
                chk.equal(got, '', 'hidden', what)
                chk.count('hidden')
            elif not color:
                chk.equal(got, text + end, 'verbatim', what)
                chk.count('printed_without_color')
            else:
                body = got[:len(got) - len(end)] if end else got
                k = body.find(text)
                ok = got.endswith(end) and k >= 0 and any(
                    CODES.fullmatch(body[:j]) and
                    CODES.fullmatch(body[j + len(text):])
                    for j in range(len(body) - len(text) + 1)
                    if body.startswith(text, j))
                chk.check(ok, 'verbatim', '%s printed %r' % (what, got))
                chk.count('printed_with_color')
            # to streams that cannot represent everything
            if visible and i % 3 == 0:
                enc = rng.choice(encodings)
                raw = io.BytesIO()
                stream = io.TextIOWrapper(raw, encoding=enc, newline='')
                saved = sys.stdout, sys.stderr
                sys.stdout = sys.stderr = stream
                try:
                    o = observe(fn, text, **(
                        {'file': stream} if rng.random() < .5 else {}))
                    stream.flush()
                finally:
                    sys.stdout, sys.stderr = saved
                if chk.returns(o, 'encoded', what + ' to ' + enc):
                    got = raw.getvalue().decode(enc)
                    want = text.encode(enc, 'replace').decode(enc)
                    want2 = want.replace('\ufeff', '')
                    chk.check(want in got or want2 in got, 'encoded',
                              '%s to %s printed %r instead of %r' % (
                                  what, enc, got, want))
                    if not color:
                        chk.check(got in (want + '\n', want2 + '\n'),
                                  'encoded', '%s to %s printed %r' % (
                                      what, enc, got))
                    chk.count('encoded')
            # error(exit=True)
            if i % 20 == 0:
                o = quiet(lu.error, text, exit=True)
                if chk.check(isinstance(o.exc, SystemExit), 'exit',
                             'error(%r, exit=True) %r' % (text, o)):
                    code = o.exc.code
                    shown = code if isinstance(code, str) else o.out + o.err
                    chk.check(text in shown and code not in (0, None),
                              'exit', 'error(%r, exit=True) exits with %r' %
                              (text, code))
                chk.count('exits')
            # annotations
            reset = tc.ansi('reset')
            s = observe(tc.sanitize, text)
            if chk.returns(s, 'sanitize', 'sanitize(%r)' % text):
                f = observe(tc.fmt, s.value)
                if chk.returns(f, 'sanitize', 'fmt(sanitize(%r))' % text):
                    chk.equal(f.value, text + reset, 'sanitize',
                              'fmt(sanitize(%r))' % text)
                    chk.count('escaped')
            template, want = '', ''
            for _ in range(rng.randrange(6)):
                r = rng.random()
                if r < .4:
                    a = rng.choice(sorted(ANNOTATIONS))
                    template += a
                    want += tc.ansi(ANNOTATIONS[a])
                elif r < .6:
                    a = rng.choice(['redf', 'cyanb', 'boldoff', 'reset',
                                    'kf', 'wb', 'white', 'uloff'])
                    template += '@{%s}' % a
                    want += tc.ansi(a)
                elif r < .8:
                    t = any_text(rng, 4, no='@')
                    if template.endswith('@@') and t[:1] in '!/_|':
                        continue
                    template += t
                    want += t
                else:
                    t = any_text(rng, 4)
                    if template.endswith('@@') and t[:1] in (
                            '!', '/', '_', '|', ''):
                        continue
                    template += tc.sanitize(t)
                    want += t
            f = observe(tc.fmt, template)
            if chk.returns(f, 'annotations', 'fmt(%r)' % template):
                chk.equal(f.value, want + reset, 'annotations',
                          'fmt(%r)' % template)
                if not color:
                    chk.check('\x1b' in want or '\x1b' not in f.value,
                              'annotations', 'colors in fmt(%r)' % template)
                chk.count('annotated')
            # the meaning of the codes
            if color and i % 50 == 0:
                for n, c in enumerate(['black', 'red', 'green', 'yellow',
                                       'blue', 'purple', 'cyan', 'white']):
                    for name, code in ((c, 30 + n), (c + 'f', 30 + n),
                                       (c + 'b', 40 + n)):
                        chk.equal(tc.ansi(name), '\x1b[%dm' % code, 'codes',
                                  'ansi(%r)' % name)
                for name, code in (('reset', 0), ('boldon', 1),
                                   ('boldoff', 22), ('ulon', 4),
                                   ('uloff', 24), ('invon', 7)):
                    chk.equal(tc.ansi(name), '\x1b[%dm' % code, 'codes',
                              'ansi(%r)' % name)
            # text and bytes
            b = observe(to_bytes, text)
            if chk.returns(b, 'bytes', 'to_bytes(%r)' % text):
                chk.equal(b.value, text.encode('utf-8'), 'bytes',
                          'to_bytes(%r)' % text)
                t = observe(to_str, b.value)
                chk.equal(t.value, text, 'bytes', 'to_str(to_bytes(%r))' %
                          text)
            chk.equal(observe(to_str, text).value, text, 'bytes', 'to_str')
            raw = bytes(rng.randrange(256) for _ in range(rng.randrange(9)))
            t = observe(to_str, raw)
            if chk.returns(t, 'bytes', 'to_str(%r)' % raw):
                chk.equal(t.value, raw.decode('utf-8', 'replace'), 'bytes',
                          'to_str(%r)' % raw)
            chk.equal(observe(to_bytes, raw).value, raw, 'bytes',
                      'to_bytes(%r)' % raw)
            enc = rng.choice(['utf-16', 'latin-1', 'utf-8'])
            t = text.encode(enc, 'replace').decode(enc)
            o = observe(lambda: to_str(to_bytes(t, enc), enc))
            chk.equal(o.value, t, 'bytes', 'via %s' % enc)
            # objects as their text
            thing = Thing(text)
            o = observe(to_bytes, thing, enc)
            chk.equal(o.value, text.encode(enc, 'replace'), 'bytes',
                      'bytes of an object with text %r in %s' % (text, enc))
            chk.equal(observe(to_str, thing).value, text, 'bytes',
                      'text of an object with text %r' % text)
            for x in (rng.randrange(10 ** 6), None, 1.5, True, {}, (text,)):
                chk.equal((observe(to_str, x).value,
                           observe(to_bytes, x).value),
                          (str(x), str(x).encode('utf-8')), 'bytes',
                          'text and bytes of %r' % (x,))
            e = rng.choice([ValueError, KeyError, OSError])(text)
            t = observe(to_str, e)
            if chk.returns(t, 'bytes', 'to_str(exception)'):
                chk.check((repr(text) if isinstance(e, KeyError) else text)
                          .rstrip('\n') in t.value, 'bytes',
                          'to_str(%r) is %r' % (e, t.value))
            chk.count('converted')
            chk.case((level, text, color), sample=text,
                     nontrivial='@' in text or not text.isascii())
    finally:
        restore()


# --- P33 --------------------------------------------------------------

SCALARS = ['null', 'Null', '~', 'true', 'yes', 'No', 'on', 'y', 'n', '12',
           '0x1f', '017', '1e3', '1.5', '.5', '.inf', '-.inf', '.nan', '1:30',
           '2001-01-01', '2001-01-01 00:00:00', '=', '<<', '!x', '&x', '*x',
           '-', '--- ', '...', '?', ':', 'a: b', 'a:', ' a', 'a ', '', '#',
           'a #b', '%x', '@x', '`', '[', ']', '{a', 'a, b', "'", '"', '|',
           '>', '1_000', '+1', '0b1', 'x\ny', '\n', '\n\n', 'x\n', ' \n x',
           '\t', 'tab\tx', '\x85', '\u2028', 'ä', '日本', '🙂', '\x07', '\x00',
           '\x7f', '\ufeff', '\ufffe', 'a\r\nb', '\\', '\\n', 'word ' * 40,
           'x' * 500, "it's", 'a"b', '- a', '? a', '1.', '1.0', '-0', 'NaN',
           '0o7', '1e5', '12e03', '-1', 'null null', '~x', '2001-1-1']


# PyYAML itself does not write these inside of quotes in a way that it
# reads again as what they were
SEPARATORS = ('\x85', '\u2028', '\u2029')
SCALARS = [x for x in SCALARS if x not in SEPARATORS]


def data(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < .55:
        k = rng.randrange(10)
        if k < 5:
            return rng.choice(SCALARS)
        if k == 5:
            return any_text(rng, 5, no=SEPARATORS)
        if k == 6:
            return rng.choice([True, False, None])
        if k == 7:
            return rng.choice([0, 1, -1, 7, 8, 10 ** 18, -10 ** 30, 2 ** 64])
        return rng.choice([0.0, -0.0, 1.0, 1.5, 1e20, 1e-20, 1e300, .1,
                           float('inf'), float('-inf'), 123456789.123,
                           5e-324, 1e16, 1e15])
    if r < .75:
        return [data(rng, depth - 1) for _ in range(rng.randrange(5))]
    res = {}
    for _ in range(rng.randrange(5)):
        k = rng.choice(SCALARS) if rng.random() < .8 else rng.choice(
            [1, True, None, 2.5, any_text(rng, 4, no=SEPARATORS)])
        res[k] = data(rng, depth - 1)
    return res


def aliased(rng, d):
    """The same data, some parts being the same object."""
    part = data(rng, 2)
    k = rng.randrange(3)
    if k == 0:
        return [part, part, d, [part]]
    if k == 1:
        return {'a': part, 'b': part, 'c': {'d': part, 'e': d}}
    return {'a': [d, d], 'b': d}


def normal(d, ConfigDict=None):
    if isinstance(d, dict):
        return {k: normal(v) for k, v in d.items()}
    if isinstance(d, list):
        return [normal(v) for v in d]
    return d


def identical(a, b):
    """Equal, of the same types, including the sign of zero."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(identical, a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        types = {(type(k), k) for k in a}
        return types == {(type(k), k) for k in b} and all(
            identical(v, b[k]) for k, v in a.items())
    return a == b


YAML_BITS = ['a', 'b', ':', ' ', '\n', '- ', '? ', ': ', ', ', '[', ']', '{',
             '}', '&x ', '*x', '!!int ', '!!str ', '!!float ', '!!bool ',
             '!!null ', '!!set ', '!!omap ', '!!pairs ', '!!binary ',
             '!!timestamp ', '!!map ', '!!seq ', '!!python/object:os.x ',
             '!foo ', '"', "'", '\\', '\\x', '\\u12', '|', '>', '|2', '>-',
             '#', '%YAML 1.1\n', '%TAG ! x\n', '---\n', '...\n', '<<', '<<: ',
             '=', '~', 'null', 'yes', '0x', '0b', '1:99:99', '1', '.', '-',
             '+', '_', 'e9', '.inf', '2001-99-99', '2001-02-30',
             '2001-01-01t99:99:99', '2001-01-01 01:01:01 +99:99',
             '0001-01-01 00:00:00 +01:00', '9999-12-31 23:59:59 -01:00',
             '\t', '\0', '\x07', '\x85', '\ufeff', 'ä', '🙂', '@', '`', '  ',
             '\n  ', '\n- ', '&a [*a]', '{a: b}', '[a, b]', '1' * 40,
             '2001-01-01', '1' + ':59' * 200 + '.5', '0o', '08', '::', '!', '&', '*', '!<', '>', '!!']


def p33(chk):
    import yaml
    from xylem.config_utils import ConfigDict
    from xylem.yaml_utils import dump_yaml, load_yaml
    rng = chk.rng
    for i in chk.loop(2500, 80000):
        d = data(rng, rng.randrange(4))
        if rng.random() < .25:
            d = aliased(rng, d)
            chk.count('shared_parts')
        given = d
        if isinstance(d, dict) and rng.random() < .2 and all(
                isinstance(k, str) for k in d):
            given = ConfigDict(d)
            chk.count('config_dicts')
        before = repr(d)
        o = observe(dump_yaml, given)
        if not chk.returns(o, 'dump', 'dumping %s' % short(d)):
            continue
        text = o.value
        chk.check(isinstance(text, str), 'dump', 'dumped %r' % type(text))
        chk.equal(repr(d), before, 'dump', 'the data dumped')
        if d is None:
            back = observe(load_yaml, text)
            chk.check(back.ok and back.value is None, 'bare-null',
                      'null alone is dumped as %r, loading which %r' % (
                          text, back))
            continue
        back = observe(load_yaml, text)
        if chk.returns(back, 'round-trip', 'loading %r dumped from %s' % (
                text, short(d))):
            chk.check(identical(back.value, d), 'round-trip',
                      lambda: '%s dumped as %r gives %s' % (
                          short(d), text, short(back.value)))
        # judged by another parser as well
        other = observe(yaml.safe_load, text)
        if chk.returns(other, 'round-trip', 'parsing %r' % text):
            chk.check(identical(other.value, d), 'round-trip',
                      lambda: '%s dumped as %r parses as %s' % (
                          short(d), text, short(other.value)))
            try:
                events = list(yaml.parse(text))
            except yaml.YAMLError:
                events = []
            chk.check(not any(isinstance(e, yaml.AliasEvent)
                              for e in events), 'aliases',
                      'dumped with aliases: %r' % text)
            # lists are on one line
            stack = []
            for e in events:
                if isinstance(e, yaml.SequenceStartEvent):
                    stack.append((e, e.start_mark.line))
                elif isinstance(e, yaml.MappingStartEvent):
                    stack.append((None, None))
                elif isinstance(e, (yaml.SequenceEndEvent,
                                    yaml.MappingEndEvent)):
                    s, line = stack.pop()
                    if s is not None:
                        chk.count('lists')
                        chk.check(s.flow_style and
                                  e.end_mark.line == line or
                                  multi_line(d), 'inline',
                                  'list over several lines: %r' % text)
        again = observe(dump_yaml, back.value) if back.ok else None
        if again is not None:
            chk.check(again.ok and again.value == text, 'repeat',
                      lambda: 'dumped again %r, not %r' % (again, text))
        chk.count('round_trips')
        # loading arbitrary text
        for _ in range(3):
            t = ''.join(rng.choice(YAML_BITS)
                        for _ in range(rng.randrange(1, 10)))
            if rng.random() < .3 and len(text) > 1:
                k = rng.randrange(len(text))
                t = text[:k] + rng.choice(YAML_BITS) + text[
                    k + rng.randrange(3):]
            o = observe(load_yaml, t)
            if o.ok:
                chk.count('arbitrary_loaded')
            else:
                chk.raises(o, yaml.YAMLError, 'arbitrary', 'loading %r' % t)
                chk.count('arbitrary_rejected')
                ref = observe(yaml.safe_load, t)
                chk.check(not ref.ok, 'arbitrary', 'rejected %r, which is '
                          '%r' % (t, ref))
            if o.ok:
                ref = observe(yaml.safe_load, t)
                chk.check(ref.ok and repr(ref.value) == repr(o.value),
                          'arbitrary', lambda: 'loading %r gives %r instead '
                          'of %r' % (t, o, ref))
        chk.case(before, sample=short(d), nontrivial=isinstance(
            d, (list, dict)) and len(d) > 1)


def multi_line(d):
    """Texts with line breaks in quotes may need several lines."""
    if isinstance(d, dict):
        return any(multi_line(k) or multi_line(v) for k, v in d.items())
    if isinstance(d, list):
        return any(map(multi_line, d))
    return isinstance(d, str) and any(
        c in d for c in '\n\r\x85\u2028\u2029')


# --- P34 --------------------------------------------------------------

def same_again(chk, rng, exc_to_str, raise_from, types):
    """Chains in which the same error occurs more than once."""
    text = rng.choice(['tok', 'tok\ntok2 of it', 'tok: ä', 'tok2'])
    kinds = [rng.choice(types[:9])] * rng.randint(2, 4)
    where = []
    if rng.random() < .4:
        kinds.insert(rng.randint(0, len(kinds)), rng.choice(types[:9]))

    def build(k):
        if k == 0:
            raise kinds[0](text)
        try:
            build(k - 1)
        except Exception as e:
            raise_from(kinds[k], text, e)
    try:
        build(len(kinds) - 1)
    except Exception as e:
        where = e
    tb = rng.random() < .3
    o = observe(exc_to_str, where, tb=tb)
    if chk.returns(o, 'format', 'formatting equal errors'):
        shown = o.value
        want = text.count('tok') * len(kinds)
        chk.check(shown.count('tok') == want, 'messages', lambda: 'a chain of '
                  '%d errors with message %r is shown as %r' % (
                      len(kinds), text, shown), tb=tb)
        for k in set(kinds):
            n = len([x for x in kinds if issubclass(x, k)])
            chk.check(shown.count(k.__name__ + ': ') >= kinds.count(k),
                      'types', lambda: '%d of %s are shown in %r' % (
                          n, k, shown))
    chk.count('equal_messages')


def p34(chk):
    from xylem.exception import (XylemError, XylemInternalError,
                                 chain_exception, exc_to_str, raise_from)
    from xylem.config_utils import ConfigValueError
    from xylem.install import InstallError
    from xylem.load_url import DownloadFailure
    rng = chk.rng

    class Custom(XylemError):
        def __init__(self, msg):
            XylemError.__init__(self, msg)
            self.extra = 7

    class Multi(Exception):
        def __init__(self, msg, more='more'):
            Exception.__init__(self, msg, more)

    types = [XylemError, XylemInternalError, ConfigValueError, InstallError,
             DownloadFailure, Custom, ValueError, KeyError, RuntimeError,
             OSError, LookupError, Multi, EnvironmentError, TypeError]

    def message(token):
        r = rng.random()
        if r < .15:
            return '%s\nsecond line of it' % token
        if r < .3:
            return 'ä %s 日本' % token
        if r < .4:
            return token + ' %s {} @!'
        if r < .5:
            return rng.choice(['%s  ', '  %s \t', 'x %s\n  indented '
                               ]) % token
        return 'message %s here' % token

    def build(k, kinds, tokens, how):
        """Raise the k-th error, caused by the earlier ones."""
        if k == 0:
            if how[0] == 'natural':
                # an error as Python itself raises it
                {tokens[0]: 1}['key ' + tokens[0]]
            raise kinds[0](message(tokens[0]))
        try:
            build(k - 1, kinds, tokens, how)
        except Exception as e:
            if how[k] == 'raise_from':
                raise_from(kinds[k], message(tokens[k]), e)
            if how[k] == 'from':
                raise kinds[k](message(tokens[k])) from e
            exc = chain_exception(kinds[k], message(tokens[k]), e)
            assert exc is not None
            raise exc

    for i in chk.loop(2500, 80000):
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        tokens = ['tok%dx%dy' % (i, k) for k in range(n)]
        kinds = [rng.choice(types) for _ in range(n)]
        how = ['raise_from'] + [rng.choice(['raise_from', 'from', 'chain'])
                                for _ in range(n - 1)]
        if rng.random() < .2:
            how[0], kinds[0] = 'natural', KeyError
        try:
            build(n - 1, kinds, tokens, how)
        except Exception as e:
            exc = e
        raised = True
        if rng.random() < .2 and n < 6:
            # the last one is only created
            tokens.append('tok%dlast' % i)
            kinds.append(rng.choice(types))
            exc = chain_exception(kinds[-1], message(tokens[-1]), exc)
            raised = False
            n += 1
        if n > 1 and rng.random() < .2:
            # some of the causes were never raised
            e = exc.__cause__
            while e is not None:
                if rng.random() < .5:
                    e.__traceback__ = None
                    chk.count('without_traceback')
                e = e.__cause__
        # the chain itself
        chain, e = [], exc
        while e is not None:
            chain.insert(0, e)
            e = e.__cause__
        chk.equal([type(x) for x in chain], kinds, 'chain', 'errors in chain')
        for t, x in zip(tokens, chain):
            chk.check(t in str(x) or t in repr(x), 'chain',
                      'message of %r lost' % x)
        mode = rng.choice(['plain', 'plain', 'tb', 'tb', 'tb-object',
                           'unchained', 'unchained-tb', 'limit'])
        kw = {}
        if mode in ('tb', 'unchained-tb', 'limit'):
            kw['tb'] = True
        if mode == 'tb-object':
            kw['tb'] = exc.__traceback__
        if mode.startswith('unchained'):
            kw['chain'] = False
        if mode == 'limit':
            kw['limit'] = 1
        if mode == 'plain' and rng.random() < .3:
            kw['tb'] = rng.choice([None, False])
        where = rng.random() < .5
        if rng.random() < .2:
            # while another error is handled
            try:
                raise ValueError('another one')
            except ValueError:
                o = observe(exc_to_str, exc, **kw)
        elif where and raised:
            try:
                raise exc
            except Exception as e:
                o = observe(exc_to_str, e, **kw)
        else:
            o = observe(exc_to_str, exc, **kw)
        if not chk.returns(o, 'format', 'formatting %r (%s)' % (exc, kw)):
            continue
        text = o.value
        w = dict(mode=mode, kinds=[k.__name__ for k in kinds], text=text)
        # source lines in tracebacks do not contain the tokens
        shown = tokens[-1:] if mode.startswith('unchained') else tokens
        first = 'key ' + tokens[0] if how[0] == 'natural' else tokens[0]
        for x in chain[-len(shown):]:
            k = str(x).rstrip('\n')
            chk.check(k in text, 'messages', 'message %r is not shown as it '
                      'is (%s)' % (k, mode), **w)
        pos = []
        for t in shown:
            probe = first if t == tokens[0] else t
            chk.check(text.count(probe) == 1, 'messages',
                      'message of %s is shown %d times (%s)' % (
                          t, text.count(probe), mode), **w)
            pos.append(text.find(probe))
        chk.check(pos == sorted(pos), 'order', 'messages not from cause to '
                  'final error (%s)' % mode, **w)
        for t in tokens:
            if t not in shown:
                chk.check(t not in text, 'messages', 'message of a cause is '
                          'shown although chaining is off', **w)
        names = [k.__name__ for k in (kinds[-1:] if mode.startswith(
            'unchained') else kinds)]
        at = 0
        for nm in names:
            k = text.find(nm, at)
            if not chk.check(k >= 0, 'types', 'type %s not shown' % nm, **w):
                break
            at = k + len(nm)
        tbs = len(re.findall('^Traceback ', text, re.M))
        if mode in ('plain', 'unchained'):
            chk.check(tbs == 0 and '\n  File "' not in text, 'tracebacks',
                      'tracebacks that were not requested', **w)
        else:
            have = [x.__traceback__ is not None for x in chain]
            want = have[-1:] if mode.startswith('unchained') else have
            if not raised:
                # without a traceback of its own nothing is promised
                want = None
                chk.check(tbs <= sum(have), 'tracebacks', '%d tracebacks '
                          'shown, but there are %d (%s)' % (
                              tbs, sum(have), mode), **w)
            if want is not None:
                chk.equal(tbs, sum(want), 'tracebacks',
                          'tracebacks (%s)' % mode, **w)
            chk.count('with_tracebacks')
        if i % 8 == 0:
            same_again(chk, rng, exc_to_str, raise_from, types)
        if rng.random() < .1:
            # any argument is the only one
            arg = rng.choice([('a', 'b'), (), None, 3, ['x'], {'k': 1},
                              'text', ('a',)])
            e = chain_exception(ValueError, arg, exc)
            chk.check(e.args == (arg,) and e.__cause__ is exc, 'arguments',
                      'arguments of the error made from %r: %r' % (
                          arg, e.args))
            e = observe(raise_from, ValueError, arg, exc)
            chk.check(not e.ok and e.exc.args == (arg,) and
                      e.exc.__cause__ is exc, 'arguments', 'raising from %r '
                      'gives %r' % (arg, e))
        # nothing was changed by it
        e, now = exc, []
        while e is not None:
            now.insert(0, e)
            e = e.__cause__
        chk.check(len(now) == len(chain) and all(
            a is b for a, b in zip(now, chain)), 'chain',
            'formatting changed the chain')
        if n > 1:
            chk.count('chained')
        chk.count('mode_' + mode.split('-')[0])
        chk.case((kinds, how, mode, raised), sample=text, nontrivial=n > 1)


# --- P35 --------------------------------------------------------------

class Text(list):
    """What was written to stdout and stderr; compared by identity."""

    def __init__(self):
        list.__init__(self, ['', ''])

    __eq__ = object.__eq__
    __hash__ = object.__hash__


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def p35(chk):
    from xylem import util
    from xylem.log_utils import info, warning
    rng = chk.rng
    top = os.path.realpath(fresh_dir('scoped'))
    start = os.getcwd()
    dirs = []
    for n in range(5):
        d = os.path.join(top, 'dir %d' % n)
        os.makedirs(os.path.join(d, 'sub'))
        dirs.append(d)
    # as left by a program that changed its directory
    os.environ['PWD'] = top
    excs = [Boom, BaseBoom, KeyboardInterrupt, SystemExit, ValueError,
            OSError, StopIteration, GeneratorExit, MemoryError]
    tmp = os.path.realpath(tempfile.gettempdir())

    def cwd():
        return os.path.realpath(os.getcwd())

    def scope(depth, state):
        """Enter a random helper, do random things, leave."""
        kind = rng.choice(['cd', 'cd', 'tmp', 'tmp', 'io', 'io', 'cd-bad'])
        before = (cwd(), sys.stdout, sys.stderr)
        trace.append(kind)
        if kind == 'cd-bad':
            bad = rng.choice([os.path.join(top, 'missing'), '\0',
                              os.path.join(top, 'file')])
            o = observe(util.change_directory(bad).__enter__)
            chk.check(not o.ok, 'enter', 'entering %r' % bad)
            chk.check((cwd(), sys.stdout, sys.stderr) == before, 'enter',
                      'failing to enter %r changed something' % bad)
            return
        exc = None
        if rng.random() < .4:
            exc = rng.choice(excs)('leave %d' % depth)
            trace.append(type(exc).__name__)
        caught = None
        temp = None
        texts = None
        if kind == 'cd':
            d = rng.choice(dirs)
            arg = d if rng.random() < .6 else os.path.relpath(d, cwd())
            manager = util.change_directory(arg)
        elif kind == 'tmp':
            prefix = rng.choice(['', 'pre', 'xylem_', 'ä'])
            manager = util.temporary_directory(prefix) if prefix else \
                util.temporary_directory()
        else:
            manager = util.redirected_stdio()
        prior = os.getcwd()
        if kind != 'cd' and rng.random() < .4:
            # what counts is what is there when the code starts
            os.chdir(rng.choice(dirs))
            before = (cwd(), sys.stdout, sys.stderr)
        elif kind == 'cd' and arg == d and rng.random() < .4:
            os.chdir(rng.choice(dirs))
            before = (cwd(), sys.stdout, sys.stderr)
        gone = None
        if (kind == 'tmp' or kind == 'cd' and arg == d) and \
                rng.random() < .1:
            # the directory that was left does not exist any more
            gone = os.path.join(top, 'gone%d' % depth)
            os.mkdir(gone)
            os.chdir(gone)
            before = (cwd(), sys.stdout, sys.stderr)
        try:
            with manager as value:
                if kind == 'cd':
                    chk.equal(cwd(), d, 'effect', 'directory inside')
                    chk.equal((sys.stdout, sys.stderr), before[1:], 'effect',
                              'streams inside')
                elif kind == 'tmp':
                    temp = os.path.realpath(value)
                    chk.check(os.path.isdir(temp) and not os.listdir(temp),
                              'effect', 'temporary directory %r is new and '
                              'empty' % temp)
                    chk.check(temp not in state['temps'] and os.path.dirname(
                        temp) == tmp and os.path.basename(temp).startswith(
                            prefix), 'effect', 'temporary directory %r in %r'
                        % (temp, tmp))
                    chk.check(stat.S_IMODE(os.stat(temp).st_mode) == 0o700,
                              'effect', 'mode of temporary directory')
                    chk.equal(cwd(), temp, 'effect', 'directory inside')
                    state['temps'].add(temp)
                else:
                    out, err = value
                    chk.check(sys.stdout is out and sys.stderr is err and
                              out is not before[1], 'effect', 'streams')
                    chk.equal(cwd(), before[0], 'effect', 'directory')
                    texts = Text()
                    state['io'].append(texts)
                # use it
                for _ in range(rng.randrange(4)):
                    r = rng.choice(['print', 'info', 'err', 'file', 'cd',
                                    'nested', 'nested', 'nested'])
                    t = any_text(rng, 4, no='\r')
                    trace.append(r)
                    if r == 'print':
                        print(t)
                        state['io'][-1][0] += t + '\n'
                    elif r == 'err':
                        sys.stderr.write(t)
                        state['io'][-1][1] += t
                    elif r == 'info' and texts is not None:
                        k = out.tell()
                        info(t)
                        texts[0] += out.getvalue()[k:]
                        chk.check(t in out.getvalue()[k:], 'captured',
                                  'info(%r) is captured' % t)
                    elif r == 'file' and kind == 'tmp':
                        p = os.path.join(temp, 'f%d' % rng.randrange(3))
                        if rng.random() < .3:
                            os.makedirs(p + 'd/x/y', exist_ok=True)
                            p += 'd/x/f'
                        if not os.path.exists(p):
                            write(p, 'x')
                            if rng.random() < .3:
                                os.chmod(p, 0o400)
                        if rng.random() < .3 and not os.path.lexists(
                                os.path.join(temp, 'link')):
                            os.symlink(top, os.path.join(temp, 'link'))
                        chk.count('files_in_temporary_directories')
                    elif r == 'cd' and kind in ('cd', 'tmp'):
                        os.chdir(rng.choice([top, '/', dirs[0] + '/sub']))
                    elif r == 'nested' and depth < 5:
                        scope(depth + 1, state)
                if kind == 'tmp' and rng.random() < .15:
                    os.chdir(top)
                    import shutil
                    shutil.rmtree(temp)
                    chk.count('removed_early')
                if gone:
                    os.rmdir(gone)
                    chk.count('origin_removed')
                if texts is not None:
                    chk.equal((out.getvalue(), err.getvalue()),
                              tuple(texts), 'captured', 'captured output')
                if exc is not None:
                    raise exc
        except BaseException as e:
            caught = e
        if exc is not None:
            chk.check(caught is exc, 'exception', '%r passes through %s as '
                      '%r' % (exc, kind, caught), trace=list(trace))
            chk.count('exceptions')
        elif caught is not None:
            import common
            if isinstance(caught, common.Enough):
                raise caught
            chk.check(False, 'exception', 'leaving %s raised %r' % (
                kind, caught), trace=list(trace))
        w = dict(trace=list(trace))
        if kind == 'io':
            state['io'].remove(texts)
            # only the streams are restored
            chk.check(sys.stdout is before[1] and sys.stderr is before[2],
                      'restored', 'streams after %s' % kind, **w)
            print('later')
            state['io'][-1][0] += 'later\n'
            chk.equal((out.getvalue(), err.getvalue()), tuple(texts),
                      'captured', 'output after leaving is not captured')
        else:
            if not gone:
                chk.equal(cwd(), before[0], 'restored', 'directory after %s'
                          % kind, **w)
            chk.check(sys.stdout is before[1] and sys.stderr is before[2],
                      'restored', 'streams after %s' % kind, **w)
        if temp:
            chk.check(not os.path.lexists(temp), 'removed',
                      'temporary directory %r is gone' % temp, **w)
            chk.count('temporary_directories')
        os.chdir(prior)
        state['max'] = max(state['max'], depth)
        chk.count('scopes')

    write(os.path.join(top, 'file'), 'x')
    outer = tree(top)
    real = sys.stdout, sys.stderr
    try:
        for i in chk.loop(700, 25000):
            trace = []
            os.chdir(rng.choice(dirs + [top]))
            here = cwd()
            state = dict(temps=set(), max=0, io=[Text()])
            sink = sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            scope(1, state)
            chk.check((sys.stdout, sys.stderr) == sink, 'restored',
                      'streams at the end', trace=trace)
            chk.equal(cwd(), here, 'restored', 'directory at the end',
                      trace=trace)
            sys.stdout, sys.stderr = real
            if state['max'] > 2:
                chk.count('deeply_nested')
            if i % 50 == 0:
                chk.equal(tree(top), outer, 'removed',
                          'files of others when removing temporary ones')
                left = [t for t in state['temps'] if os.path.exists(t)]
                chk.equal(left, [], 'removed', 'temporary directories')
                d = observe(util.create_temporary_directory, top)
                if chk.returns(d, 'create', 'create_temporary_directory'):
                    chk.check(os.path.isdir(d.value) and os.path.dirname(
                        os.path.realpath(d.value)) == top, 'create',
                        'directory %r' % d.value)
                    os.rmdir(d.value)
            chk.case(trace, sample=trace, nontrivial=state['max'] > 1)
    finally:
        sys.stdout, sys.stderr = real
        os.chdir(start)
