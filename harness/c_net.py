"""P14: downloads, observed against a scripted loopback server."""
import http.server
import os
import random
import socket
import socketserver
import struct
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from common import fresh_dir, observe, short, write

TEXTS = ['', 'a: b\n', 'käse ☃ 𝄞\n', '- ' * 3000, 'x\r\ny\n', '\ufefffoo',
         'Ä', '- ü\n' * 9]
CHARSETS = [None, None, None, None, 'utf-8', 'UTF-8', 'iso-8859-1', 'utf-16',
            'cp1252', 'ascii', 'utf-8-sig', 'koi8-r', 'latin-1', 'Latin-1',
            'LATIN1', 'utf8', 'ISO-8859-15', 'windows-1252', 'UTF-16LE',
            'us-ascii', 'shift_jis', 'gbk',
            'big5', 'cp437', 'macroman', 'utf-32', 'l1', 'iso8859-2']
BAD_CHARSETS = ['nope', 'utf-99', 'rot13', 'idna', 'x' * 300]


class Script(object):
    """Responses to the successive requests for one path."""

    def __init__(self, steps):
        self.steps = steps
        self.times = []
        self.paths = []
        self.gone = threading.Event()


class Handler(http.server.BaseHTTPRequestHandler):

    def log_message(self, *a):
        pass

    def do_GET(self):
        name = self.path.split('/')[1]
        script = self.server.scripts[name]
        i = len(script.times)
        script.times.append(time.time())
        script.paths.append(self.path)
        step = script.steps[min(i, len(script.steps) - 1)]
        self.close_connection = True
        kind = step[0]
        if kind == 'status':
            _, code, body, ctype, extra = step
            self.send_response(code)
            if ctype is not None:
                self.send_header('Content-Type', ctype)
            for k, v in extra:
                self.send_header(k, v)
            self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            self.wfile.write(body)
        elif kind == 'chunked':
            self.wfile.write(b'HTTP/1.1 200 OK\r\n'
                             b'Transfer-Encoding: chunked\r\n\r\n')
            body = step[1]
            for j in range(0, len(body), 700):
                part = body[j:j + 700]
                self.wfile.write(b'%x\r\n%s\r\n' % (len(part), part))
            self.wfile.write(b'0\r\n\r\n' if step[2] else b'20\r\nabc')
        elif kind == 'stall':           # no response at all
            script.gone.wait(30)
        elif kind == 'stall-body':
            self.send_response(200)
            self.send_header('Content-Length', '1000')
            self.end_headers()
            self.wfile.write(b'partial')
            self.wfile.flush()
            script.gone.wait(30)
        elif kind == 'short-body':
            self.send_response(200)
            self.send_header('Content-Length', '1000')
            self.end_headers()
            self.wfile.write(b'partial')
        elif kind == 'close':
            pass
        elif kind == 'reset':
            self.request.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                    struct.pack('ii', 1, 0))
            self.request.close()
        elif kind == 'garbage':
            self.wfile.write(step[1])

    def finish(self):
        try:
            http.server.BaseHTTPRequestHandler.finish(self)
        except (OSError, ValueError):
            pass


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 128

    def handle_error(self, request, client_address):
        pass


GARBAGE = [b'\r\n', b'nonsense\r\n\r\n', b'HTTP/1.1 abc OK\r\n\r\n',
           b'HTTP/1.1 200 OK\r\n' + b'X: y\r\n' * 300 + b'\r\n',
           b'HTTP/1.1 200 OK\r\nA: ' + b'x' * 70000 + b'\r\n\r\n',
           b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n']


def ok_step(rng):
    """A successful response and the text it stands for."""
    if rng.random() < .15:
        text = rng.choice(TEXTS)
        return ('chunked', text.encode('utf-8'), True), text
    charset = rng.choice(CHARSETS)
    text = rng.choice(TEXTS)
    try:
        text.encode(charset or 'utf-8')
    except UnicodeEncodeError:
        text = rng.choice(['käse ÿ ' * rng.randint(0, 9), 'ключ', '日本語',
                           'Łódź', 'key: x\n'])
    body = text.encode(charset or 'utf-8', 'ignore')
    if rng.random() < .3:
        # whatever the declared encoding makes of these bytes
        body = rng.choice([body, b'']) + bytes(rng.choice(
            [rng.randrange(256), rng.randrange(128), 0xc3, 0x81])
            for _ in range(rng.randint(1, 9)))
    text = body.decode(charset or 'utf-8', 'replace')
    if charset is None:
        ctype = rng.choice([None, 'text/plain', 'application/x-yaml; q=1',
                            'text/html', 'text/yaml', 'application/json',
                            'text/html; q=0.5', 'application/octet-stream',
                            'image/png', 'text/xml'])
    else:
        ctype = rng.choice(['text/plain; charset=%s', 'text/x; a=b; '
                            'charset="%s"', 'text/plain;charset=%s',
                            'text/html; charset=%s', 'application/json; '
                            'charset=%s; q=1', 'text/html; Charset=%s'])
        ctype %= charset
    return ('status', 200, body, ctype, []), text


def fatal_step(rng):
    k = rng.randrange(7)
    if k <= 1:
        code = rng.choice([400, 401, 403, 404, 408, 410, 429, 500, 501, 502,
                           504, 505])
        return ('status', code, b'error page', 'text/plain', [])
    if k == 2:
        return ('short-body',)
    if k == 3:
        return ('close',)
    if k == 4:
        return ('reset',)
    if k == 5:
        return ('garbage', rng.choice(GARBAGE))
    return ('chunked', b'abc' * 300, False)


def retry_step(rng):
    k = rng.randrange(8)
    if k == 0:
        return ('stall',)
    if k == 1:
        return ('stall-body',)
    return ('status', 503, b'busy', None,
            [('Retry-After', '0')] if k == 2 else [])


class Case(object):
    pass


def gen_case(rng):
    """Script, arguments and the specified outcome."""
    c = Case()
    c.retry = rng.choice([0, 0, 1, 2, 3, 5, -1, -7])
    budget = max(c.retry, 0)
    failures = rng.randint(0, budget + 2)
    steps = [retry_step(rng) for _ in range(failures)]
    c.waits = sum(s[0].startswith('stall') for s in steps)
    end = rng.random()
    c.text = None
    if end < .55:
        last, text = ok_step(rng)
        good = True
    elif end < .65:
        last = ('status', 200, b'x', 'text/plain; charset=%s' %
                rng.choice(BAD_CHARSETS), [])
        good = False
    else:
        last, good = fatal_step(rng), False
    steps.append(last)
    c.steps = steps
    if failures <= budget:
        c.requests = failures + 1
        if good:
            c.text = text
    else:
        c.requests = budget + 1
    c.retried = min(failures, budget)
    return c


def run_case(server, name, c, timeout, period):
    from xylem.load_url import load_url
    script = server.scripts[name] = Script(c.steps)
    url = 'http://127.0.0.1:%d/%s/some%%20file?x=y' % (
        server.server_address[1], name)
    kw = {}
    if c.retry != 2:
        kw['retry'] = c.retry
    t0 = time.time()
    try:
        out = observe(load_url, url, retry_period=period, timeout=timeout,
                      **kw)
    finally:
        script.gone.set()
    out.elapsed = time.time() - t0
    out.script = script
    out.url = url
    return out


def judge(out, c, timeout, period):
    """None, or what is wrong."""
    from xylem.load_url import DownloadFailure
    times = list(out.script.times)
    if c.text is not None:
        if not out.ok:
            return 'outcome', 'expected the content, but it %r' % out
        if out.value != c.text or not isinstance(out.value, str):
            return 'content', 'got %s, expected %s' % (
                short(out.value, 200), short(c.text, 200))
    else:
        if out.ok:
            return 'outcome', 'expected a failure, but it %r' % out
        if not isinstance(out.exc, DownloadFailure):
            return 'exception', 'expected a download failure, but it %r' % out
        if out.url not in str(out.exc):
            return 'named', 'the failure of %s does not name it: %r' % (
                out.url, out)
    if len(times) != c.requests:
        return 'requests', '%d requests instead of %d' % (len(times),
                                                          c.requests)
    for a, b in zip(times, times[1:]):
        if b - a < period * .9:
            return 'period', 'retried after %.3f s' % (b - a)
    return None


def https(kind, retry, timeout=.5):
    """Load from a server that fails in the handshake."""
    from xylem.load_url import load_url
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    s.listen(50)
    seen = []

    def serve():
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            seen.append(c)
            try:
                if kind == 'garbage':
                    c.sendall(b'HTTP/1.1 400 Bad Request\r\n\r\n')
                if kind in ('reset', 'close', 'garbage'):
                    c.recv(4000)
                if kind == 'reset':
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                 struct.pack('ii', 1, 0))
                if kind != 'stall':
                    c.close()
            except OSError:
                pass

    t = threading.Thread(target=serve, daemon=True)
    t.start()
    try:
        out = observe(load_url, 'https://127.0.0.1:%d/x' % s.getsockname()[1],
                      retry=retry, retry_period=.02, timeout=timeout)
    finally:
        n = len(seen)
        try:
            s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        s.close()
        for c in seen:
            c.close()
        t.join(5)
    return out, n


BAD_URLS = ['', 'foo', '/etc/hostname', 'http://', 'http:///x', 'http://[::1',
            'http://127.0.0.1:port/', 'unknown://x/y', 'mailto:a@b',
            'http://127.0.0.1:9/a b\n', 'http://127.0.0.1:1/\u00e4',
            'http://a..b/', 'http://nosuch.invalid/x', '://', 'file://',
            'file:///nonexistent/file', 'file://otherhost/x', 'http://\u2603/',
            'data:text/plain;base64,###', 'http://127.0.0.1:99999/',
            'http://%/', 'ftp://127.0.0.1:1/x', 'file:relative', 'http:x',
            'https://127.0.0.1:1/', 'http://user:pw@127.0.0.1:1/', 'file:///']


def p14(chk):
    from xylem.load_url import load_url, DownloadFailure
    rng = chk.rng
    server = Server(('127.0.0.1', 0), Handler)
    server.scripts = {}
    thread = threading.Thread(target=server.serve_forever, daemon=True)
    thread.start()
    pool = ThreadPoolExecutor(16)

    # 1. scripted responses
    cases = [gen_case(random.Random(rng.random()))
             for _ in range(chk.n(900, 9000))]
    fast = (.5, .02)

    def go(i):
        return run_case(server, 'c%d' % i, cases[i], *fast)
    for i, out in enumerate(pool.map(go, range(len(cases)))):
        c = cases[i]
        wrong = judge(out, c, *fast)
        for attempt in range(2):
            if not wrong:
                break
            # a loaded machine may time out too early; this one cannot
            chk.count('cases_repeated')
            slow = (4 if c.waits else 20, .2)
            out = run_case(server, 'r%d_%d' % (i, attempt), c, *slow)
            wrong = judge(out, c, *slow)
        chk.count('requests', len(out.script.times))
        chk.count('retries', c.retried)
        chk.count('timeouts', c.waits)
        chk.count('successes' if c.text is not None else 'failures')
        if c.text is not None and c.retried:
            chk.count('successes_after_retries')
        chk.case((c.retry, [s[:2] for s in c.steps]),
                 '%r with retry=%d: %d requests' % (
                     [s[0:2] for s in c.steps], c.retry, c.requests),
                 nontrivial=c.retried > 0 or c.text is None)
        if wrong:
            chk.violate('download-' + wrong[0], wrong[1], retry=c.retry,
                        steps=repr(c.steps)[:1500])

    # 2. the default number of retries and their period
    for k in range(chk.n(2, 6)):
        n = 2 + k % 2
        script = server.scripts['d%d' % k] = Script(
            [('status', 503, b'', None, [])] * n +
            [('status', 200, b'fine', None, [])])
        out = observe(load_url, 'http://127.0.0.1:%d/d%d' % (
            server.server_address[1], k))
        chk.check(out.ok == (n <= 2) and len(script.times) == 3,
                  'download-default', 'with defaults and %d times 503: %r '
                  'after %d requests' % (n, out, len(script.times)))
        gaps = [b - a for a, b in zip(script.times, script.times[1:])]
        chk.check(all(g > .9 for g in gaps), 'download-default',
                  'with defaults retried after %r s' % gaps)
        chk.count('default_arguments')

    # 3. redirects
    port = server.server_address[1]
    for k in range(chk.n(12, 60)):
        name = 'e%d' % k
        kind = rng.choice(['once', 'twice', 'loop', 'file', 'lost', 'busy'])
        text = rng.choice(TEXTS)
        fine = ('status', 200, text.encode('utf-8'), None, [])
        to = {'once': '/%s-b/' % name, 'twice': '/%s-a/' % name,
              'loop': '/%s/' % name, 'file': 'file:///etc/hostname',
              'lost': '/%s-c/' % name, 'busy': '/%s-d/' % name}[kind]
        code = rng.choice([301, 302, 303, 307])

        def redirect(to):
            return ('status', code, b'', None, [('Location', to)])
        server.scripts[name] = Script([redirect(to)])
        server.scripts[name + '-a'] = Script([redirect('/%s-b/' % name)])
        server.scripts[name + '-b'] = Script([fine])
        server.scripts[name + '-c'] = Script(
            [('status', 404, b'', None, [])])
        server.scripts[name + '-d'] = Script(
            [('status', 503, b'', None, []), fine])
        out = observe(load_url, 'http://127.0.0.1:%d/%s/' % (port, name),
                      retry=1, retry_period=.01, timeout=20)
        chk.count('redirects')
        if kind in ('once', 'twice', 'busy'):
            if chk.returns(out, 'download-redirect', 'redirect %s' % kind):
                chk.equal(out.value, text, 'download-redirect', 'content')
        else:
            chk.raises(out, DownloadFailure, 'download-redirect',
                       'redirect %s' % kind)
        chk.case(('redirect', kind, code, text))

    # 4. files
    d = fresh_dir('files')
    for k in range(chk.n(10, 60)):
        text = rng.choice(TEXTS)
        p = write(os.path.join(d, 'f%d.yaml' % k), text)
        out = observe(load_url, 'file://' + p)
        if chk.returns(out, 'download-file', 'loading a file'):
            chk.equal(out.value, text, 'download-file', 'content of file')
        os.unlink(p)
        chk.raises(observe(load_url, 'file://' + p), DownloadFailure,
                   'download-file', 'removed file')
        chk.raises(observe(load_url, 'file://' + d), DownloadFailure,
                   'download-file', 'directory')
        chk.count('files')
        chk.case(('file', text, k))

    # 5. URLs that cannot be loaded
    urls = list(BAD_URLS)
    alphabet = ':/?#[]@!$%ab1. \n\t\\\u00e4{}'
    for _ in range(chk.n(150, 3000)):
        head = rng.choice(['', 'http:', 'http://', 'file:', 'http://[',
                           'https://', 'x:', 'http://127.0.0.1:1/'])
        urls.append(head + ''.join(rng.choice(alphabet) for _ in
                                   range(rng.randint(0, 12))))
    listening = str(port)

    def bad(url):
        return observe(load_url, url, retry=0, retry_period=.01, timeout=5)
    urls = [u for u in urls if listening not in u]
    for url, out in zip(urls, pool.map(bad, urls)):
        chk.count('bad_urls')
        if not out.ok:
            chk.raises(out, DownloadFailure, 'download-bad-url',
                       'loading %r' % url)
            chk.check(url in str(out.exc), 'download-named', 'failure of %r '
                      'does not name it: %r' % (url, out))
        chk.case(('url', url))

    # 6. connections that are refused or never accepted
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    url = 'http://127.0.0.1:%d/' % s.getsockname()[1]
    t0 = time.time()
    chk.raises(observe(load_url, url, retry=3, retry_period=3, timeout=5),
               DownloadFailure, 'download-refused', 'refused connection')
    chk.check(time.time() - t0 < 8, 'download-refused',
              'a refused connection was retried')
    s.listen(0)
    held = []
    for _ in range(4):
        h = socket.socket()
        h.setblocking(False)
        h.connect_ex(s.getsockname())
        held.append(h)
    time.sleep(.1)
    for retry in (0, 2):
        connect, waits = socket.create_connection, []

        def recording(address, timeout=None, *args, **kw):
            if isinstance(timeout, (int, float)):
                waits.append(timeout)
            return connect(address, timeout, *args, **kw)

        socket.create_connection = recording
        t0 = time.time()
        try:
            out = observe(load_url, url, retry=retry, retry_period=.05,
                          timeout=.3)
        finally:
            socket.create_connection = connect
        dt = time.time() - t0
        chk.check(all(t < .35 for t in waits), 'download-timeout',
                  lambda: 'connections time out after %r s' % waits)
        chk.count('timeouts_recorded', len(waits))
        if chk.raises(out, DownloadFailure, 'download-timeout',
                      'connection not accepted'):
            chk.check(dt >= .25 * (retry + 1), 'download-timeout',
                      'gave up after %.2f s with retry=%d' % (dt, retry))
        chk.count('connect_timeouts')
    for h in held + [s]:
        h.close()

    # 7. encrypted connections that fail before any response
    for k in range(chk.n(8, 40)):
        kind = ['reset', 'close', 'garbage', 'stall'][k % 4]
        retry = rng.choice([0, 1, 2, 3])
        out, seen = https(kind, retry)
        if kind == 'stall' and seen != retry + 1 or \
                kind != 'stall' and seen != 1:
            out, seen = https(kind, retry, 8)
        chk.count('failed_handshakes')
        chk.raises(out, DownloadFailure, 'download-handshake',
                   'handshake ending in %s' % kind)
        chk.equal(seen, retry + 1 if kind == 'stall' else 1,
                  'download-handshake', 'connections made with retry=%d when '
                  'the handshake ends in %s' % (retry, kind))
        chk.case(('https', kind, retry, k))
    pool.shutdown()
    server.shutdown()
