"""Closed WSGI environment: environ builder, recording server side, PEP 3333 rules."""
import io
import re
import zlib

from .core import Violation


class Errors:
    """wsgi.errors that records."""
    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('wsgi.errors.write() takes str')
        self.parts.append(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def flush(self):
        pass

    @property
    def text(self):
        return ''.join(self.parts)


def environ(path='/', method='GET', qs='', body=b'', headers=None, stream=None, **kw):
    """path is text; it is encoded as the server does (utf8 bytes as latin1).  Give raw_path for other bytes."""
    raw = kw.pop('raw_path', None)
    if raw is None:
        raw = path.encode('utf8', 'surrogateescape').decode('latin1')
    e = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': raw, 'QUERY_STRING': qs,
        'SERVER_NAME': 'localhost', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'HTTP_HOST': 'localhost',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
        'wsgi.input': stream if stream is not None else io.BytesIO(body),
        'wsgi.errors': Errors(),
        'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
    }
    if body and 'CONTENT_LENGTH' not in kw:
        e['CONTENT_LENGTH'] = str(len(body))
    for k, v in (headers or {}).items():
        k = k.upper().replace('-', '_')
        e[k if k in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + k] = v
    for k, v in kw.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k.replace('__', '.')] = v
    return e


class Response:
    def __init__(self):
        self.starts = []        # (status, headers, exc_info is None)
        self.body = b''
        self.chunks = []
        self.iter_error = None
        self.escaped = None     # exception that escaped app()
        self.late_start = False
        self.problems = []

    @property
    def status(self):
        return self.starts[-1][0] if self.starts else None

    @property
    def code(self):
        try:
            return int(self.status.split(' ', 1)[0])
        except Exception:   # noqa
            return None

    @property
    def headers(self):
        return self.starts[-1][1] if self.starts else []

    def header(self, name, default=None):
        for k, v in self.headers:
            if isinstance(k, str) and k.lower() == name.lower():
                return v
        return default

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def key(self):
        return (self.status, tuple(sorted(map(tuple, self.headers))), self.body)


def call(app, env, close=True, max_chunks=100000):
    """Serve one request like a WSGI server does."""
    r = Response()

    def write(data):
        r.chunks.append(data)

    def start_response(status, headers, exc_info=None):
        r.starts.append((status, list(headers) if isinstance(headers, list) else headers, exc_info))
        return write
    it = None
    try:
        it = app(env, start_response)
    except Exception as e:   # noqa
        r.escaped = e
        return r
    r.iterable = it
    try:
        n = 0
        for c in it:
            r.chunks.append(c)
            n += 1
            if n > max_chunks:
                raise Violation('response iterable does not end')
    except Violation:
        raise
    except Exception as e:   # noqa
        r.iter_error = e
    finally:
        if close:
            c = getattr(it, 'close', None)
            if c:
                try:
                    c()
                except Exception as e:   # noqa
                    r.problems.append('close() raised %r' % e)
    try:
        r.body = b''.join(r.chunks)
    except TypeError:
        r.problems.append('response iterable yielded non-bytes: %r' % [type(c) for c in r.chunks])
    # exc_info keeps frames alive
    r.starts = [(s, h, e is not None) for s, h, e in r.starts]
    return r


_status_re = re.compile(r'^[1-9][0-9][0-9] [^\x00-\x1f\x7f]*$')
_token_re = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
_hop = {'connection', 'keep-alive', 'proxy-authenticate', 'proxy-authorization', 'te', 'trailers',
        'transfer-encoding', 'upgrade'}


def pep3333_problems(r, method, names=True):
    """What an independent validator finds wrong with the response (list of strings)."""
    out = list(r.problems)
    if r.escaped is not None:
        return out + ['exception escaped to the server: %r' % (r.escaped,)]
    if len(r.starts) != 1:
        return out + ['start_response called %d times' % len(r.starts)]
    status, headers, _ = r.starts[0]
    if type(status) is not str or not _status_re.match(status):
        out.append('malformed status line %r' % (status,))
    else:
        try:
            status.encode('latin1')
        except UnicodeError:
            out.append('status line not latin-1: %r' % status)
    if type(headers) is not list:
        return out + ['headers is not a list']
    for h in headers:
        if type(h) is not tuple or len(h) != 2:
            out.append('header is not a pair: %r' % (h,))
            continue
        k, v = h
        if type(k) is not str or type(v) is not str:
            out.append('header with non-native-string: %r' % (h,))
            continue
        if names and not _token_re.match(k):
            out.append('malformed header name %r' % k)
        try:
            v.encode('latin1')
        except UnicodeError:
            out.append('header value not latin-1: %r' % (h,))
        if re.search('[\x00\r\n]', v):
            out.append('control character in header value: %r' % (h,))
    if type(r.iterable) in (str,):
        out.append('a str was returned as iterable')
    for c in r.chunks:
        if type(c) is not bytes:
            out.append('non-bytes chunk %r' % type(c))
            break
    if out:
        return out
    code = r.code
    nobody = method.upper() == 'HEAD' or code < 200 or code in (204, 304)
    if nobody and r.body:
        out.append('%s response to %s carries a body of %d bytes' % (code, method, len(r.body)))
    return out


def content_length(r):
    v = r.header_all('Content-Length')
    return v


class Stream:
    """wsgi.input that answers read(n) by a plan and records every call."""

    def __init__(self, data, plan=None, default='full', limit=None):
        self.data = data
        self.pos = 0
        self.plan = list(plan or ())
        self.reads = []        # (asked, given)
        self.default = default
        self.bad = None
        self.limit = limit

    def _give(self, n):
        rest = len(self.data) - self.pos
        m = min(n, rest)
        if self.plan:
            m = min(m, max(1, self.plan.pop(0))) if m else 0
        elif self.default == 'one':
            m = min(1, m)
        return m

    def read(self, n=None):
        if n is None or n < 0:
            self.bad = 'read(%r)' % (n,)
            n = len(self.data) - self.pos
            out = self.data[self.pos:]
            self.pos = len(self.data)
            self.reads.append((None, len(out)))
            return out
        m = self._give(n)
        out = self.data[self.pos:self.pos + m]
        self.pos += m
        self.reads.append((n, m))
        return out

    def readline(self, n=-1):
        i = self.data.find(b'\n', self.pos)
        end = len(self.data) if i < 0 else i + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        else:
            self.bad = 'readline()'
        out = self.data[self.pos:end]
        self.pos = end
        self.reads.append((n, len(out)))
        return out

    def readlines(self, hint=None):
        self.bad = 'readlines()'
        out = self.data[self.pos:].splitlines(True)
        self.pos = len(self.data)
        return out

    def __iter__(self):
        self.bad = 'iteration'
        return iter(self.readlines())


class ChoiceStream(Stream):
    """Every read asks the explorer how many of the min(n, rest) bytes to give."""

    def __init__(self, data, ch, opts=None):
        super().__init__(data)
        self.ch = ch
        self.opts = opts

    def _give(self, n):
        m = min(n, len(self.data) - self.pos)
        if m <= 1:
            return m
        # choice 0 = full read, k = only m-k bytes ... 1 byte last
        if self.opts:
            alts = [m] + [o for o in self.opts(m) if 0 < o < m]
            return alts[self.ch.pick(len(alts))]
        return m - self.ch.pick(m)


# --------------------------------------------------------------------------- applications
def app_variants():
    """Configurations that make no difference to routing, dispatch and the shape of answers."""
    import ombott

    class Sub(ombott.Ombott):
        """an application class of the user"""

    def setup(cfg):
        a = ombott.Ombott()
        a.setup(cfg)
        return a
    return [lambda: ombott.Ombott(), lambda: ombott.Ombott(dict(debug=True)), lambda: Sub(), lambda: ombott.Ombott(dict(allow_x_script_name=True)),
            lambda: ombott.Ombott(dict(domain_map=lambda host: None, app_name_header='HTTP_X_NO_APP')),
            lambda: ombott.Ombott(dict(max_body_size=1 << 20, max_memfile_size=64)), lambda: setup(dict(debug=True, max_memfile_size=128)), lambda: setup(None)]


def app_for(case):
    """A new application, its configuration chosen by the case."""
    v = app_variants()
    return v[zlib.crc32(repr(case).encode('utf8', 'backslashreplace')) % len(v)]()
