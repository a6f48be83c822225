"""Requests, observation and baselines of the concurrency checks (C08, C10)."""
import os
import shutil
import tempfile
import threading

from .wsgi import environ
from . import core

LOCAL = threading.local()


class Boom(Exception):
    pass


def note(*what):
    """What a handler sees, kept per thread."""
    log = getattr(LOCAL, 'log', None)
    if log is None:
        return
    log.append(what)
    hook = LOCAL.hook
    if hook is not None:
        LOCAL.hook = None
        try:
            hook(len(log))
        finally:
            LOCAL.hook = hook
            LOCAL.log = log


FILES = None


def make_files():
    global FILES
    FILES = tempfile.mkdtemp(prefix='verif-conc-')
    for t in 'ABC':
        with open(os.path.join(FILES, t + '.txt'), 'w') as f:
            f.write('file of ' + t)
        os.utime(os.path.join(FILES, t + '.txt'), (1e9, 1e9))


def drop_files():
    global FILES
    if FILES:
        shutil.rmtree(FILES, ignore_errors=True)
    FILES = None


def mp(t):
    b = t.encode()
    return (b'--b' + b + b'\r\nContent-Disposition: form-data; name="t"\r\n\r\ntext' + b + b'\r\n--b' + b +
            b'\r\nContent-Disposition: form-data; name="f"; filename="n' + b + b'"\r\nContent-Type: x/' + b + b'\r\n\r\ndata' + b + b'\r\n--b' + b + b'--\r\n')


J = {'Accept': 'application/json'}


def request(kind, t):
    """environ of a request of this kind; t (a letter) is in every part of it"""
    b = t.encode()
    q = 'q=' + t
    c = {'Cookie': 'c=%s; d%s=1' % (t, t), 'X-In': 'in' + t}
    cj = dict(c, **J)

    def e(path, method='GET', h=c, **kw):
        return environ(path, method, q, headers=h, **kw)
    if kind in PLAIN:
        return e('/' + kind)
    if kind.endswith('.json') and kind[:-5] in PLAIN:
        return e('/' + kind[:-5], h=cj)
    if kind == 'full':
        return e('/full/' + t)
    if kind == 'args':
        return e('/args/%s/%d/%s/x' % (t, ord(t), t), SCRIPT_NAME='/s' + t)
    if kind == 'hdr':
        return e('/hdr', h=dict(cj if t == 'A' else c, Authorization='Basic %s' % ('dTpw' if t == 'A' else 'dTpx')))
    if kind == 'form':
        return e('/form', 'POST', body=b'a=' + b * (ord(t) - 60) + b'&' + b + b'=1', CONTENT_TYPE='application/x-www-form-urlencoded')
    if kind == 'upload':
        return e('/upload', 'POST', body=mp(t), CONTENT_TYPE='multipart/form-data; boundary=b' + t)
    if kind == 'json':
        return e('/json', 'POST', body=b'{"a": "%s"}' % b, CONTENT_TYPE='application/json')
    if kind == 'chunk':
        return e('/raw', 'POST', body=b'3\r\n%s\r\n5\r\n%s\r\n0\r\n\r\n' % (b * 3, b * 5), CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked')
    if kind == 'spool':
        return e('/raw', 'POST', body=b * (120 + ord(t)))
    if kind == 'big':
        return e('/raw', 'POST', body=b * (450 + ord(t)))
    if kind == 'triedbig':
        return e('/tried', 'POST', body=b * (450 + ord(t)))
    if kind == 'badchunk':
        return e('/tried', 'POST', h=cj, body=b'zz' + b, CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked')
    if kind == 'badjson':
        return e('/json', 'POST', body=b'{"' + b, CONTENT_TYPE='application/json')
    if kind == '404':
        return e('/missing' + t)
    if kind == '404json':
        return e('/missing' + t, h=cj)
    if kind == '405':
        return e('/full/' + t, 'DELETE')
    if kind == 'undec':
        return environ('', 'GET', q, headers=c, raw_path='/\xff' + t)
    if kind == 'head':
        return e('/full/' + t, 'HEAD')
    if kind.startswith('d-'):
        # a host of its own
        return e('/x/' + t, h=dict(c if kind == 'd-page' else cj, Host=t + '.com'), method='GET' if kind == 'd-page' else 'PUT')
    if kind.startswith('q-'):
        if kind == 'q-arg':
            return e('/q-arg/' + t)
        if kind == 'q-status':
            return e('/q-status', h={'X-In': t * (ord(t) - 60)})
        if kind == 'q-head':
            return e('/q-nothing', 'HEAD')
        if kind == 'q-405':
            return e('/q-arg/' + t, 'PUT' if t == 'A' else 'POST')
        if kind == 'q-forms':
            return e('/q-forms', 'POST', body=b'a=' + b * (ord(t) - 60), CONTENT_TYPE='application/x-www-form-urlencoded')
        if kind == 'q-body':
            return e('/q-body', 'POST', body=b * (ord(t) - 60))
        if kind == 'q-json':
            return e('/q-json', 'POST', body=b'{"a": "%s"}' % b, CONTENT_TYPE='application/json')
        if kind == 'q-files':
            return e('/q-files', 'POST', body=mp(t), CONTENT_TYPE='multipart/form-data; boundary=b' + t)
        lists = 'a=%s1&b=%s&a=%s2&b=%s&a=%s3&%s=4&c=' % (t, t, t, t * 2, t, t) + ('&a=9' if t == 'B' else '')
        if kind == 'q-qlists':
            return environ('/q-qlists', 'GET', lists, headers=c)
        if kind == 'q-flists':
            return e('/q-flists', 'POST', body=lists.encode(), CONTENT_TYPE='application/x-www-form-urlencoded')
        if kind == 'q-mlists':
            p = mp(t)[:-len(b'--b' + b + b'--\r\n')]
            return e('/q-mlists', 'POST', body=p + p + (p if t == 'B' else b'') + mp(t), CONTENT_TYPE='multipart/form-data; boundary=b' + t)
        if kind == 'q-chunks':
            k = 3 if t == 'A' else 2
            body = b'1;x=' + b + b'\r\n' + b + b'\r\n' + b'0%x\r\n%s\r\n' % (16 + k, b * (16 + k)) + b'%X\r\n%s\r\n' % (k, b * k) + b'0\r\n\r\n'
            return e('/q-chunks', 'POST', body=body, CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked')
        if kind == 'q-morecookies':
            return e('/q-morecookies', h={'Cookie': 'c=%s; e="%s;%s"; f=\xc3\xa9%s; %s=1' % (t, t, t, t, t)})
        if kind == 'q-url2':
            return e('/q-url2', h={'Host': t + '.org', 'X-Forwarded-For': t + ', 1'}, SCRIPT_NAME='/s' + t)
        return e('/' + kind)
    if kind == 'hook':
        return e('/hook/' + t)
    if kind == 'part':
        return e('/part/' + t)
    if kind == 'wrapper':
        return e('/file', wsgi__file_wrapper=FW)
    if kind == 'stop':
        return e('/stop')
    if kind == 'plain':
        return e('/p/' + t)
    raise KeyError(kind)


class FW:
    def __init__(self, f, size=3):
        self.f = f

    def __iter__(self):
        return iter(lambda: self.f.read(3), b'')

    def close(self):
        self.f.close()


PLAIN = ['raised', 'shared', 'sherr', 'abort', 'crash', 'gen', 'genfail', 'wrapped', 'empty', 'signed', 'copy', 'edit', 'file', 'badhdr', 'redir', 'static']
KINDS = ['full', 'args', 'hdr', 'form', 'upload', 'json', 'chunk', 'spool', 'big', 'triedbig', 'badchunk', 'badjson', '404', '404json', '405', 'undec', 'head', 'hook', 'part',
         'wrapper', 'stop', 'raised', 'shared', 'sherr', 'abort', 'crash', 'crash.json', 'abort.json', 'gen', 'genfail', 'wrapped', 'empty', 'signed', 'copy', 'edit', 'file', 'badhdr']
# on applications of the variant `quiet`
QUIET = ['q-nothing', 'q-arg', 'q-raises', 'q-answers', 'q-crashes', 'q-rawhdr', 'q-status', 'q-cookie', 'q-ctype', 'q-stream', 'q-path', 'q-query', 'q-cookies', 'q-headers', 'q-url',
         'q-forms', 'q-body', 'q-json', 'q-files', 'q-attr', 'q-noattr', 'q-head', 'q-405', '404', '404json', 'undec']
# the same, each with itself and the next one only
LISTS = ['q-qlists', 'q-flists', 'q-mlists', 'q-chunks', 'q-morecookies', 'q-url2']
DEFAULT_ONLY = ['redir', 'static']

CONF = dict(max_body_size=400, max_memfile_size=150, allow_x_script_name=True)


def new_app(variant='app', tag='t'):
    import ombott
    from . import conc_app
    if variant == 'default':
        app = ombott.default_app()
        app.setup(dict(CONF))
        if getattr(app, 'conc_built', False):
            return app
        app.conc_built = True
    elif variant == 'debug':
        app = ombott.Ombott(dict(CONF, debug=True))
    elif variant == 'domain':
        return conc_app.domain(ombott.Ombott(dict(domain_map=lambda host: host[0] if host and host[0] in 'AC' else None, app_name_header='HTTP_X_APP')))
    elif variant in ('quiet', 'quiet2'):
        return conc_app.quiet(ombott.Ombott())
    elif variant == 'bare':
        return conc_app.plain(ombott.Ombott())
    else:
        app = ombott.Ombott(dict(CONF))
    return conc_app.build(app, tag, FILES)


def serve_steps(app, env):
    """One request as a generator that stops before the call, after the call and after each chunk; returns everything observed."""
    starts = []

    def start_response(status, headers, exc_info=None):
        note('start')
        starts.append((status, sorted(headers), exc_info is not None))
    chunks = []
    exc = None
    it = None
    try:
        it = app(env, start_response)
        yield
        for c in it:
            chunks.append(c)
            yield
    except GeneratorExit:
        raise
    except Exception as x:      # noqa
        exc = (type(x).__name__, str(x))
    try:
        if hasattr(it, 'close'):
            it.close()
    except Exception as x:      # noqa
        exc = ('close', type(x).__name__)
    return starts, b''.join(chunks), exc


def left(env):
    """What the request has left in its own environ, as text."""
    return [(k, plain(v)) for k, v in sorted(((k, v) for k, v in env.items() if isinstance(k, str) and not k.startswith('wsgi.')), key=lambda x: x[0])]


def plain(v, depth=3):
    if v is None or isinstance(v, (str, int, bytes)):
        return repr(v)
    if depth and isinstance(v, (list, tuple)):
        return [plain(x, depth - 1) for x in v]
    if depth and isinstance(v, dict):
        return sorted((repr(k), str(plain(x, depth - 1))) for k, x in v.items() if isinstance(k, (str, int)))
    if depth and hasattr(v, 'items') and hasattr(v, 'keys'):
        try:
            return [type(v).__name__] + sorted((str(k), str(plain(x, depth - 1))) for k, x in v.items())
        except Exception:   # noqa
            pass
    return type(v).__name__


def serve(app, env, hook=None):
    old = getattr(LOCAL, 'log', None), getattr(LOCAL, 'hook', None)
    LOCAL.log, LOCAL.hook = log, _ = [], hook
    try:
        g = serve_steps(app, env)
        while True:
            try:
                next(g)
            except StopIteration as s:
                return s.value + (log, left(env))
    finally:
        LOCAL.log, LOCAL.hook = old


def on_thread(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    return out[0]


NAMES = ('start_response', 'body', 'escaped', 'handlers saw', 'environ afterwards')


def diff(got, want):
    for name, x, y in zip(NAMES, got, want):
        if x != y:
            if isinstance(x, list) and len(x) == len(y):
                x, y = [(i, j) for i, j in zip(x, y) if i != j][0]
            return '%s: %.500r instead of %.500r' % (name, x, y)
    return 'same'


def traced(kind='line'):
    from . import sched
    here = os.path.dirname(os.path.abspath(__file__))
    return sched.files_grain([os.path.join(core.REPO, 'ombott')], kind, [(os.path.join(here, 'conc_app.py'), 'line' if kind != 'op' else 'op')])
