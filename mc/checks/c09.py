"""C09  Each response depends on its own request only; retained state is bounded."""
import gc
import io
import itertools
import os
import pickle
import sys
import threading
import weakref

from ..core import Violation
from ..wsgi import environ, Errors

ID = 'C09'
TECHNIQUE = ('exhaustive enumeration of request histories (all sequences up to a length over the request alphabet, de Bruijn sequences on one long-lived '
             'application) on the real application, each answer compared with the one a fresh process gives; retention measured by weak '
             'references and allocation counts over growing N for every request kind and every pair of kinds')
LEVEL_NOTE = '60 request kinds; all histories of length <= 2 on fresh applications, all of length 3 over 60 kinds on a long-lived one; the same on an application without hooks and error handlers; all pairs of 42 (kind, host) on one with a domain_map'
RULE = ('status, headers, body, what the handler saw and what escapes are those of a fresh process; environs, input streams and handler '
        'objects alive after N requests <= a constant')
ASSUMPTIONS = ['the application itself keeps no state between requests apart from response objects it shares', 'one worker thread (interleavings: C08)',
               'a bound of 4 per-request objects of a kind counts as constant']
BOUNDS = dict(quick='60 kinds: all pairs on fresh applications, all triples on a long-lived one; retention over 1200 requests per kind, all pairs of kinds',
              thorough='+ all triples on fresh applications for 30 kinds, all 4-tuples over 24 kinds on a long-lived one, 3 rounds of retention of pairs')

MP = 'multipart/form-data; boundary=bb'


def mp(*parts):
    return b''.join(b'--bb\r\n' + h + b'\r\n\r\n' + c + b'\r\n' for h, c in parts) + b'--bb--\r\n'


class Env(dict):
    """environ that can be weakly referenced"""
    __slots__ = ('__weakref__',)


class Input(io.BytesIO):
    pass


class Tok:
    def __init__(self, name):
        self.name = name


TRACK = []      # weak references of per-request objects


TRACKING = [False]


def track(o):
    if TRACKING[0]:
        TRACK.append(weakref.ref(o))
    return o


CURL = []


CONF = dict(max_body_size=200, max_memfile_size=60, allow_x_script_name=True)


def build(app=None, default=False, extra=None, bare=False):
    """The application under test: routes, hooks, error handlers.  app.seen is what the handlers saw.
    bare: no hooks and no error handlers, and the handlers look at nothing of their own accord."""
    import ombott
    R, E = ombott.HTTPResponse, ombott.HTTPError
    if app is None:
        app = ombott.Ombott(dict(CONF, **(extra or {})))
    rq, rs = app.request, app.response
    seen = app.seen = []

    def visible():
        d = dict(status=rs.status, code=rs.status_code, headers=sorted(map(str, rs.headers.items())), hl=sorted(rs.headerlist), ct=rs.content_type,
                 cs=rs.charset,
                 path=rq.path, q=sorted(rq.query.items()), qs=rq.query_string, ck=sorted(rq.cookies.items()), m=rq.method, url=rq.url, json=rq.is_json_requested,
                 keys=sorted(k for k in rq.keys() if not k.startswith(('HTTP_', 'wsgi'))), ext=[hasattr(rq, n) for n in ('user', 'extra', 'n')],
                 hdr=sorted(rq.headers.items()), sn=rq.script_name, args=sorted(rq.url_args.items()), cl=rq.content_length, chunked=rq.chunked,
                 rule=str(rq.route.rule) if hasattr(rq.route, 'rule') else '', auth=rq.auth, addr=rq.remote_addr, body=repr(rs.body))
        return repr(sorted(d.items()))

    def route(path, method='GET'):
        def deco(f):
            def h(**kw):
                t = track(Tok(path))
                rq.tok = t
                seen.append((path, sorted(map(str, kw.items())), visible() if not bare else None))
                return f(**kw)
            app.route(path, method, h, overwrite=True)
            if 'domain_map' in (extra or ()):
                app.route('/a' + path, method, h, overwrite=True)
            return f
        return deco

    def dirty():
        rs.status = 201
        rs.headers['X-Set'] = 'set'
        rs.headers.append('X-Multi', 'one')
        rs.headers.append('X-Multi', rq.path)
        rs.content_type = 'text/plain; charset=latin1'
        rs.set_cookie('c', 'v', path='/')
        rs.set_cookie('s', [1, rq.path], 'secret')
        rs.headers['Content-Length'] = '3'
        rq.user = 'root'
        rq['X_EXTRA'] = 'x'
        rq['ombott.request.ext.extra'] = 1

    @route('/ok')
    def _():
        return 'ok'

    @route('/probe', ['GET', 'POST'])
    def _():
        return visible()

    @route('/dirty')
    def _():
        dirty()
        return 'abc'

    @route('/del')
    def _():
        rs.headers['X'] = '1'
        del rs.headers['X']
        rs.headers.clear()
        rs.body = 'left in body'
        return ''

    @route('/crash')
    def _():
        dirty()
        raise ValueError('crash ' + rq.path)

    @route('/gencrash')
    def _():
        dirty()
        raise KeyError('crash')
        yield ''

    @route('/gen')
    def _():
        dirty()
        del rs.headers['Content-Length']

        def g():
            rs.headers.append('X-Multi', 'gen')
            yield ''
            yield 'a'
            yield rq.path
        return g()

    @route('/st')
    def _():
        # statuses with a phrase of one's own, and the same codes without
        x = rq.query_string.partition('&')[0]
        if x[-1] == 'r':
            raise R('r', x[:3] + ' Raised ' + x)
        if x[-1] == 'e':
            raise E(x[:3] + ' Error ' + x, 'e')
        if x[-1] == 'n':
            raise E(int(x[:3]), 'n')
        rs.status = x[:3] + ' Text ' + x if x[-1] == 't' else int(x[:3])
        return rs.status_line

    @route('/late')
    def _():
        def g():
            yield 'first'
            rs.status = 299
            rs.headers['X-Late'] = 'late'
            rs.set_cookie('late', 'l')
            yield 'second'
            raise ValueError('late crash')
        return g()

    shared = R('shared', 202, headers=[('X-L', 'a'), ('X-L', 'b')])
    shared.set_cookie('sh', 'x')
    sherr = E(418, 'shared error', headers=[('X-L', 'a'), ('X-L', 'b')])
    sherr.set_cookie('sh', 'x')

    class Body:
        def __iter__(self):
            rs.headers.append('X-L', rq.path)
            rs.set_cookie('sh', 'changed ' + rq.query_string)
            rs.set_cookie('new', 'n')
            return iter(['body'])
    shbody = R(Body(), 203, headers=[('X-L', 'a'), ('X-L', 'b')])
    shbody.set_cookie('sh', 'x')
    shin = E(402, 'payment')

    @route('/shared')
    def _():
        rs.headers['X-Before'] = 'b'
        return shared

    @route('/sharedraise')
    def _():
        raise shared

    @route('/sharederr')
    def _():
        raise sherr

    @route('/sharederrret')
    def _():
        return sherr

    @route('/sharedbody')
    def _():
        return shbody

    @route('/sharedgen')
    def _():
        yield ''
        raise shared

    @route('/shin')
    def _():
        try:
            raise ValueError('context')
        except ValueError:
            raise shin

    def eh418(res):
        rs.headers.append('X-L', 'eh ' + rq.query_string)
        rs.set_cookie('sh', 'eh ' + rq.query_string)
        rs.headers['X-Eh'] = rq.path
        return 'teapot'
    if not bare:
        app.error(418)(eh418)

    def eh4xx(res):
        # an error handler may do with its response what it likes
        seen.append(('eh', res.status, str(res.body), sorted(map(str, res.headers.items()))))
        res.headers['X-Of'] = rq.path
        res.headers.append('X-Many', rq.query_string or '-')
        res.set_cookie('eh', 'x')
        res.body = str(res.body) + ' for ' + rq.path
        rs.headers['X-Rs'] = '1'
        res.exception = ValueError(rq.path)
        res.status = 400
        return app.default_error_handler(res)
    if not bare:
        app.error(413)(eh4xx)
    if not bare:
        app.error(400)(eh4xx)

    def eh409(res):
        raise ValueError('error handler fails')
    if not bare:
        app.error(409)(eh409)

    @route('/eh409')
    def _():
        dirty()
        raise E(409, 'x')

    @route('/abort')
    def _():
        dirty()
        ombott.abort(404, 'not ' + rq.path)

    @route('/err')
    def _():
        dirty()
        raise E(451, 'law', X_Why='because')

    @route('/nested')
    def _():
        return R(R(E(404, 'deep'), 201), 202, X_N='n')

    @route('/empty')
    def _():
        dirty()
        rs.status = 204
        return 'ignored'

    @route('/notmod')
    def _():
        rs.headers['ETag'] = '"1"'
        rs.headers['Allow'] = 'GET'
        rs.status = 304
        return 'ignored'

    @route('/info')
    def _():
        rs.status = 101
        return 'x'

    @route('/badheader')
    def _():
        dirty()
        rs.headers['X-Bad'] = '\ud800'
        return 'x'

    @route('/charset')
    def _():
        rs.content_type = 'text/x; charset=nope'
        return 'x'

    @route('/kbd')
    def _():
        dirty()
        raise KeyboardInterrupt()

    @route('/sysexit')
    def _():
        def g():
            dirty()
            yield ''
            raise SystemExit()
        return g()

    @route('/num')
    def _():
        dirty()
        return 42

    @route('/file')
    def _():
        rs.headers['X-F'] = 'f'
        return io.BytesIO(b'file of ' + rq.path.encode())

    @route('/form', 'POST')
    def _():
        f = sorted((k, str(v)) for k, v in rq.forms.items())
        fl = sorted((k, v.raw_filename, v.file.read()) for k, v in rq.files.items())
        for v in rq.files.values():
            track(v)
        return repr((f, fl, sorted(rq.params.items()) if not fl else ''))

    @route('/json', 'POST')
    def _():
        return repr(rq.json)

    @route('/body', 'POST')
    def _():
        b = rq.body
        return b.read()

    @route('/ignorebody', 'POST')
    def _():
        return 'did not look'

    @route('/tried', 'POST')
    def _():
        try:
            rq.body
        except Exception as e:      # noqa
            rq.failed = e
        raise ValueError('after')

    @route('/u/<name>/<n:int>')
    def _(name, n):
        rq.n = n
        return '%s %d' % (name, n)

    @route('/m', 'PURGE')
    def _():
        return 'purged'

    @route('/copy')
    def _():
        c = rq.copy()
        c['QUERY_STRING'] = 'changed=1'
        c.user = 'copy'
        return repr((sorted(rq.query.items()), sorted(c.query.items())))

    @route('/cookies')
    def _():
        return repr((sorted(rq.cookies.items()), rq.get_cookie('a'), rq.get_cookie('s', 'none', 'secret')))

    @route('/override')
    def _():
        rq['PATH_INFO'] = '/elsewhere'
        rq['wsgi.input'] = io.BytesIO(b'other')
        rq['HTTP_COOKIE'] = 'z=1'
        rq['QUERY_STRING'] = 'w=1'
        return repr((rq.path, sorted(rq.cookies.items()), sorted(rq.query.items())))

    @route('/close')
    def _():
        class It:
            def __iter__(self):
                return iter([b'a', b'b'])

            def close(self):
                rs.headers['X-Closed'] = '1'
                seen.append('closed')
        return track(It())

    if default:
        @route('/redirect')
        def _():
            dirty()
            ombott.redirect('/to?' + rq.query_string)

    @route('/hook/<x>')
    def _(x):
        return 'hooked ' + x

    def rh(path):
        rs.headers['X-Hook'] = path
        rq.extra = path
        if rq.query_string == 'boom':
            raise ValueError('hook')
    if not bare:
        app.on_route('/hook', rh)
        app.error(404, '/part')(lambda path, values: 'part %s %s' % (path, values))
    app.route('/part/<x:int>', 'GET', lambda x: 'p', overwrite=True)

    def before():
        seen.append(('before', rs.status, sorted(map(str, rs.headers.items())), rq.get('PATH_INFO'), [hasattr(rq, n) for n in ('user', 'extra', 'n', 'tok')]))
        if rq.path == '/beforecrash':
            dirty()
            raise ValueError('before')
        if rq.path == '/beforehttp':
            dirty()
            raise R('by hook', 203)
        rs.headers['X-Always'] = 'a'

    def after():
        seen.append(('after', rs.status))
        if rq.path == '/aftercrash':
            dirty()
            raise ValueError('after')
        rs.headers['X-After'] = rq.path
    if not bare:
        app.add_hook('before_request', before)
        app.add_hook('after_request', after)
    return app


J = {'Accept': 'application/json'}


def kinds(n=0):
    """name -> (environ maker, way of serving).  n makes the text of the request unique."""
    q = 'n=%d' % n if n else ''
    u = 'u%d' % n if n else 'u'

    def e(path, method='GET', qs=None, **kw):
        return lambda: environ(path, method, q if qs is None else qs + ('&' + q if q else ''), **kw)
    ub = u.encode()
    k = {}
    for p in ('ok', 'probe', 'dirty', 'del', 'crash', 'gencrash', 'gen', 'late', 'shared', 'sharedraise', 'sharederr', 'sharederrret', 'sharedbody', 'sharedgen', 'shin',
              'eh409', 'abort', 'err', 'nested', 'empty', 'notmod', 'info', 'badheader', 'charset', 'kbd', 'sysexit', 'num', 'file', 'copy', 'override', 'close',
              'beforecrash', 'beforehttp', 'aftercrash'):
        k[p] = (e('/' + p), '')
    k['probefull'] = (e('/probe', 'POST', 'a=1&b=2&a=3', body=b'x=' + ub, headers={'Cookie': 'a=%s; b=2' % u, 'X-Own': u, 'Authorization': 'Basic dTpw', 'X-Script-Name': 'sn',
                        'X-Forwarded-For': '1.2.3.4', 'Content-Type': 'application/x-www-form-urlencoded'}), '')
    k['404'] = (e('/nope/' + u), '')
    k['404json'] = (e('/nope/' + u, headers=J), '')
    k['405'] = (e('/m'), '')
    k['405json'] = (e('/m', 'POST', headers=J), '')
    k['undec'] = (e('', raw_path='/\xff\xfe' + u), '')
    k['undecjson'] = (e('', raw_path='/\xe9' + u, headers=J), '')
    k['nopath'] = (e('/', PATH_INFO=None), '')
    k['chunkbad'] = (e('/body', 'POST', body=b'zz\r\n' + ub, CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked'), '')
    k['chunkcut'] = (e('/form', 'POST', body=b'5\r\nab' + ub[:1], CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked', CONTENT_TYPE=MP, headers=J), '')
    k['mpbad'] = (e('/form', 'POST', body=mp((b'X-Only: 1', ub)), CONTENT_TYPE=MP), '')
    k['big'] = (e('/body', 'POST', body=b'x' * 300 + ub), '')
    k['bigchunk'] = (e('/body', 'POST', body=b'12c\r\n' + b'x' * 300 + b'\r\n0\r\n\r\n', CONTENT_LENGTH=None, HTTP_TRANSFER_ENCODING='chunked', headers=J), '')
    k['bigform'] = (e('/form', 'POST', body=b'a=' + b'y' * 100 + ub, CONTENT_TYPE='application/x-www-form-urlencoded'), '')
    k['tried'] = (e('/tried', 'POST', body=b'x' * 300), '')
    k['form'] = (e('/form', 'POST', body=b'a=1&b=' + ub + b'&a=2', CONTENT_TYPE='application/x-www-form-urlencoded'), '')
    k['upload'] = (e('/form', 'POST', body=mp((b'Content-Disposition: form-data; name="t"', b'v'), (b'Content-Disposition: form-data; name="f"; filename="n"', ub)), CONTENT_TYPE=MP), '')
    k['jsonbody'] = (e('/json', 'POST', body=b'{"a": "%s"}' % ub, CONTENT_TYPE='application/json'), '')
    k['jsonbad'] = (e('/json', 'POST', body=b'{"a": "%s' % ub, CONTENT_TYPE='application/json'), '')
    k['spool'] = (e('/body', 'POST', body=b's' * 150 + ub), '')
    k['ignored'] = (e('/ignorebody', 'POST', body=b'never read ' + ub), '')
    k['args'] = (e('/u/%s/%d' % (u, n + 7)), '')
    k['argsbad'] = (e('/u/%s/x' % u), '')
    k['cookies'] = (e('/cookies', headers={'Cookie': 'a=%s; s="!bad?x"' % u}), '')
    k['hook'] = (e('/hook/' + u), '')
    k['hookboom'] = (e('/hook/' + u, qs='boom'), '')
    k['part'] = (e('/part/' + u), '')
    k['head'] = (e('/dirty', 'HEAD'), '')
    k['headgen'] = (e('/gen', 'HEAD'), '')
    k['headmiss'] = (e('/nope', 'HEAD', headers=J), '')
    k['abandon'] = (e('/gen'), 'abandon')
    for x in ('599t', '599', '200t', '404e', '599e', '599n', '404r'):
        k['st' + x] = (e('/st', qs=x), '')
    k['noclose'] = (e('/late'), 'noclose')
    k['badserver'] = (e('/dirty'), 'startfail')
    k['wrapper'] = (e('/file'), 'wrapper')
    k['oddmethod'] = (e('/ok', 'Zz' + u), '')
    k['postok'] = (e('/ok', 'POST', body=ub), '')
    return k


class FW:
    def __init__(self, f, size=5):
        self.f = f

    def __iter__(self):
        while True:
            d = self.f.read(5)
            if not d:
                return
            yield d

    def close(self):
        self.f.close()


def serve(app, kind, n=0, watch=False):
    """One request -> what the client and the handlers see (a plain tuple)."""
    kind, _, host = kind.partition('@')
    mk, way = kinds(n)[kind] if n else K[kind]
    e = mk()
    if host:
        e['HTTP_X_FORWARDED_HOST' if host == 'a' else 'HTTP_HOST'] = host + '.com'
    if watch:
        e['wsgi.input'] = track(Input(e['wsgi.input'].read()))
        e = track(Env(e))
    if way == 'wrapper':
        e['wsgi.file_wrapper'] = FW
    starts = []
    del app.seen[:]

    def start_response(status, headers, exc_info=None):
        if way == 'startfail':
            raise AssertionError('server says no')
        starts.append((status, sorted(headers), exc_info is not None))
    chunks = []
    exc = None
    it = None
    try:
        it = app(e, start_response)
        for c in it:
            chunks.append(c)
            if way == 'abandon':
                break
    except BaseException as x:      # noqa
        if type(x).__name__ in ('HangError', 'Stop'):
            raise
        exc = (type(x).__name__, str(x))
    if way != 'noclose' and it is not None and hasattr(it, 'close'):
        try:
            it.close()
        except BaseException as x:      # noqa
            exc = ('close', type(x).__name__)
    out = (starts, b''.join(chunks), exc, list(app.seen), e['wsgi.errors'].text.count('Traceback') if hasattr(e['wsgi.errors'], 'text') else 0)
    it = None
    del app.seen[:]
    return out


K = kinds()
NAMES = list(K)
BASE = {}


def prepare():
    """Every kind alone in a process of its own."""
    for default in ('plain', 'default', 'debug', 'bare', 'domain'):
        for k in NAMES + (['redirect'] if default == 'default' else []) if default != 'domain' else DOMAIN:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    app = fresh(default)
                    data = pickle.dumps(serve(app, k))
                    while data:
                        data = data[os.write(w, data):]
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            buf = b''
            while True:
                d = os.read(r, 65536)
                if not d:
                    break
                buf += d
            os.close(r)
            _, st = os.waitpid(pid, 0)
            BASE[default, k] = pickle.loads(buf) if st == 0 and buf else None


# one application for several hosts, one of which it knows
DOMAIN = [k + '@' + h for k in ('ok', 'probe', 'probefull', 'crash', 'gen', '404', '404json', '405', 'undec', 'args', 'form', 'head', 'copy', 'beforecrash') for h in 'abc']
K['redirect'] = (lambda: environ('/redirect', 'GET', 'q=1'), '')


def fresh(variant):
    if variant == 'default':
        import ombott
        app = ombott.default_app()
        app.setup(dict(CONF))
        return build(app, True)
    if variant == 'debug':
        return build(extra=dict(debug=True, catchall=False))
    if variant == 'domain':
        return build(extra=dict(domain_map={'a.com': 'a'}.get, app_name_header='HTTP_X_APP'))
    if variant == 'bare':
        return build(bare=True)
    return build()


def diff(a, b):
    for name, x, y in zip(('start_response', 'body', 'escaped', 'handlers saw', 'errors'), a, b):
        if x != y:
            if name in ('start_response', 'handlers saw'):
                x, y = [i for i in x if i not in y], [i for i in y if i not in x]
            return '%s: %.600r instead of %.600r' % (name, x, y)


def compare(app, default, k, hist, ctx):
    got = serve(app, k)
    want = BASE[default, k]
    if want is None:
        raise Violation('%s cannot be served at all' % k)
    if got != want:
        raise Violation('request %r after %r: %s' % (k, hist, diff(got, want)))
    ctx.trans()
    ctx.outcome(got[0][0][0][:3] if got[0] else 'escaped')


_long = {}


def long_lived(default):
    if default not in _long:
        _long[default] = fresh(default)
    return _long[default]


def run_case(case, ctx):
    kind = case[0]
    if kind == 'fresh':
        _, hist, variant = case
        app = fresh(variant)
        for i, k in enumerate(hist):
            compare(app, variant, k, hist[:i], ctx)
        ctx.state((variant, hist))
    elif kind == 'long':
        # all continuations of `pre` by `depth` more requests, on one application that is never renewed
        _, default, pre, depth, names = case
        app = long_lived(default)
        for tail in itertools.product(names, repeat=depth):
            hist = tuple(pre) + tail
            for i, k in enumerate(hist):
                compare(app, default, k, hist[:i], ctx)
            ctx.state((default, hist))
    elif kind == 'retain':
        run_retain(case, ctx)
    elif kind == 'threads':
        run_threads(case, ctx)


def alive():
    gc.collect()
    return sum(1 for r in TRACK if r() is not None)


def run_retain(case, ctx):
    _, default, ks, n, blocks = case
    app = long_lived(default)
    del TRACK[:]
    TRACKING[0] = not blocks        # weak references are allocated blocks too
    counts = []
    step = n // 3
    no = 0
    sizes = []
    if blocks:
        # warm-up: bounded caches fill
        for i in range(blocks):
            no += 1
            for k in ks:
                serve(app, k, no if k != 'redirect' else 0)
    for rnd in range(3):
        gc.collect()
        sizes.append(sys.getallocatedblocks())
        for i in range(step):
            no += 1
            for k in ks:
                if blocks:
                    serve(app, k, no if k != 'redirect' else 0)
                else:
                    serve(app, k, no if k != 'redirect' else 0, True)
                    ctx.trans()
        counts.append(alive())
    gc.collect()
    sizes.append(sys.getallocatedblocks())
    made = len(TRACK)
    if counts[-1] > 4 * len(ks):
        kinds_ = sorted({type(r()).__name__ for r in TRACK if r() is not None})
        raise Violation('requests %r: %d of %d per-request objects are alive after %d requests (%r after each third): %s'
                        % (ks, counts[-1], made, n * len(ks), counts, kinds_))
    if blocks:
        growth = [b - a for a, b in zip(sizes, sizes[1:])]
        if min(growth) > step * 0.5:
            # a cache with a bound may still be filling: serve some thousand more, then judge
            for i in range(6000 // len(ks)):
                no += 1
                for k in ks:
                    serve(app, k, no if k != 'redirect' else 0)
            growth = []
            for rnd in range(3):
                gc.collect()
                a = sys.getallocatedblocks()
                for i in range(step):
                    no += 1
                    for k in ks:
                        serve(app, k, no if k != 'redirect' else 0)
                gc.collect()
                growth.append(sys.getallocatedblocks() - a)
        if min(growth) > step * 0.5:
            raise Violation('requests %r: memory blocks grow by %r over three times %d requests' % (ks, growth, step))
    ctx.state((default, ks, n, blocks))
    ctx.outcome('alive %d' % counts[-1])
    del TRACK[:]
    TRACKING[0] = False


def run_threads(case, ctx):
    """Every request on a new thread that ends."""
    _, default, k, n = case
    app = long_lived(default)
    del TRACK[:]
    TRACKING[0] = True
    counts = []
    for rnd in range(3):
        for i in range(n):
            got = []

            def work():
                got.append(serve(app, k, 0, True))
            t = threading.Thread(target=work)
            t.start()
            t.join()
            if got != [BASE[default, k]]:
                raise Violation('request %r on new thread %d: %s' % (k, i, diff(got[0], BASE[default, k]) if got else 'no answer'))
            ctx.trans()
        counts.append(alive())
    if counts[-1] > 4:
        raise Violation('request %r on %d threads that have ended: %r per-request objects alive' % (k, 3 * n, counts))
    ctx.state(('thr', default, k))
    del TRACK[:]
    TRACKING[0] = False


CORE24 = ['probe', 'dirty', 'crash', 'gencrash', 'gen', 'sharedraise', 'sharederr', 'sharedbody', 'abort', 'nested', 'empty', 'badheader', 'kbd', 'probefull', '404', '405',
          'undec', 'chunkbad', 'mpbad', 'big', 'upload', 'argsbad', 'head', 'beforecrash']


def cases(tier):
    th = tier == 'thorough'
    for a in NAMES:
        yield ('fresh', (a,), 'plain')
    for a in NAMES:
        for b in NAMES:
            yield ('fresh', (a, b), 'plain')
            yield ('fresh', (a, b), 'bare')
    for a in DOMAIN:
        for b in DOMAIN:
            yield ('fresh', (a, b), 'domain')
        yield ('long', 'domain', (a,), 1 if not th else 2, tuple(DOMAIN))
        yield ('retain', 'domain', (a,), 60, 0)
    if th:
        for c in itertools.product(CORE24, repeat=3):
            yield ('fresh', c, 'plain')
    dn = tuple(NAMES + ['redirect'])
    for a in dn:
        yield ('long', 'default', (a,), 1, dn)
    for a in NAMES:
        yield ('long', 'debug', (a,), 1, tuple(NAMES))
        yield ('retain', 'debug', (a,), 60, 0)
    for a in NAMES:
        for b in NAMES:
            yield ('long', 'plain', (a, b), 1, tuple(NAMES))
            yield ('long', 'bare', (a, b), 1, tuple(NAMES))
    if th:
        for a in CORE24:
            for b in CORE24:
                yield ('long', 'default', (a, b), 2, tuple(CORE24))
    for a in NAMES:
        yield ('retain', 'plain', (a,), 60, 0)
        yield ('retain', 'plain', (a,), 600, 600)
        yield ('retain', 'bare', (a,), 60, 0)
        yield ('retain', 'bare', (a,), 600, 600)
        yield ('threads', 'bare', a, 4)
        yield ('threads', 'plain', a, 4)
    yield ('retain', 'default', ('redirect',), 60, 0)
    yield ('retain', 'default', ('redirect',), 600, 600)
    for a, b in itertools.combinations(NAMES, 2):
        yield ('retain', 'plain', (a, b), 12 if not th else 36, 0)
    if th:
        for a, b in itertools.combinations(CORE24, 2):
            yield ('retain', 'plain', (a, b), 300, 300)


NSHARD = 64


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
