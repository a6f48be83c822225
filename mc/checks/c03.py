"""C03  Every request gets exactly one well-formed WSGI response."""
import io
import itertools

from ..core import Violation
from ..wsgi import app_for, environ, call, pep3333_problems

ID = 'C03'
TECHNIQUE = ('exhaustive enumeration of handler programs (outcome kinds x delivery x status x hook behaviour x error handlers x '
             'request method x server features) executed by the real application against an outcome model and a PEP 3333 monitor')
LEVEL_NOTE = ('74 outcome kinds x 5 ways of delivery x 20 statuses x 5-16 methods x 8 configurations, all 4^4 hook behaviours x 9 outcomes x 4 routes, '
              'all pairs of error handler behaviours, hooks that add and remove hooks while they run; every response checked for exactly one start_response, byte chunks, '
              'Content-Length, no body where forbidden, close() exactly once, hook order; 44 outcome kinds again at 35..70 sizes each (items, empty items, '
              'nesting depth, bytes, short reads)')
RULE = 'status, body, Content-Length, start_response count, close count and hook log are those of the outcome model'
ASSUMPTIONS = ['the server follows PEP 3333: iterates the result and calls close() on it once',
               'after-request hooks behind a failing after-request hook are not judged',
               'exceptions after the first body chunk and KeyboardInterrupt/SystemExit/MemoryError are outside the statement']
HANG_S = 20.0
BOUNDS = dict(quick='24k handler programs (69k requests)', thorough='~60k handler programs')


class Trk:
    """What happened to the iterable of the handler."""
    def __init__(self):
        self.closed = 0
        self.made = False
        self.produced = False


class Iter:
    """Iterable (own iterator) with close()."""
    def __init__(self, items, trk, err=None):
        self.items, self.trk, self.err, self.i = items, trk, err, 0
        trk.made = True

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            if self.err is not None:
                raise self.err
            raise StopIteration
        self.i += 1
        v = self.items[self.i - 1]
        if v and isinstance(v, (str, bytes)):
            self.trk.produced = True
        return v

    def close(self):
        self.trk.closed += 1


class Seq:
    """Iterable with close() whose iterator is another object."""
    def __init__(self, items, trk):
        self.items, self.trk = items, trk
        trk.made = True

    def __iter__(self):
        for v in self.items:
            if v:
                self.trk.produced = True
            yield v

    def close(self):
        self.trk.closed += 1


class File:
    """File-like object; `iterable`/`closable` select what it offers."""
    def __init__(self, data, trk, chunk=None):
        self.data, self.trk, self.pos, self.chunk = data, trk, 0, chunk
        trk.made = True
        trk.produced = True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        if self.chunk:
            n = min(n, self.chunk)
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class FileC(File):
    def close(self):
        self.trk.closed += 1


class FileI(File):
    def __iter__(self):
        while True:
            c = self.read(3)
            if not c:
                return
            yield c


class FileCI(FileI):
    def close(self):
        self.trk.closed += 1


class Wrapper:
    """wsgi.file_wrapper of a server."""
    used = 0

    def __init__(self, f, size=4):
        Wrapper.used += 1
        self.f, self.size = f, size
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            c = self.f.read(self.size)
            if not c:
                return
            yield c


class Odd(Exception):
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


def gen(items, trk=None, err=None):
    def g():
        if trk:
            trk.made = True
        try:
            for v in items:
                if trk and v and isinstance(v, (str, bytes)):
                    trk.produced = True
                yield v
            if err is not None:
                raise err
        finally:
            if trk:
                trk.closed += 1
    return g()


E5 = '500'       # becomes a framework 500 response


def kinds():
    """name -> (maker(trk), expected body | E5 | (code, body))"""
    import ombott
    R, E = ombott.HTTPResponse, ombott.HTTPError
    k = {}
    for n, v, x in [('str', 'x', b'x'), ('uni', 'é€', 'é€'.encode()), ('empty', '', b''), ('bytes', b'\xff\x00', b'\xff\x00'),
                    ('b0', b'', b''), ('none', None, b''), ('false', False, b''), ('zero', 0, b''), ('long', 'ab' * 9000, b'ab' * 9000),
                    ('num', 42, E5), ('obj', object(), E5), ('true', True, E5), ('bytearray', bytearray(b'ab'), E5),
                    ('surrogate', 'a\udc80', E5), ('dict0', {}, b'')]:
        k[n] = ((lambda t, v=v: v), x)
    for n, v, x in [('l0', [], b''), ('lstr', ['a', 'é'], 'aé'.encode()), ('lb', [b'a', b'', b'c'], b'ac'), ('lead', ['', '', 'a'], b'a'),
                    ('leadb', [b'', b'a'], b'a'), ('leadmix', [None, '', 'a', 'b'], b'ab'), ('allempty', ['', ''], b''),
                    ('lint', [1, 2], E5), ('llist', [['a']], E5), ('tup', ('a', 'b'), b'ab'), ('l1', ['abc'], b'abc'),
                    ('lbarr', [bytearray(b'a')], E5)]:
        k[n] = ((lambda t, v=v: list(v) if isinstance(v, list) else v), x)
        k['g-' + n] = ((lambda t, v=v: gen(v, t)), x)
        k['i-' + n] = ((lambda t, v=v: Iter(list(v), t)), x)
        if n in ('lstr', 'lb', 'leadb', 'allempty'):
            k['s-' + n] = ((lambda t, v=v: Seq(list(v), t)), x)
    k['g-raise'] = (lambda t: gen([], t, ValueError('boom')), E5)
    k['g-lead-raise'] = (lambda t: gen(['', b''], t, KeyError('boom')), E5)
    k['i-raise'] = (lambda t: Iter([], t, RuntimeError('boom')), E5)
    k['g-http'] = (lambda t: gen(['', R('gh', 402)], t), (402, b'gh'))
    k['g-raise-http'] = (lambda t: gen([''], t, R('grh', 409)), (409, b'grh'))
    k['g-err'] = (lambda t: gen([E(418, 'tea')], t), (418, None))
    k['g-raise-err'] = (lambda t: gen([], t, E(410, 'gone')), (410, None))
    k['i-raise-http'] = (lambda t: Iter([''], t, R(['i', 'rh'], 299)), (299, b'irh'))
    for n, c in [('File', File), ('FileC', FileC), ('FileI', FileI), ('FileCI', FileCI)]:
        k['f-' + n] = ((lambda t, c=c: c(b'0123456789' * 3, t)), b'0123456789' * 3)
        k['f0-' + n] = ((lambda t, c=c: c(b'', t)), b'')
        k['fs-' + n] = ((lambda t, c=c: c(b'abcdefg', t, 2)), b'abcdefg')
    k['bytesio'] = (lambda t: io.BytesIO(b'bio' * 50), b'bio' * 50)
    # responses in responses
    k['r-str'] = (lambda t: R('rs', 201), (201, b'rs'))
    k['r-none'] = (lambda t: R(None, 202), (202, b''))
    k['r-gen'] = (lambda t: R(gen(['', 'rg'], t), 203), (203, b'rg'))
    k['r-iter'] = (lambda t: R(Iter([b'', b'ri'], t), 206), (206, b'ri'))
    k['r-file'] = (lambda t: R(FileC(b'rfile', t), 207), (207, b'rfile'))
    k['r-r'] = (lambda t: R(R('inner', 226), 299), (226, b'inner'))
    k['r-e'] = (lambda t: R(E(451, 'law'), 200), (451, None))
    k['r-g-r'] = (lambda t: R(gen(['', R(gen(['deep']), 208)], t), 200), (208, b'deep'))
    k['r-r-r'] = (lambda t: R(R(R([b'd', b'eep'], 208), 207), 206), (208, b'deep'))
    k['e-418'] = (lambda t: E(418, 'tea'), (418, None))
    k['e-plain'] = (lambda t: E(), (500, None))
    k['e-204'] = (lambda t: E(204, 'x'), (204, None))

    def loop(t):
        r = R('x', 207)
        r.body = r
        return r
    k['loop'] = (loop, E5)
    return k


EXC = [ValueError('v'), Odd(), StopIteration('s'), UnicodeDecodeError('utf8', b'\xff', 0, 1, 'bad'), RecursionError('r'), KeyError('k\n<b>'),
       AssertionError(), OSError(5, 'io'), LookupError('\udc80'), Exception(None, b'x')]
STATUS = [None, 200, 201, 204, 205, 206, 299, 100, 101, 102, 103, 199, 301, 304, 400, 404, 418, 503, 599, 999]
METHODS = ['GET', 'HEAD', 'POST', 'head', 'DELETE']
EVERY = METHODS + ['OPTIONS', 'options', 'PUT', 'PATCH', 'TRACE', 'CONNECT', 'M-SEARCH', 'get', 'Head', 'ANY', 'PROPFIND']
DELIVER = ['return', 'resp-return', 'resp-raise', 'resp-yield', 'err-raise']
HOOK = ['ok', 'exc', 'http', 'err']
ROUTES = ['hit', '404', '405', 'hook404']

_k = None


def K():
    global _k
    if _k is None:
        _k = kinds()
    return _k


def nobody(code, method):
    return method.upper() == 'HEAD' or code < 200 or code in (204, 304)


def judge(r, method, want, trk, where, ctx, own_length=False, framework_error=None):
    """want: (code, body or None = any framework page)"""
    probs = pep3333_problems(r, method)
    if r.iter_error is not None:
        probs.append('iteration raised %r' % r.iter_error)
    if r.starts and r.starts[0][0] and not isinstance(r.starts[0][0], str):
        probs.append('status is no str')
    if probs:
        raise Violation('%s: %s' % (where, '; '.join(probs)))
    code, body = want
    if code is None:
        code = r.code       # anything well-formed will do
        if r.code == 500:
            trk = None
    elif r.code != code:
        raise Violation('%s: status %r, expected %s' % (where, r.status, code))
    if nobody(code, method):
        pass
    else:
        if body is not None and r.body != body:
            raise Violation('%s: body %r, expected %r' % (where, r.body[:80], body[:80]))
        if body is None and not r.body and want[0] is not None:
            raise Violation('%s: error response without a page' % where)
        cl = r.header_all('Content-Length')
        if len(cl) > 1:
            raise Violation('%s: Content-Length %r' % (where, cl))
        if cl and not own_length and cl[0] != str(len(r.body)):
            raise Violation('%s: Content-Length %r for a body of %d bytes' % (where, cl[0], len(r.body)))
    names = [k.lower() for k, _ in r.headers]
    if names.count('content-type') > 1:
        raise Violation('%s: two Content-Type headers' % where)
    if trk is not None and trk.made and trk.produced and trk.closed != 1 and not isinstance(trk, NoClose):
        raise Violation('%s: iterable that produced output was closed %d times' % (where, trk.closed))
    ctx.outcome(code)


class NoClose(Trk):
    pass


def env_for(path, method, wrapper=False, accept=None, **kw):
    h = {'Accept': accept} if accept else None
    e = environ(path, method, headers=h, **kw)
    if wrapper:
        e['wsgi.file_wrapper'] = Wrapper
    return e


# --------------------------------------------------------------------------- A: outcome x delivery x status x method
def run_outcome(case, ctx):
    import ombott
    _, kind, deliver, method, accept, ctype = case
    app = app_for(case)
    R, E = ombott.HTTPResponse, ombott.HTTPError
    make, exp = K()[kind]
    for st in STATUS if accept is None and ctype is None else STATUS[:2]:
        for wrap in (False, True) if kind[:2] in ('f-', 'f0', 'fs') or kind in ('bytesio', 'r-file') else (False,):
            trk = NoClose() if kind.endswith(('-File', '-FileI')) else Trk()

            def handler():
                v = make(trk)
                if ctype:
                    app.response.content_type = ctype
                if deliver == 'return':
                    if st is not None:
                        app.response.status = st
                    return v
                if deliver == 'resp-return':
                    return R(v, st)
                if deliver == 'resp-raise':
                    raise R(v, st)
                if deliver == 'resp-yield':
                    return gen(['', R(v, st)])
                raise E(st, v)
            app.route('/a', method, handler, overwrite=True)
            code = st or (200 if deliver != 'err-raise' else 500)
            watch = trk
            if deliver == 'err-raise':
                want = (code, None)
                if accept and not isinstance(v_of(make), (str, int, type(None), list)):
                    return      # a body that cannot be put into JSON
                if accept and kind in ('llist', 'lb', 'leadb', 'lbarr'):
                    return
                if kind == 'surrogate' and accept is None:
                    want = (500, None)      # the page cannot be encoded
                watch = None
            elif exp == E5:
                want = (500, None)
            elif isinstance(exp, tuple):
                want = exp
            else:
                body = exp
                if ctype and exp is not None and kind == 'uni':
                    body = None
                want = (code, body)
            if ctype and deliver == 'return':
                cs = ctype.split('charset=')[1]
                if kind in ('str', 'uni', 'long', 'empty', 'none'):
                    try:
                        want = (code, exp.decode('utf8').encode(cs) if exp else b'')
                    except UnicodeError:
                        want = (500, None)
                elif kind not in ('bytes', 'b0', 'false', 'zero', 'lb', 'leadb', 'bytesio') and kind[:2] not in ('f-', 'f0', 'fs', 'r-', 'e-'):
                    want = (None, None)
            r = call(app, env_for('/a', method, wrap, accept))
            where = 'handler %s %s status=%s, %s request%s%s' % (deliver, kind, st, method, ', file_wrapper' if wrap else '',
                                                                 ', Accept: %s' % accept if accept else '')
            judge(r, method, want, watch, where, ctx)
            ctx.trans()
            if accept and want[0] and want[1] is None and not nobody(want[0], method):
                if not (r.header('Content-Type') or '').startswith('application/json'):
                    raise Violation('%s: error page is %r though JSON was requested' % (where, r.header('Content-Type')))
    ctx.state((kind, deliver, method, accept, ctype))


# --------------------------------------------------------------------------- A2: the same outcomes at many sizes
COUNTS = list(range(0, 34)) + [40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 800]
MORE = [999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4096, 4097, 10000]
BYTES = [1, 2, 3, 7, 8, 9, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537,
         131071, 131072, 131073, 262144, 262145, 1048575, 1048576, 1048577]
SHORT = (None, 1000, 4093, 65536)


def size_kinds():
    import ombott
    R, E = ombott.HTTPResponse, ombott.HTTPError

    def nest(v, n, e=False):
        for i in range(n):
            v = (E if e and i == n // 2 else R)(v, 201 + i % 3)
        return v

    def alt(n, v):
        for i in range(n):
            v = gen(['', R(v, 203)]) if i % 2 else R(v, 202)
        return v
    k = {}
    for kind, empties in (('s', ['']), ('b', [b'']), ('m', [None, '', b''])):
        for mk in ('g', 'i', 'l'):
            k['empties-%s-%s' % (kind, mk)] = (COUNTS + MORE, lambda n, t, e=empties, mk=mk: dict(g=gen, i=Iter, l=lambda v, t: v)[mk](
                [e[i % len(e)] for i in range(n)] + ['abc' if e == [''] else b'abc' if e == [b''] else 'abc'], t), lambda n: (None, b'abc'))
    for kind, item in (('s', '\xe9'), ('b', b'ab')):
        for mk in ('g', 'i', 's', 'l', 't'):
            k['items-%s-%s' % (kind, mk)] = (COUNTS + MORE, lambda n, t, v=item, mk=mk: dict(g=gen, i=Iter, s=Seq, l=lambda v, t: v, t=lambda v, t: tuple(v))[mk]([v] * n, t),
                                             lambda n, v=item: (None, (v if isinstance(v, bytes) else v.encode()) * n))
    k['tail-empties'] = (COUNTS + MORE, lambda n, t: gen(['a'] + [''] * n + ['b'], t), lambda n: (None, b'ab'))
    k['only-empties'] = (COUNTS + MORE, lambda n, t: gen([''] * n, t), lambda n: (None, b''))
    k['empties-raise'] = (COUNTS + MORE, lambda n, t: gen([b''] * n, t, ValueError('v')), lambda n: (500, None))
    k['empties-resp'] = (COUNTS + MORE, lambda n, t: gen([''] * n + [R('r', 402)], t), lambda n: (402, b'r'))
    k['empties-raise-resp'] = (COUNTS + MORE, lambda n, t: Iter([''] * n, t, R('r', 409)), lambda n: (409, b'r'))
    k['nest'] = (COUNTS, lambda n, t: nest(R('in', 226), n), lambda n: (226, b'in'))
    k['nest-gen'] = (COUNTS, lambda n, t: nest(R(gen(['', 'in'], t), 226), n), lambda n: (226, b'in'))
    k['nest-file'] = (COUNTS, lambda n, t: nest(R(FileC(b'in' * 9, t), 226), n), lambda n: (226, b'in' * 9))
    k['nest-plain'] = (COUNTS[1:], lambda n, t: nest('p', n), lambda n: (201, b'p'))
    k['nest-alt'] = ([n for n in COUNTS[1:] if n <= 300], lambda n, t: alt(n, 'deep'), lambda n: (202, b'deep'))
    for c in (File, FileC, FileI, FileCI):
        for sh in SHORT:
            k['file-%s-%s' % (c.__name__, sh)] = (BYTES, lambda n, t, c=c, sh=sh: c(blob(n), t, sh), lambda n: (None, blob(n)))
    k['bytesio'] = (BYTES, lambda n, t: io.BytesIO(blob(n)), lambda n: (None, blob(n)))
    k['str'] = (BYTES, lambda n, t: '\u20ac' * n, lambda n: (None, '\u20ac'.encode() * n))
    k['bytes'] = (BYTES, lambda n, t: blob(n), lambda n: (None, blob(n)))
    k['chunk'] = (BYTES, lambda n, t: gen([blob(n), b'', blob(n)], t), lambda n: (None, blob(n) * 2))
    k['listchunk'] = (BYTES, lambda n, t: [blob(n), blob(n)], lambda n: (None, blob(n) * 2))
    return k


_blob = bytes(range(256)) * 5 + b'x'


def blob(n):
    return (_blob * (n // len(_blob) + 1))[:n]


def run_size(case, ctx):
    import ombott
    _, kind, deliver = case
    app = app_for(case)
    ns, make, exp = size_kinds()[kind]
    if not ctx.tier == 'thorough':
        ns = [n for n in ns if n <= 300000]
    for n in ns:
        for method, wrap in (('GET', False), ('HEAD', False)) + ((('GET', True),) if kind[:4] in ('file', 'nest') else ()):
            if wrap and n > 20000:
                continue
            trk = NoClose() if '-File-' in kind or '-FileI-' in kind else Trk()

            def handler():
                v = make(n, trk)
                if deliver == 'return':
                    return v
                if deliver == 'resp-raise':
                    raise ombott.HTTPResponse(v, 299)
                return gen(['', ombott.HTTPResponse(v, 299)])
            app.route('/a', method, handler, overwrite=True)
            code, body = exp(n)
            r = call(app, env_for('/a', method, wrap))
            judge(r, method, (code or (200 if deliver == 'return' else 299), body), trk, 'handler %s %s of size %d, %s request%s' % (
                deliver, kind, n, method, ', file_wrapper' if wrap else ''), ctx)
            ctx.trans()
    ctx.state((kind, deliver))


def v_of(make):
    t = Trk()
    return make(t)


# --------------------------------------------------------------------------- B: exceptions
def run_exc(case, ctx):
    import ombott
    _, i, method, accept, debug = case
    app = ombott.Ombott(dict(debug=debug))
    exc = EXC[i]

    @app.route('/a', [method])
    def handler():
        app.response.headers['X-Left'] = 'over'
        app.response.status = 204
        raise exc

    @app.route('/g', [method])
    def handler_g():
        raise exc
        yield 'x'

    @app.route('/rh/<x>', [method])
    def handler_r(x):
        return 'r'

    @app.on_route('/rh')
    def rhook(path):
        raise exc
    for path in ('/a', '/g', '/rh/1'):
        r = call(app, env_for(path, method, accept=accept))
        if isinstance(exc, StopIteration) and path == '/g':
            pass    # becomes a RuntimeError inside the generator
        judge(r, method, (500, None), None, '%r at %s, %s request, Accept %s, debug=%s' % (type(exc), path, method, accept, debug), ctx)
        ctx.trans()
    ctx.state((i, method, accept, debug))


# --------------------------------------------------------------------------- C: hooks
HOUT = ['str', 'g-lead-raise', 'i-lstr', 'e-418', 'r-gen', 'num', 'none', 'exc', 'exc-http']


def run_hooks(case, ctx):
    import ombott
    _, before, after, out, route, method = case
    app = app_for(case)
    R, E = ombott.HTTPResponse, ombott.HTTPError
    log = []
    trk = Trk()

    def act(name, how):
        def hook():
            log.append(name)
            if how == 'exc':
                raise ValueError(name)
            if how == 'http':
                raise R('by ' + name, 409)
            if how == 'err':
                raise E(410, 'by ' + name)
        return hook
    for i, how in enumerate(before):
        app.add_hook('before_request', act('b%d' % i, how))
    for i, how in enumerate(after):
        app.on('after_request', act('a%d' % i, how))

    def handler(**kw):
        log.append('h')
        if out == 'exc':
            raise ValueError('h')
        if out == 'exc-http':
            raise R('raised', 402)
        return K()[out][0](trk)
    app.route('/a', method, handler)
    app.route('/c', 'PURGE', handler)
    app.route('/p/<x:int>', method, handler)
    if route == 'hook404':
        app.error(404, '/p')(lambda path, values: 'partial')
    path = {'hit': '/a', '404': '/zz', '405': '/c', 'hook404': '/p/x'}[route]
    r = call(app, env_for(path, method))
    # expected log and outcome
    exp = []
    res = None
    res_of = {'exc': (500, None), 'err': (410, None)}
    for i, how in enumerate(before):
        exp.append('b%d' % i)
        if how != 'ok':
            res = res_of.get(how) or (409, b'by b%d' % i)
            break
    if res is None:
        if route == 'hit':
            exp.append('h')
            e = None if out in ('exc', 'exc-http') else K()[out][1]
            res = (500, None) if out == 'exc' or e == E5 else (402, b'raised') if out == 'exc-http' else e if isinstance(e, tuple) else (200, e)
        else:
            res = (200, b'partial') if route == 'hook404' else (404, None) if route == '404' else (405, None)
    strict = True
    for i in range(len(after) - 1, -1, -1):
        exp.append('a%d' % i)
        if after[i] != 'ok':
            res = res_of.get(after[i]) or (409, b'by a%d' % i)
            strict = False
            trk.produced = False
            break
    where = 'hooks before=%s after=%s, handler %s, route %s, %s' % (before, after, out, route, method)
    got = log if strict else log[:len(exp)]
    if got != exp:
        raise Violation('%s: calls %s, expected %s' % (where, log, exp))
    if len(set(log)) != len(log):
        raise Violation('%s: something ran twice: %s' % (where, log))
    if any(how != 'ok' for how in after) and trk.made:
        trk.made = False        # the output of the handler was replaced
    judge(r, method, res, trk, where, ctx)
    ctx.trans()
    ctx.state((before, after, out, route, method))


# hooks that edit the list of hooks while it is worked off
HEDIT = ['ok', 'rm-self', 'rm-prev', 'rm-next', 'add']


def run_hook_edit(case, ctx):
    import ombott
    _, kind, acts, out, method = case
    app = app_for(case)
    name = kind + '_request'
    log = []
    model = []      # in the order they run

    def register(n, how):
        def hook():
            log.append(n)
            if (n, hook) not in model:
                return      # removed, but called all the same (a copy of the list is worked off)
            if how == 'rm-self':
                app.remove_hook(name, hook)
                gone.add(n)
                model.remove((n, hook))
            elif how in ('rm-prev', 'rm-next'):
                i = model.index((n, hook)) + (1 if how == 'rm-next' else -1)
                if 0 <= i < len(model):
                    m, h = model.pop(i)
                    app.remove_hook(name, h)
                    gone.add(m)
            elif how == 'add':
                register('new%d.%s' % (rnd, n), 'ok')
        app.add_hook(name, hook)
        model.insert(0 if kind == 'after' else len(model), (n, hook))
    rnd = 0
    for i, a in enumerate(acts):
        register('h%d' % i, a)

    @app.route('/a', method)
    def handler():
        if out == 'exc':
            raise ValueError('h')
        return 'ok'
    for rnd in range(3):
        del log[:]
        gone = set()
        start = [n for n, _ in model]
        r = call(app, env_for('/a', method))
        where = '%s hooks %s, round %d, %s' % (kind, acts, rnd, out)
        must = [n for n in start if n not in gone]
        got = [n for n in log if n in must]
        if got != must:
            raise Violation('%s: of the hooks %s these ran: %s' % (where, must, log))
        if len(set(log)) != len(log):
            raise Violation('%s: something ran twice: %s' % (where, log))
        judge(r, method, (500, None) if out == 'exc' else (200, b'ok'), None, where, ctx)
        ctx.trans()
    ctx.state(case)


# --------------------------------------------------------------------------- D: error handlers
EH = ['str', 'bytes', 'none', 'gen', 'resp', 'same', 'other', 'raise', 'raise-http', 'int', 'file', 'header', 'empty-gen']


def run_eh(case, ctx):
    import ombott
    _, eh404, eh500, trigger, method, accept = case
    app = app_for(case)
    R, E = ombott.HTTPResponse, ombott.HTTPError
    trk = {}

    def mk(name, how):
        def eh(res):
            t = trk[name] = Trk()
            if how == 'str':
                return 'eh ' + name
            if how == 'bytes':
                return b'eh ' + name.encode()
            if how == 'none':
                return None
            if how == 'gen':
                return Iter(['', 'eh ', name], t)
            if how == 'empty-gen':
                return Iter(['', ''], t)
            if how == 'resp':
                return R('eh ' + name, 403)
            if how == 'same':
                return res
            if how == 'other':
                return E(418, 'x')
            if how == 'raise':
                raise ValueError('eh')
            if how == 'raise-http':
                raise R('eh', 402)
            if how == 'int':
                return 7
            if how == 'file':
                return FileC(b'eh file', t)
            if how == 'header':
                app.response.headers['X-Eh'] = 'é'
                app.response.set_cookie('eh', 'é')
                return 'eh ' + name
        return eh
    if eh404:
        app.error(404)(mk('404', eh404))
    if eh500:
        app.error()(mk('500', eh500))

    @app.route('/t', method)
    def handler():
        app.response.headers['Content-Length'] = '3'
        app.response.headers['X-Lost'] = 'lost'
        if trigger == 'exc':
            raise ValueError('t')
        if trigger == 'e404':
            raise E(404, 't')
        if trigger == 'ret404':
            return E(404, 't')
        if trigger == 'gen500':
            return gen([], None, ValueError('t'))
        return 3
    path = '/nope' if trigger == 'miss' else '/t'
    r = call(app, env_for(path, method, accept=accept))
    first = 404 if trigger in ('miss', 'e404', 'ret404') else 500
    seen = set()
    code, body = first, None
    cur = first
    while True:
        how = {404: eh404, 500: eh500}.get(cur)
        if how is None:
            want = (cur, None)
            break
        name = str(cur)
        if how in ('str', 'header', 'gen'):
            want = (cur, b'eh ' + name.encode())
        elif how == 'bytes':
            want = (cur, b'eh ' + name.encode())
        elif how in ('none', 'empty-gen'):
            want = (cur, b'')
        elif how == 'resp':
            want = (403, b'eh ' + name.encode())
        elif how == 'file':
            want = (cur, b'eh file')
        elif how == 'other':
            want = (418, None)
        elif how in ('raise', 'raise-http', 'same'):
            # the error handler itself fails (or never ends): last resort
            want = (500, None) if how != 'same' else (500, None)
        elif how == 'int':
            # unsupported type: a 500 for which the 500 handler is asked
            if (cur, how) in seen:
                want = (500, None)
                break
            seen.add((cur, how))
            cur = 500
            continue
        break
    where = 'error handlers 404=%s 500=%s, trigger %s, %s, Accept %s' % (eh404, eh500, trigger, method, accept)
    t = trk.get(str(cur))
    judge(r, method, want, t if t and t.made and len(trk) == 1 else None, where, ctx)
    if r.header('X-Lost') is not None:
        raise Violation('%s: header of the failed response survives' % where)
    ctx.trans()
    ctx.state((eh404, eh500, trigger, method, accept))


# --------------------------------------------------------------------------- E: headers, statuses as text, odd requests
STATUS_TEXT = ['200 OK', '299 Fine day', '404 Nope', '204 Nothing', '304 Same', '999 X', '100 Go', '200 Grüße', '200 €', ' 201 Padded ',
               '200', '', '99 Low', '1000 High', 'abc def', '200 a\r\nX: y', '200 a\nb', '200 \x00', '+200 OK', '0200 OK', '2_00 OK',
               '٢٠٠ OK', '-200 OK', 200.0, '200\tOK now', '1e2 x', 99, 1000, 0, -200, True, None, '200 \x7f', '200 a\x0bb', '200  two']
HEADERS = [('X-A', 'plain'), ('X-A', 'é€'), ('X-A', 7), ('X-A', None), ('X-A', True), ('X-A', 1.5), ('X-A', 'a\r\nb: c'), ('X-A', '\ud800'),
           ('X-A', b'bytes'), ('Content-Length', '1'), ('content-type', 'text/plain'), ('Content-Type', 'text/plain; charset=latin1'),
           ('Content-Type', 'text/plain; charset=bogus'), ('Set-Cookie', 'a=b'), ('Allow', 'GET')]


def run_status(case, ctx):
    import ombott
    _, i, how, method = case
    st = STATUS_TEXT[i]
    app = app_for(case)

    @app.route('/a', method)
    def handler():
        if how == 'set':
            app.response.status = st
            return 'body'
        if how == 'resp':
            return ombott.HTTPResponse('body', st)
        if how == 'raise':
            raise ombott.HTTPResponse('body', st)
        if how == 'err':
            raise ombott.HTTPError(st, 'body')
        ombott.abort(st, 'body')
    r = call(app, env_for('/a', method))
    where = 'status %r by %s, %s' % (st, how, method)
    probs = pep3333_problems(r, method)
    if probs:
        raise Violation('%s: %s' % (where, '; '.join(probs)))
    want = None
    if isinstance(st, int) and 100 <= st <= 999 and st is not True:
        want = st
    elif st in ('200 OK', '299 Fine day', '404 Nope', '204 Nothing', '304 Same', '999 X', '100 Go', '200 Grüße', '200 €', ' 201 Padded ', '200  two'):
        want = int(st.split()[0])
    elif st in (99, 1000, -200, '1000 High', '99 Low', 'abc def', '200'):
        want = 500
    if want is not None and r.code != want:
        raise Violation('%s: got %r, expected %s' % (where, r.status, want))
    if not nobody(r.code, method):
        cl = r.header_all('Content-Length')
        if cl and cl != [str(len(r.body))]:
            raise Violation('%s: Content-Length %r for %d bytes' % (where, cl, len(r.body)))
    ctx.outcome(r.code)
    ctx.state((i, how, method))


def run_headers(case, ctx):
    import ombott
    _, i, j, how, kind, method = case
    app = app_for(case)
    pairs = [HEADERS[i], HEADERS[j]]
    trk = Trk()
    own = any(k.lower() == 'content-length' for k, _ in pairs)

    @app.route('/a', method)
    def handler():
        body = K()[kind][0](trk)
        if how == 'set':
            for k, v in pairs:
                app.response.headers[k] = v
            return body
        if how == 'append':
            for k, v in pairs:
                app.response.headers.append(k, v)
            return body
        return ombott.HTTPResponse(body, 200, headers=pairs)
    r = call(app, env_for('/a', method))
    where = 'headers %r by %s, body %s, %s' % (pairs, how, kind, method)
    probs = pep3333_problems(r, method)
    if probs:
        raise Violation('%s: %s' % (where, '; '.join(probs)))
    bad = any(isinstance(v, bytes) or isinstance(v, str) and ('\r' in v or v == '\ud800') for k, v in pairs)
    # a bad value that a good one replaces does not count
    if how == 'set' and pairs[0][0] == pairs[1][0] and pairs[0][1] == '\ud800':
        bad = isinstance(pairs[1][1], bytes) or isinstance(pairs[1][1], str) and ('\r' in pairs[1][1] or pairs[1][1] == '\ud800')
    bogus = any('bogus' in str(v) for k, v in (pairs if how != 'set' else dict(pairs).items()))
    if bad and r.code != 500:
        raise Violation('%s: %r' % (where, r.status))
    if not bad and not bogus and r.code != 200:
        raise Violation('%s: %r' % (where, r.status))
    if r.code == 500 or not own:
        cl = r.header_all('Content-Length')
        if cl and method != 'HEAD' and cl != [str(len(r.body))]:
            raise Violation('%s: Content-Length %r for %d bytes' % (where, cl, len(r.body)))
    if r.code == 200 and trk.made and trk.produced and trk.closed != 1:
        raise Violation('%s: iterable that produced output was closed %d times' % (where, trk.closed))
    ctx.outcome(r.code)
    ctx.state((i, j, how, kind, method))


ODD_PATHS = ['', '/', '//', '/a', '/é', '/http://[', '//[x', '/a?b', '/a#b', '/%', '/{0}', '/a:b', '/\r', '/\x00', '/a b', '/' + 'x' * 5000,
             '/..', '/a/../../b', '/a;b', '/[', '/]', '/http:', '/\x7f', '/‮', '/😀', None]


def run_paths(case, ctx):
    import ombott
    _, i, what, method, accept = case
    app = app_for(case)
    path = ODD_PATHS[i]
    log = []
    app.add_hook('before_request', lambda: log.append('b'))
    app.add_hook('after_request', lambda: log.append('a'))

    def handler(*a, **kw):
        log.append('h')
        if what == 'crash':
            raise ValueError('x')
        if what == 'url':
            return repr((app.request.url, app.request.fullpath, app.request.path))
        return 'ok'
    if what == 'rewrite':
        def rewrite():
            app.request['PATH_INFO'] = '/there'
        app.add_hook('before_request', rewrite)
        app.route('/there', method, handler)
    elif what == '405':
        app.route('/', 'PURGE', handler)
        app.route('/<p:path>', 'PURGE', handler)
    elif what != 'miss':
        app.route('/', method, handler)
        app.route('/<p:re((?s:.+))>', method, handler)
    kw = dict(PATH_INFO=None) if path is None else {}
    r = call(app, env_for(path or '', method, accept=accept, **kw))
    where = 'path %r, %s, %s, Accept %s' % (path and path[:40], what, method, accept)
    code = {'crash': 500, 'miss': 404, '405': 405}.get(what, 200)
    if what == '405' and '\n' in (path or ''):
        code = 404
    judge(r, method, (code, b'ok' if what in ('hit', 'rewrite') else None), None, where, ctx)
    want = ['b'] + (['h'] if what in ('crash', 'url', 'hit', 'rewrite') else []) + ['a']
    if log != want:
        raise Violation('%s: calls %s, expected %s' % (where, log, want))
    ctx.state((i, what, method, accept))
    ctx.trans()


RUN = dict(out=run_outcome, size=run_size, exc=run_exc, hooks=run_hooks, hookedit=run_hook_edit, eh=run_eh, status=run_status, hdr=run_headers, path=run_paths)


def run_case(case, ctx):
    RUN[case[0]](case, ctx)


def cases(tier):
    th = tier == 'thorough'
    for kind in K():
        for d in DELIVER:
            for m in EVERY if d == 'return' or th else METHODS + ['OPTIONS']:
                yield ('out', kind, d, m, None, None)
            yield ('out', kind, d, 'GET', 'application/json', None)
            yield ('out', kind, d, 'GET', None, 'text/plain; charset=latin1')
            yield ('out', kind, d, 'POST', None, 'text/plain; charset=utf-16')
            if th:
                yield ('out', kind, d, 'HEAD', 'application/json', None)
    for kind in size_kinds():
        for d in ('return', 'resp-raise', 'resp-yield'):
            yield ('size', kind, d)
    for i in range(len(EXC)):
        for m in EVERY:
            for a in (None, 'application/json', 'application/json, text/html'):
                for d in (False, True):
                    yield ('exc', i, m, a, d)
    for n, (b0, b1, a0, a1) in enumerate(itertools.product(HOOK, repeat=4)):
        for o in HOUT:
            for rt in ROUTES:
                if rt != 'hit' and o != 'str' and not th:
                    continue
                for m in (['GET', 'HEAD', 'OPTIONS'] if rt == 'hit' else EVERY) if not th else EVERY:
                    yield ('hooks', (b0, b1), (a0, a1), o, rt, m)
    for b in itertools.product(HOOK, repeat=3):
        yield ('hooks', b, ('ok', 'ok', 'ok'), 'str', 'hit', 'GET')
        yield ('hooks', ('ok', 'ok', 'ok'), b, 'str', 'hit', 'GET')
    for h in [(), ('ok',), ('ok',) * 5]:
        for o in HOUT:
            for rt in ROUTES:
                for m in EVERY:
                    yield ('hooks', h, h, o, rt, m)
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        for acts in itertools.product(HEDIT, repeat=n):
            for kind in ('before', 'after'):
                for o in ('str', 'exc'):
                    yield ('hookedit', kind, acts, o, 'GET')
    for e4 in [None] + EH:
        for e5 in [None] + EH:
            for t in ('miss', 'e404', 'ret404', 'exc', 'gen500', 'num'):
                for m in ['GET', 'HEAD', 'OPTIONS'] if not th else EVERY:
                    yield ('eh', e4, e5, t, m, None)
                yield ('eh', e4, e5, t, 'GET', 'application/json')
    for i in range(len(STATUS_TEXT)):
        for how in ('set', 'resp', 'raise', 'err', 'abort'):
            for m in METHODS + ['OPTIONS']:
                yield ('status', i, how, m)
    for i in range(len(HEADERS)):
        for j in range(len(HEADERS)):
            for how in ('set', 'append', 'resp'):
                for kind in ('str', 'i-lstr', 'i-lb', 'f-FileC', 'empty'):
                    for m in METHODS[:2]:
                        yield ('hdr', i, j, how, kind, m)
    for i in range(len(ODD_PATHS)):
        for w in ('hit', 'crash', 'miss', '405', 'url', 'rewrite'):
            for m in METHODS + ['OPTIONS', 'PUT']:
                for a in (None, 'application/json'):
                    yield ('path', i, w, m, a)


NSHARD = 48


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
