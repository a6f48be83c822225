"""C14  Response header values cannot split the response and are wire-safe."""
import datetime
import email.utils
import itertools

from ..canon import canon
from ..core import Violation
from ..wsgi import app_for, environ, call

ID = 'C14'
TECHNIQUE = ('exhaustive enumeration of values through every single-value setter, and explicit-state search over sequences of header '
             'operations on real response objects against a reference store; every state is emitted under every status')
LEVEL_NOTE = ('redirect() and 17 setters x (all texts <= 3 over 15 characters, a control character at every position of texts up to 400, all code points '
              '< 0x300, non-text values); header operation histories to depth 4 (6 thorough) with state merging; each emitted list compared with the store')
RULE = ('a value with CR, LF or NUL raises and leaves no trace; header list = values of the store in order, UTF-8 bytes as latin-1, without the '
        'entity headers forbidden for 204/304')
ASSUMPTIONS = ['header names are the business of the caller', 'lists given to setdefault() and dicts given to update() are no single-value setters',
               'texts that UTF-8 cannot encode (lone surrogates) may be refused at any point before the header list']
BOUNDS = dict(quick='setters x 3.6k texts; operation histories to depth 4', thorough='the same, operation histories to depth 6')

CH = ['a', 'é', '€', '😀', '\r', '\n', '\0', ' ', '\t', '\x7f', '\x0b', '\x85', '\u2028', ':', '\ud800']
BAD = '\r\n\0'


def mods():
    import ombott
    from ombott.response import Response, BaseResponse
    return ombott, Response


def make(cls):
    ombott, Response = mods()
    return {'resp': Response, 'http': ombott.HTTPResponse, 'err': ombott.HTTPError}[cls]()


def s_item(c, n, v):
    r = make(c)
    r.headers[n] = v
    return r


def s_item_over(c, n, v):
    r = make(c)
    r.headers[n] = 'old'
    r.headers[n] = v
    return r


def s_append(c, n, v):
    r = make(c)
    r.headers.append(n, v)
    return r


def s_setdefault(c, n, v):
    r = make(c)
    r.headers.setdefault(n, v)
    return r


def s_ctor(kind):
    def f(c, n, v):
        ombott, Response = mods()
        cls = {'resp': Response, 'http': ombott.HTTPResponse, 'err': ombott.HTTPError}[c]
        a = (500,) if c == 'err' else ('',)
        if kind == 'dict':
            return cls(*a, headers={n: v})
        if kind == 'list':
            return cls(*a, headers=[(n, v)])
        if kind == 'tuple':
            return cls(*a, headers=((n, v),))
        if kind == 'kw':
            return cls(*a, **{n.replace('-', '_'): v})
        if kind == 'gen':
            return cls(*a, headers=((k, x) for k, x in [(n, v)]))
        if kind == 'both':
            return cls(*a, headers={'X-Other': 'o'}, **{n.replace('-', '_'): v})
    return f


def s_append2(c, n, v):
    r = make(c)
    r.headers.append(n, 'one')
    r.headers.append(n, v)
    return r


def s_append3(c, n, v):
    r = make(c)
    r.headers.append(n, 'one')
    r.headers.append(n, 'two')
    r.headers.append(n, v)
    return r


def s_default_taken(c, n, v):
    r = make(c)
    r.headers[n] = 'kept'
    r.headers.setdefault(n, v)
    return r


def s_copy(c, n, v):
    r = make(c)
    h = r.headers.copy()
    h[n] = v
    r.headers.update(dict(h.items()))
    return r


def s_ctype(c, n, v):
    r = make(c)
    r.content_type = v
    return r


def s_clen(c, n, v):
    r = make(c)
    r.content_length = v
    return r


def s_exp(c, n, v):
    r = make(c)
    r.expires = v
    return r


# name -> (setter, header name or None, values in front)
SETTERS = {
    'item': (s_item, None, []), 'item-over': (s_item_over, None, []), 'append': (s_append, None, []),
    'append2': (s_append2, None, ['one']), 'append3': (s_append3, None, ['one', 'two']), 'setdefault': (s_setdefault, None, []),
    'default-taken': (s_default_taken, None, 'kept'), 'copy': (s_copy, None, []),
    'ctor-dict': (s_ctor('dict'), None, []), 'ctor-list': (s_ctor('list'), None, []), 'ctor-tuple': (s_ctor('tuple'), None, []),
    'ctor-kw': (s_ctor('kw'), None, []), 'ctor-gen': (s_ctor('gen'), None, []), 'ctor-both': (s_ctor('both'), None, []),
    'content_type': (s_ctype, 'Content-Type', []), 'content_length': (s_clen, 'Content-Length', []), 'expires': (s_exp, 'Expires', []),
}


def wire(text):
    return text.encode('utf8').decode('latin1')


def check_list(hl, want, where):
    """hl: header list; want: list of (name, text) in order of the store (Content-Type default appended by the caller)"""
    for h in hl:
        if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
            raise Violation('%s: header list entry %r' % (where, h))
        if any(b in h[1] for b in BAD):
            raise Violation('%s: control character reaches the header list: %r' % (where, h))
        try:
            h[1].encode('latin1').decode('utf8')
        except UnicodeError:
            raise Violation('%s: %r is not UTF-8 as Latin-1' % (where, h))
    if sorted(hl) != sorted((n, wire(v)) for n, v in want):
        raise Violation('%s: header list %r, expected %r' % (where, hl, [(n, wire(v)) for n, v in want]))
    for n in {n for n, _ in want}:
        if [v for k, v in hl if k == n] != [wire(v) for k, v in want if k == n]:
            raise Violation('%s: values of %s are %r' % (where, n, [v for k, v in hl if k == n]))


DEFAULT_CT = [('Content-Type', 'text/html; charset=UTF-8')]


def one_value(name, cls, hname, v, text, ctx, served=None):
    """text: str(v) as expected on the wire, None when the value has to be refused (or may not be emitted as it is)."""
    setter, fixed, before = SETTERS[name]
    n = fixed or hname
    where = '%s(%s) %s = %r' % (name, cls, n, v)
    bad = isinstance(v, str) and any(b in v for b in BAD)
    try:
        r = setter(cls, n, v)
    except Exception as e:   # noqa
        ctx.outcome('refused')
        if text is not None and not bad:
            raise Violation('%s: refused with %r' % (where, e))
        return
    if bad:
        raise Violation('%s: accepted' % where)
    if text is None:
        # nothing says whether such a value is accepted, only that the list stays well-formed
        try:
            hl = r.headerlist
        except Exception:   # noqa
            ctx.outcome('refused late')
            return
        for h in hl:
            if type(h[0]) is not str or type(h[1]) is not str or any(b in h[1] for b in BAD):
                raise Violation('%s: header list entry %r' % (where, h))
            h[1].encode('latin1')
        ctx.outcome('lenient')
        return
    want = [(n, x) for x in before] + [(n, text)] if before != 'kept' else [(n, 'kept')]
    if name == 'ctor-both':
        want.append(('X-Other', 'o'))
    if n.title() != 'Content-Type':
        want = want + DEFAULT_CT
    check_list(r.headerlist, want, where)
    ctx.outcome('emitted')


def surrogate(v):
    return any(0xd800 <= ord(c) < 0xe000 for c in v)


def run_text(case, ctx):
    _, setter, cls, first = case
    texts = [first + ''.join(x) for k in range(3) for x in itertools.product(CH, repeat=k)]
    if first == CH[0]:
        texts.append('')
    for v in texts:
        one_value(setter, cls, 'X-A', v, None if surrogate(v) else v, ctx)
        ctx.trans()
        ctx.state((setter, cls, v))


def run_pos(case, ctx):
    _, setter, cls, ch = case
    for n in list(range(0, 70)) + [100, 255, 256, 257, 400]:
        for i in sorted({0, 1, n // 2, n - 1, n} | set(range(n + 1) if n < 70 else ())):
            for fill in 'aé€':
                v = fill * i + ch + fill * (n - i)
                one_value(setter, cls, 'X-A', v, None, ctx)
                ctx.trans()
    for v in ('a%sb: c' % ch, 'a%s b' % ch, 'a%s\tb' % ch, ch * 5, 'é%s' % ch, '"a%sb"' % ch, 'Mon, 01 Jan%s 2024' % ch):
        one_value(setter, cls, 'Set-Cookie', v, None, ctx)
    for n in ('Location', 'X-B', 'content-type', 'ETag', 'Set-Cookie', 'Content-Disposition'):
        one_value(setter, cls, n, 'x%sy' % ch, None, ctx)


class StrSub(str):
    def __str__(self):
        return 'evil\r\nX: y'


class IntSub(int):
    def __str__(self):
        return 'evil\r\nX: y'
    __repr__ = __str__


class FloatSub(float):
    def __str__(self):
        return '1\n2'
    __repr__ = __str__


class Obj:
    def __str__(self):
        return 'evil\r\nX: y'


def run_points(case, ctx):
    _, setter, cls, _ = case
    for c in list(range(0, 0x300)) + [0x2028, 0x2029, 0xfeff, 0xffff, 0x1f600, 0x10ffff]:
        for v in (chr(c), 'a' + chr(c), chr(c) + 'a'):
            one_value(setter, cls, 'X-A', v, v, ctx)
            ctx.trans()
    # values that are equal or hash alike but read differently, in both orders
    others = [0, 1, -5, 2 ** 70, 1.5, float('nan'), True, False, None, 1.0, 0.0, -0.0, -5.0, 2.0 ** 70, float('inf'), -1, -2, -1.0, -2.0, 10 ** 20, 1e20, 1e-7, 10 ** 16, 1e16, 255, 255.0,
              '1', '1.0', 'True', '', 'None']
    for v in others + others[::-1] + others[::2] + others[1::2] + others:
        if setter == 'expires':
            text = None
        else:
            text = str(v)
        one_value(setter, cls, 'X-A', v, text, ctx)
    for v in (b'a\r\nb', b'x', ['a', 'b\r\n'], ('a\n',), {'a\n': 1}, {'\r\n'}, Obj(), StrSub('x'), IntSub(3), FloatSub(2), bytearray(b'\n'), object,
              (x for x in 'a\n'), 1j, Ellipsis):
        if setter == 'setdefault' and isinstance(v, list):
            continue
        one_value(setter, cls, 'X-A', v, None, ctx)
    if setter == 'expires':
        for v, t in [(0, 'Thu, 01 Jan 1970 00:00:00 GMT'), (1700000000, 'Tue, 14 Nov 2023 22:13:20 GMT'),
                     (1.5, 'Thu, 01 Jan 1970 00:00:01 GMT'),
                     (datetime.datetime(2024, 2, 29, 12, 30, 1), 'Thu, 29 Feb 2024 12:30:01 GMT'),
                     (datetime.date(2024, 12, 31), 'Tue, 31 Dec 2024 00:00:00 GMT'),
                     (datetime.datetime(2024, 1, 1, 1, 0, tzinfo=datetime.timezone(datetime.timedelta(hours=2))), 'Sun, 31 Dec 2023 23:00:00 GMT')]:
            one_value(setter, cls, 'X-A', v, t, ctx)
            r = s_exp(cls, None, v)
            if not isinstance(r.expires, datetime.datetime):
                raise Violation('expires reads as %r' % r.expires)
    if setter == 'content_type':
        for v in ('text/plain', 'text/plain; charset=latin1', 'a/é'):
            if s_ctype(cls, None, v).content_type != v:
                raise Violation('content_type %r does not read back' % v)
    if setter == 'content_length':
        for v in (0, 5, '7'):
            if s_clen(cls, None, v).content_length != int(v):
                raise Violation('content_length %r does not read back' % v)


def run_cookie(case, ctx):
    """Cookie names, values and attributes, refused or not, leave nothing bad in the header list."""
    _, cls, opt = case
    texts = [a + c + b for c in CH + ['\x1f', ';', '"', ','] for a in ('', 'x', 'é') for b in ('', 'y', '\r\nSet-Cookie: z=1')] + ['\r\n', '\r\n x', 'a' * 300 + '\n']
    for v in texts:
        for after in (False, True):
            r = make(cls)
            r.set_cookie('k', 'kept')
            try:
                if opt == 'name':
                    r.set_cookie('n' + v, 'v')
                elif opt == 'value':
                    r.set_cookie('n', v)
                elif opt == 'signed':
                    r.set_cookie('n', v, 's')
                elif opt == 'delete':
                    r.delete_cookie('n', path=v, domain=v)
                else:
                    r.set_cookie('n', 'v', **{opt: v})
            except Exception:   # noqa
                ctx.outcome('cookie refused')
            if after:
                r.set_cookie('l', 'last')
            ctx.trans()
            ctx.state((opt, v, cls, after))
            try:
                hl = r.headerlist
            except UnicodeError:
                if not surrogate(v):
                    raise
                continue
            where = 'set_cookie(%s) %s = %r' % (cls, opt, v)
            for n, x in hl:
                if type(n) is not str or type(x) is not str or any(b in x or b in n for b in BAD):
                    raise Violation('%s: %r in the header list' % (where, (n, x)))
                x.encode('latin1').decode('utf8')
            got = [x.partition('=')[0] for n, x in hl if n == 'Set-Cookie']
            if 'k' not in got or after and 'l' not in got:
                raise Violation('%s: cookies emitted are %r' % (where, got))
            ctx.outcome('cookie')


COOKIE_OPTS = ['name', 'value', 'signed', 'delete', 'path', 'domain', 'comment', 'expires', 'max_age', 'samesite', 'version', 'secure', 'httponly']


# --------------------------------------------------------------------------- served responses
def run_served(case, ctx):
    """What a handler offers, and what start_response gets."""
    import ombott
    _, how, setter, vi = case
    v = SERVED[vi]
    bad = isinstance(v, str) and any(b in v for b in BAD)
    app = app_for(case)

    def put(r):
        f, fixed, _ = SETTERS[setter]
        if setter in ('content_type', 'content_length', 'expires'):
            setattr(r, setter, v)
        elif setter == 'append':
            r.headers.append('X-A', v)
        elif setter == 'setdefault':
            r.headers.setdefault('X-A', v)
        else:
            r.headers['X-A'] = v
        return r

    @app.route('/x')
    def h():
        if how == 'ctx':
            put(app.response)
            return 'ok'
        if how == 'ret':
            return put(ombott.HTTPResponse('ok'))
        if how == 'raise':
            raise put(ombott.HTTPResponse('ok'))
        if how == 'kw':
            raise ombott.HTTPResponse('ok', X_A=v)
        if how == 'kwerr':
            raise ombott.HTTPError(404, 'x', X_A=v)
        if how == 'gen':
            def g():
                put(app.response)
                yield 'ok'
            return g()
        return 'ok'
    if how in ('before', 'after'):
        app.on(how + '_request', lambda: put(app.response))
    if how == 'onroute':
        app.on_route('/x', lambda p: put(app.response))
    if how == 'eh':
        app.error(404)(lambda res: (put(app.response), 'ok')[1])
    r = call(app, environ('/y' if how == 'eh' else '/x'))
    where = '%r by %s, %s' % (v, how, setter)
    if r.escaped:
        raise Violation('%s: %r escaped' % (where, r.escaped))
    if len(r.starts) != 1:
        raise Violation('%s: start_response called %d times' % (where, len(r.starts)))
    for k, x in r.headers:
        if type(x) is not str or any(b in x for b in BAD):
            raise Violation('%s: %r handed to the server' % (where, (k, x)))
        x.encode('latin1').decode('utf8')
    name = SETTERS[setter][1] or 'X-A'
    if how in ('kw', 'kwerr'):
        name = 'X-A'
    got = r.header_all(name)
    if bad or isinstance(v, (bytes, list)) or v == '\ud800':
        if r.code != 500:
            raise Violation('%s: answered with %r' % (where, r.status))
        if name == 'X-A' and got:
            raise Violation('%s: %r in the error response' % (where, got))
    elif setter == 'content_length' and how not in ('kw', 'kwerr'):
        pass
    elif name == 'Content-Type' and 'charset=' in v and r.code == 500:
        pass
    elif got != [wire(str(v))]:
        raise Violation('%s: %s is %r' % (where, name, got))
    ctx.trans()
    ctx.outcome(r.code)
    ctx.state(case)


SERVED = ['plain', 'é€😀', 'a\r\nb: c', 'x\n', '\ry', 'z\0', '\x85\u2028\x0b', b'bytes', ['l', 'm'], '\ud800', 'text/plain', 'a' * 5000, ' pad ']

def run_redirect(case, ctx):
    """redirect(text): whatever the text, the Location that reaches the server is one well-formed line."""
    import ombott
    _, first, how = case
    app = ombott.default_app()
    box = {}

    @app.route('/redirect', ['GET'], overwrite=True)
    def h():
        ombott.redirect(*box['args'])
    texts = [first + ''.join(x) for k in range(3) for x in itertools.product(CH + ['/', '?'], repeat=k)]
    texts += ['http://h/' + t for t in texts if len(t) < 3] + ['//h' + t for t in texts if len(t) < 3] + ['/p' + first * 300 + 'q', 'mailto:x' + first + 'y']
    for t in texts:
        box['args'] = (t,) + ((int(how),) if how.isdigit() else ())
        e = environ('/redirect', query='q=' + (t if how == 'query' and not surrogate(t) else ''))
        r = call(app, e)
        where = 'redirect%r' % (box['args'],)
        if r.escaped:
            raise Violation('%s: %r escaped' % (where, r.escaped))
        for k, x in r.headers:
            if type(x) is not str or any(b in x for b in BAD):
                raise Violation('%s: %r handed to the server' % (where, (k, x)))
            try:
                x.encode('latin1').decode('utf8')
            except UnicodeError:
                raise Violation('%s: %r is not UTF-8 as Latin-1' % (where, (k, x)))
        loc = r.header_all('Location')
        want = int(how) if how.isdigit() else (303, 302)[e.get('SERVER_PROTOCOL') != 'HTTP/1.1']
        if r.code == 500:
            if not any(ord(c) < 32 or c == '\ud800' for c in t) and '//' not in t:
                raise Violation('%s: refused' % where)
            if loc:
                raise Violation('%s: Location %r in an error response' % (where, loc))
        elif r.code != want or len(loc) != 1:
            raise Violation('%s: %s, Location %r' % (where, r.status, loc))
        ctx.trans()
        ctx.outcome('redirect %s' % r.code)
        ctx.state((case, t))


# --------------------------------------------------------------------------- histories of header operations
NAMES = ['X-A', 'X-B', 'Content-Type', 'content-type', 'Allow', 'Content-Length', 'last-modified', 'CONTENT-MD5', 'Content-Language',
         'content-encoding', 'Content-Range', 'ETag', 'Set-Cookie', 'Expires']
FORBIDDEN = {204: {'content-type'},
             304: {'allow', 'content-encoding', 'content-language', 'content-length', 'content-range', 'content-type', 'content-md5', 'last-modified'}}
STATI = [200, 204, 304, '204 Gone fishing', '304 Same', 206, 404, '200 Fine', 500, 100]


def hist_ops(names, rich):
    ops = []
    for n in names:
        ops += [('set', n, '1'), ('app', n, 'é2'), ('def', n, '3'), ('del', n)]
        if rich:
            ops += [('set', n, 4), ('app', n, None), ('bad', n, 'set'), ('bad', n, 'app'), ('bad', n, 'def'), ('pop', n), ('clear', n), ('deflist', n)]
    ops += [('clearall',), ('copy',), ('clone',), ('apply',), ('cookie', 'c', '1'), ('cookie', 'd', 'é'), ('upd', names[0], 'u')]
    if rich:
        ops += [('ctype', 'text/é'), ('clen', 5), ('badattr',), ('update-copy',)]
    return ops


def apply_op(r, m, ck, op):
    """One operation on the real response `r` and on the reference store `m` (name -> list), cookies `ck`; -> response"""
    import ombott
    k = op[0]
    if k == 'set':
        r.headers[op[1]] = op[2]
        m[op[1]] = [str(op[2])]
    elif k == 'app':
        r.headers.append(op[1], op[2])
        m.setdefault(op[1], []).append(str(op[2]))
    elif k == 'def':
        r.headers.setdefault(op[1], op[2])
        m.setdefault(op[1], [str(op[2])])
    elif k == 'deflist':
        r.headers.setdefault(op[1], ['l1', 'l2é'])
        m.setdefault(op[1], ['l1', 'l2é'])
    elif k in ('del', 'pop', 'clear'):
        if op[1] in m:
            if k == 'del':
                del r.headers[op[1]]
            elif k == 'pop':
                r.headers.pop(op[1])
            else:
                r.headers.clear(op[1])
            del m[op[1]]
        elif k == 'clear':
            r.headers.clear(op[1])
    elif k == 'bad':
        for v in ('x\r\ny', 'x\n', '\r', '\0', b'x', Obj()):
            try:
                if op[2] == 'set':
                    r.headers[op[1]] = v
                elif op[2] == 'app':
                    r.headers.append(op[1], v)
                else:
                    r.headers.setdefault(op[1], v)
            except Exception:   # noqa
                continue
            raise Violation('%s %r accepted by %s' % (op[1], v, op[2]))
    elif k == 'badattr':
        for a in ('content_type', 'content_length', 'expires'):
            try:
                setattr(r, a, 'x\r\ny')
            except Exception:   # noqa
                continue
            raise Violation('bad value accepted by %s' % a)
    elif k == 'clearall':
        r.headers.clear()
        m.clear()
    elif k == 'copy':
        r = r.copy(cls=ombott.HTTPResponse)
    elif k == 'clone':
        if hasattr(r, 'clone'):
            r = r.clone()
    elif k == 'apply':
        if hasattr(r, 'apply'):
            new = mods()[1]()
            new.headers['X-Old'] = 'old'
            r.apply(new)
            new2 = ombott.HTTPResponse()
            r.apply(new2)
            r = new2
    elif k == 'cookie':
        r.set_cookie(op[1], op[2])
        ck[op[1]] = op[2]
    elif k == 'upd':
        r.headers.update({op[1]: op[2]})
        m[op[1]] = [op[2]]
    elif k == 'update-copy':
        new = ombott.HTTPResponse()
        new.headers.update(dict(r.headers.copy().items()))
        if ck:
            return r
        r = new
    elif k == 'ctype':
        r.content_type = op[1]
        m['Content-Type'] = [op[1]]
    elif k == 'clen':
        r.content_length = op[1]
        m['Content-Length'] = [str(op[1])]
    return r


def emit_check(r, m, ck, where):
    for st in STATI:
        r.status = st
        code = st if isinstance(st, int) else int(st[:3])
        forb = FORBIDDEN.get(code, ())
        want = [(n, v) for n, vs in m.items() for v in vs if n.lower() not in forb]
        if code not in FORBIDDEN and not any(n.lower() == 'content-type' for n in m):
            want += DEFAULT_CT
        hl = r.headerlist
        sc = [v for n, v in hl if n == 'Set-Cookie']
        nset = len(m.get('Set-Cookie', ()))
        if len(sc) != nset + len(ck):
            raise Violation('%s: %d Set-Cookie headers for %d cookies' % (where, len(sc), nset + len(ck)))
        rest = list(hl)
        if ck:
            seen = []
            for c in hl:
                if c[0] == 'Set-Cookie' and c[1].split('=', 1)[0] in ck and c[1].split('=', 1)[0] not in seen and len(seen) < len(ck) and c[1] not in m.get('Set-Cookie', ()):
                    seen.append(c[1].split('=', 1)[0])
                    rest.remove(c)
            if sorted(seen) != sorted(ck):
                raise Violation('%s: cookies %r of %r emitted' % (where, seen, ck))
        check_list(rest, want, '%s, status %s' % (where, st))
        if r.headerlist != hl:
            raise Violation('%s: second header list differs: %r / %r' % (where, hl, r.headerlist))


def build(ops, cls):
    r, m, ck = make(cls), {}, {}
    for op in ops:
        r = apply_op(r, m, ck, op)
    return r, m, ck


def run_hist(case, ctx):
    _, cls, ops = case
    r, m, ck = build(ops, cls)
    emit_check(r, m, ck, '%s after %r' % (cls, ops))
    ctx.trans()


def search(cls, names, rich, depth, first, ctx, one=None):
    """Explicit-state search: a state is the real object's content, its successors are all operations."""
    ops = hist_ops(names, rich)
    seen = set()
    frontier = [(first,)]
    d = 1
    while frontier and d <= depth:
        nxt = []
        for h in frontier:
            case = ('hist', cls, h)
            if not ctx.run(case):
                continue
            r, m, ck = build(h, cls)
            key = canon(dict(r.headers.items())), canon(m), tuple(ck.items()), type(r).__name__
            ctx.state((cls, names) + (repr(key),))
            if key in seen:
                continue
            seen.add(key)
            if d < depth:
                nxt += [h + (op,) for op in ops]
        frontier = nxt
        d += 1


RUN = dict(cookie=run_cookie, text=run_text, pos=run_pos, points=run_points, served=run_served, redirect=run_redirect, hist=run_hist)


def run_case(case, ctx):
    RUN[case[0]](case, ctx)


HOWS = ['ctx', 'ret', 'raise', 'kw', 'kwerr', 'gen', 'before', 'after', 'onroute', 'eh']


def shards(tier):
    out = []
    for s in SETTERS:
        for c in ('resp', 'http', 'err'):
            if c == 'resp' and s.startswith('ctor'):
                continue    # the response of an application is not constructed with arguments
            out.append(dict(k='v', s=s, c=c))
    out.append(dict(k='served'))
    out.append(dict(k='cookie'))
    out.append(dict(k='redirect'))
    groups = [(['X-A'], True, 6 if tier == 'thorough' else 4), (['Content-Type', 'content-type'], True, 4 if tier == 'thorough' else 3),
              (['X-A', 'Allow'], True, 4 if tier == 'thorough' else 3), (['Set-Cookie', 'Expires'], False, 4)]
    groups += [([a, b], False, 3) for a, b in itertools.combinations(NAMES, 2)]
    if tier == 'thorough':
        groups += [([a, b, c], False, 3) for a, b, c in itertools.combinations(NAMES[:9], 3)]
    for gi, (names, rich, depth) in enumerate(groups):
        if gi < 4:
            for oi in range(len(hist_ops(names, rich))):
                out.append(dict(k='h', n=names, r=rich, d=depth, o=[oi]))
        else:
            out.append(dict(k='h', n=names, r=rich, d=depth, o=None))
    return out


def run_shard(shard, ctx):
    if shard['k'] == 'v':
        s, c = shard['s'], shard['c']
        for first in CH:
            ctx.run(('text', s, c, first))
        for ch in BAD:
            ctx.run(('pos', s, c, ch))
        ctx.run(('points', s, c, None))
    elif shard['k'] == 'cookie':
        for c in ('resp', 'http', 'err'):
            for o in COOKIE_OPTS:
                ctx.run(('cookie', c, o))
    elif shard['k'] == 'redirect':
        for first in CH + ['/']:
            for how in ('plain', '301', '307'):
                ctx.run(('redirect', first, how))
    elif shard['k'] == 'served':
        for h in HOWS:
            for s in ('item', 'append', 'setdefault', 'content_type', 'content_length', 'expires'):
                for vi in range(len(SERVED)):
                    if s == 'setdefault' and isinstance(SERVED[vi], list):
                        continue
                    ctx.run(('served', h, s, vi))
    else:
        names = shard['n']
        ops = hist_ops(names, shard['r'])
        for cls in ('resp', 'http', 'err'):
            for oi in shard['o'] or range(len(ops)):
                search(cls, names, shard['r'], shard['d'], ops[oi], ctx)
