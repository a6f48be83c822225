"""C15  Cookies round-trip; forged signed cookies are never deserialised."""
import base64
import hashlib
import hmac
import itertools
import pickle
import sys

from ..core import Violation
from ..wsgi import environ, call

ID = 'C15'
TECHNIQUE = ('exhaustive enumeration of cookie values/names/ways of setting against a browser model (set, return, read on the real '
             'application), and of all single-byte alterations, insertions, deletions, truncations, splices and key variations of '
             'signed cookies under a monitor that sees every call into the unpickler')
LEVEL_NOTE = ('all texts up to length 3 over 19 characters, all code points < 0x800 and one per block above; signed values of every '
              'picklable shape listed; per signed cookie: every position x 255 other bytes, all insertions, deletions, '
              'truncations, pairs of positions, spliced signatures, bit flips of the secret')
RULE = ('a cookie that was accepted reads back equal; an altered signed cookie reads as the default and no unpickler is called')
ASSUMPTIONS = ['the browser keeps what is in front of the first `;` of Set-Cookie and returns the pairs joined by "; "',
               'set_cookie may refuse control characters, lone surrogates, texts over 4096 characters and names that are no token or '
               'reserved by the cookie syntax',
               'deserialisation is observed as calls of the pickle module (profile events and the pickle.find_class audit event)']
BOUNDS = dict(quick='texts <= 3 over 19 chars x 5 ways of setting (length <= 2), 8 signed cookies x all single-byte edits, all position pairs for 2 of them',
              thorough='texts <= 3 x 5 ways, 8 signed cookies x all single-byte edits and all position pairs')

CHARS = ['a', '0', ' ', '"', '\\', ';', ',', '=', '%', '+', '!', '?', "'", 'é', '€', '😀', '\u2028', '\x80', '\n']
NAMES = ['a', 'n', 'Name', 'x-y_z', 'a.b', "!#%&'*+-.^_`|~", '9', 'a:b', '__Host-q', 'sessionid', 'Zz', 'pathx']
BADNAMES = ['path', 'Expires', '$a', '$', 'é', 'a b', 'a=b', 'a;b', '', 'a,b', 'a"b', '\n', 'a\x00', 'Version', 'secure', 'HttpOnly', 'samesite']
OPTS = [{}, dict(path='/'), dict(max_age=10, secure=True, httponly=True), dict(domain='x.y', expires=0, path='/a b'), dict(samesite='Lax')]
WAYS = ['ctx', 'obj', 'raise', 'copy', 'hook']
SENT = object()


class Evil:
    """Its unpickling calls boom()."""
    def __init__(self, tag='x'):
        self.tag = tag

    def __reduce__(self):
        return boom, (self.tag,)


BOOM = []


def boom(tag):
    BOOM.append(tag)
    return tag


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return type(o) is Obj and self.__dict__ == o.__dict__


def cyc():
    a = []
    a.append({'me': a, 'n': 1})
    return a


VALUES = ['', 'text', 'é€😀', 0, 1, -1, 2 ** 70, 1.5, float('inf'), None, True, False, b'', b'\x00\xff', [], [1, 'a', None], {}, {'a': [1, 2]},
          (1, (2, ())), {1, 2}, frozenset('ab'), 1j, slice(1, 2), Obj(a=1, b='x'), [Obj(), {'k': (Obj(z=2),)}], range(5), 'x' * 1500, {'': ''},
          [None], ('n', 'v'), ('a', 1), int, len, Ellipsis, bytearray(b'ab'), '"; \\ \r\n', {'k': {'k': {'k': ['deep']}}}]
SECRETS = ['s', 'secret', 'sécret€', b'bytes\x00\xff', 'k' * 100, ' ', '!?=', b'0']


# ------------------------------------------------------------------ deserialisation monitor
SEEN = []
_armed = [False]


def _audit(ev, args):
    if _armed[0] and ev in ('pickle.find_class', 'marshal.loads'):
        SEEN.append((ev, str(args)[:60]))


_hooked = [False]
_MODS = ('_pickle', 'pickle', 'marshal')


def _prof(frame, event, arg):
    if event == 'c_call':
        if getattr(arg, '__module__', None) in _MODS and getattr(arg, '__name__', '') in ('loads', 'load', 'Unpickler'):
            SEEN.append(('call', arg.__name__))
        elif type(getattr(arg, '__self__', None)).__name__ == 'Unpickler':
            SEEN.append(('call', 'Unpickler'))
    elif event == 'call' and frame.f_globals.get('__name__') == 'pickle' and 'load' in frame.f_code.co_name:
        SEEN.append(('call', frame.f_code.co_name))


def watched(fn):
    if not _hooked[0]:
        sys.addaudithook(_audit)
        _hooked[0] = True
    del SEEN[:]
    del BOOM[:]
    _armed[0] = True
    sys.setprofile(_prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)
        _armed[0] = False


# ------------------------------------------------------------------ round trips
def browser(headers, jar=None):
    jar = {} if jar is None else jar
    for k, v in headers:
        if k.lower() == 'set-cookie':
            pair = v.split(';', 1)[0]
            name, _, val = pair.partition('=')
            jar[name.strip()] = val.strip()
    return jar


def app_for():
    import ombott
    return ombott.Ombott()


class Set:
    """One application; `plan` lists the cookies it sets, `got` receives what the second request reads."""

    def __init__(self):
        import ombott
        self.app = app = ombott.Ombott()
        self.plan = []
        self.way = 'ctx'
        self.rejected = None

        def put(target):
            self.rejected = []
            for name, value, secret, opts in self.plan:
                try:
                    target.set_cookie(name, value, secret, **opts)
                except Exception as e:   # noqa
                    self.rejected.append((name, e))

        @app.route('/set')
        def set_():
            if self.way == 'ctx':
                put(app.response)
                return 'ok'
            if self.way == 'hook':
                return 'ok'
            if self.way == 'copy':
                put(app.response)
                raise app.response.copy(cls=ombott.HTTPResponse)
            r = ombott.HTTPResponse('ok')
            put(r)
            if self.way == 'raise':
                raise r
            return r

        @app.on('after_request')
        def hook():
            if self.way == 'hook' and app.request.path == '/set':
                put(app.response)

        @app.route('/get')
        def get_():
            self.got = self.read(app.request)
            return ''

    def trip(self, plan, way, extra=None, sep='; ', second=None):
        self.plan, self.way = plan, way
        r = call(self.app, environ('/set'))
        if r.escaped or r.code != 200:
            raise Violation('setting %r by %s: %s %r' % (plan, way, r.status, r.escaped))
        for k, v in r.headers:
            v.encode('latin1')
        jar = browser(r.headers)
        pairs = ['%s=%s' % kv for kv in jar.items()]
        if extra:
            pairs = extra[0] + pairs + extra[1]
        return sep.join(pairs)

    def back(self, header, read):
        self.read = read
        self.got = None
        r = call(self.app, environ('/get', HTTP_COOKIE=header))
        if r.escaped or r.code != 200:
            raise Violation('reading %r: %s %r' % (header[:200], r.status, r.escaped))
        return self.got


_set = []


def S():
    if not _set:
        _set.append(Set())
    return _set[0]


def acceptable(text):
    return not any(ord(c) < 0x20 or ord(c) == 0x7f or 0xd800 <= ord(c) < 0xe000 for c in text) and len(text) <= 4096


def check_plain(items, way, ctx, extra=None, sep='; ', opts=None):
    s = S()
    plan = [(n, v, None, opts or {}) for n, v in items]
    header = s.trip(plan, way, extra, sep)
    rej = [n for n, _ in s.rejected]
    want = {}
    for n, v in items:
        if acceptable(v):
            want[n] = v
    for n, v in items:
        if n in rej and acceptable(v):
            raise Violation('set_cookie(%r, %r) refused: %r' % (n, v, s.rejected))
    for n, v in items:
        if n not in rej:
            want[n] = v

    def read(rq):
        return {n: (rq.get_cookie(n, SENT), rq.cookies.get(n, SENT), rq.cookies.getunicode(n, SENT), rq.copy().get_cookie(n, SENT)) for n in want}
    got = s.back(header, read)
    for n, v in want.items():
        if any(type(g) is not str or g != v for g in got[n]):
            raise Violation('cookie %s=%r set by %s, request has %r, read back %r' % (n, v, way, header, got[n]))
        ctx.outcome('text read back')
    for n in rej:
        ctx.outcome('text refused')
    ctx.trans()


def run_plain(case, ctx):
    _, kind, arg = case
    if kind == 'text':
        first, n, ways = arg
        for rest in itertools.product(CHARS, repeat=n - 1):
            v = first + ''.join(rest)
            for w in WAYS[:ways]:
                check_plain([('n', v)], w, ctx)
            ctx.state(v)
    elif kind == 'empty':
        for w in WAYS:
            for name in NAMES:
                check_plain([(name, '')], w, ctx)
    elif kind == 'points':
        lo, hi = arg
        for c in range(lo, hi):
            for v in (chr(c), 'x%sy' % chr(c)):
                if 0xd800 <= c < 0xe000:
                    continue
                check_plain([('n', v)], 'ctx', ctx)
    elif kind == 'len':
        for n in list(range(0, 40)) + list(range(4080, 4097)):
            for c in 'aé"€':
                check_plain([('n', c * n)], 'ctx', ctx)
    elif kind == 'names':
        for n in NAMES:
            for v in ('v', '', 'é', 'a b', '$x', 'x=y'):
                for o in OPTS:
                    for w in WAYS:
                        check_plain([(n, v)], w, ctx, opts=o)
        # several cookies, also such whose name is part of the other one
        for a, b in itertools.permutations(NAMES, 2):
            for v in (('1', '2'), ('', 'x'), ('é', '€'), ('a;b', ' '), ('same', 'same')):
                for sep in ('; ', ';'):
                    check_plain([(a, v[0]), (b, v[1])], 'ctx', ctx, sep=sep)
            ctx.state((a, b))
    elif kind == 'multi':
        vals = ['1', '', 'é', '€', 'a b', '"', ';', 'x=1', '\\', '%3B', '!a?b', '😀,']
        for c in itertools.product(vals, repeat=3):
            check_plain(list(zip(('a', 'b', 'c'), c)), 'ctx', ctx)
            ctx.state(c)
        for c in itertools.product(vals, repeat=2):       # the later one replaces the earlier one
            for w in WAYS:
                check_plain([('a', c[0]), ('o', 'o'), ('a', c[1])], w, ctx)
    elif kind == 'foreign':
        for pre, post in itertools.product([[], ['x=1'], ['$Version=1'], ['a@b=1'], ['x="q"'], ['x='], ['x="\\001"']], repeat=2):
            for v in ('v', 'é€', 'a b', ''):
                check_plain([('n', v)], 'ctx', ctx, (pre, post))
    elif kind == 'badnames':
        s = S()
        for n in BADNAMES:
            for w in WAYS:
                header = s.trip([(n, 'v', None, {})], w)
                if not s.rejected:
                    got = s.back(header, lambda rq: rq.get_cookie(n, SENT))
                    if got != 'v':
                        raise Violation('cookie name %r is accepted by set_cookie, but reads back %r' % (n, got))
                ctx.trans()


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except RecursionError:
        return repr(a) == repr(b)


def run_signed(case, ctx):
    _, si, way = case
    s = S()
    sec = SECRETS[si]
    for vi, v in enumerate(VALUES + [cyc()]):
        for n in NAMES[:4] if len(repr(v)) < 100 else NAMES[:1]:
            header = s.trip([(n, v, sec, {}), ('other', 'o', None, {}), ('sig2', [n], 'x', {})], way)
            if s.rejected:
                raise Violation('signed cookie %r refused: %r' % (v, s.rejected))
            got = s.back(header, lambda rq: (rq.get_cookie(n, SENT, sec), rq.get_cookie('other', SENT), rq.get_cookie('sig2', SENT, 'x'),
                                             rq.get_cookie(n, SENT, sec), rq.copy().get_cookie(n, SENT, sec)))
            if not (eq(got[0], v) and eq(got[3], v) and eq(got[4], v)):
                raise Violation('signed cookie %r (secret %r, set by %s) read back as %r' % (v, sec, way, got[0]))
            if got[1] != 'o' or got[2] != [n]:
                raise Violation('cookies next to the signed one read back as %r' % (got[1:3],))
            ctx.trans()
            ctx.state((si, vi, n))
            ctx.outcome('signed value read back')
            # other secrets and absence
            for other in SECRETS:
                if other == sec:
                    continue
                g = s.back(header, lambda rq: watched(lambda: rq.get_cookie(n, SENT, other)))
                if g is not SENT or SEEN:
                    raise Violation('cookie signed with %r read with %r: %r, unpickler calls %r' % (sec, other, g, SEEN))
                ctx.trans()


# ------------------------------------------------------------------ tampering
def raw_signed(name, value, secret):
    """The text of the signed cookie as the application makes it."""
    s = S()
    header = s.trip([(name, value, secret, {})], 'ctx')
    if s.rejected:
        raise Violation('signed cookie refused: %r' % (s.rejected,))
    return s.back(header, lambda rq: rq.get_cookie(name))


def quote(raw):
    """raw text -> Cookie header value carrying it; control characters go as octal escapes."""
    out = []
    for ch in raw:
        o = ord(ch)
        if ch in '"\\':
            out.append('\\' + ch)
        elif o < 0x20 or o == 0x7f or ch in ';,':
            out.append('\\%03o' % o)
        else:
            out.append(ch)
    return '"%s"' % ''.join(out)


def forms(raw, deep=False):
    """Ways a client can write the cookie text."""
    yield quote(raw)
    if deep and raw and not any(c in raw for c in '";, \\\r\n\t') and all(0x20 < ord(c) < 0x7f for c in raw):
        yield raw
    if deep:
        yield '"%s"' % ''.join('\\%03o' % (ord(c) & 0xff) if ord(c) < 256 else c for c in raw)


def absent(name, text, secret, what, ctx, direct=True, deep=False):
    s = S()
    rq = _rq()
    for f in forms(text, deep):
        env = dict(HTTP_COOKIE='%s=%s' % (name, f), REQUEST_METHOD='GET', PATH_INFO='/')
        rq.__init__(env)
        try:
            g = watched(lambda: rq.get_cookie(name, SENT, secret))
        except Exception as e:   # noqa
            raise Violation('%s: get_cookie raised %r for cookie %r (secret %r)' % (what, e, text, secret))
        if g is not SENT:
            raise Violation('%s: cookie %r (secret %r) reads as %r' % (what, text, secret, g))
        if SEEN or BOOM:
            raise Violation('%s: cookie %r (secret %r) reads as absent but was deserialised: %r' % (what, text, secret, SEEN or BOOM))
        ctx.outcome('forged cookie absent')
        ctx.trans()


def equal_key(name, value, secret, other, sig, ctx):
    """A cookie signed with one secret, read with another one."""
    raw = raw_signed(name, value, secret)
    try:
        absent(name, raw, other, 'other secret', ctx)
    except Violation as v:
        raise Violation(str(v), sig)


_rqs = []


def _rq():
    if not _rqs:
        import ombott
        from ombott.request_pkg import Request
        _rqs.append(Request())
    return _rqs[0]


TAMPER = [('n', 'v', 's'), ('n', None, 'secret'), ('session', {'user': 'root', 'x': [1, 2]}, 'sécret€'), ('n', 7, b'bytes\x00\xff'),
          ('a', ('a', 'x'), 'k'), ('n', 'EVIL', 's'), ('n', ['EVIL', 1], 'secret'), ('x-y', '', ' '),
          ('n', 'v', 'k' * 32), ('n', 'v', 'long ' * 13), ('n', 'v', bytes(range(1, 201)))]


def tval(v):
    if v == 'EVIL':
        return Evil()
    if isinstance(v, list):
        return [tval(x) for x in v]
    return v


def run_tamper(case, ctx):
    _, ti, kind, arg = case
    name, v, secret = TAMPER[ti]
    v = tval(v)
    raw = raw_signed(name, v, secret)
    rq = _rq()
    # the harness sees the unpickler at work on the untouched cookie
    rq.__init__(dict(HTTP_COOKIE='%s=%s' % (name, quote(raw)), REQUEST_METHOD='GET', PATH_INFO='/'))
    g = watched(lambda: rq.get_cookie(name, SENT, secret))
    if g is SENT:
        raise Violation('signed cookie %r reads as absent' % raw)
    if not SEEN:
        ctx.note('no unpickler call seen on a genuine signed cookie')
    L = len(raw)
    if kind == 'byte':
        for i in range(arg, L, 8):
            for b in range(256):
                c = chr(b)
                if c == raw[i]:
                    continue
                absent(name, raw[:i] + c + raw[i + 1:], secret, 'byte %d of %d altered' % (i, L), ctx)
            for c in '€\u0131\uff21':
                absent(name, raw[:i] + c + raw[i + 1:], secret, 'character %d altered' % i, ctx)
            ctx.state((ti, i))
    elif kind == 'len':
        for i in range(L):
            absent(name, raw[:i], secret, 'truncated to %d of %d' % (i, L), ctx, deep=True)
            if i:
                absent(name, raw[i:], secret, 'first %d cut off' % i, ctx, deep=True)
            absent(name, raw[:i] + raw[i + 1:], secret, 'character %d removed' % i, ctx, deep=True)
            absent(name, raw[:i] + raw[i + 1:i + 2] + raw[i] + raw[i + 2:], secret, 'characters swapped at %d' % i, ctx) \
                if i + 1 < L and raw[i] != raw[i + 1] else None
            for j in range(i + 2, L):
                absent(name, raw[:i] + raw[j:], secret, 'cut out %d..%d' % (i, j), ctx)
        for i in range(L + 1):
            for c in 'A=!?+/ \n\x00é"-_':
                absent(name, raw[:i] + c + raw[i:], secret, 'character inserted at %d' % i, ctx)
        for x in (raw + raw, raw + '; x', raw + '=', raw + '==', raw.upper(), raw.lower(), raw.swapcase(), '!' + raw, raw[1:], '!?', '!', '?',
                  '!' + raw.split('?', 1)[1], raw.split('?', 1)[0] + '?', '!?' + raw.split('?', 1)[1], raw[::-1], raw.replace('?', '??'),
                  raw.replace('=', ''), raw.replace('+', '-').replace('/', '_') + ' '):
            if x != raw:
                absent(name, x, secret, 'rewritten', ctx, deep=True)
    elif kind == 'pair':
        pos = list(range(L))
        for i, j in itertools.combinations(pos, 2):
            if (i + j) % 8 != arg:
                continue
            # exchange, equal change, increments that keep the sum
            alts = {raw[:i] + raw[j] + raw[i + 1:j] + raw[i] + raw[j + 1:],
                    raw[:i] + 'A' + raw[i + 1:j] + 'A' + raw[j + 1:],
                    raw[:i] + chr(ord(raw[i]) + 1) + raw[i + 1:j] + chr(ord(raw[j]) - 1) + raw[j + 1:],
                    raw[:i] + chr(ord(raw[i]) ^ 1) + raw[i + 1:j] + chr(ord(raw[j]) ^ 1) + raw[j + 1:],
                    raw[:i] + chr(ord(raw[i]) ^ 32) + raw[i + 1:j] + chr(ord(raw[j]) ^ 32) + raw[j + 1:]}
            for a in alts - {raw}:
                absent(name, a, secret, 'characters %d and %d altered' % (i, j), ctx)
    elif kind == 'forge':
        payloads = [base64.b64encode(pickle.dumps(x, p)).decode() for p in range(0, 6)
                    for x in ((name, Evil()), Evil(), (name, 'v'), [name, Evil()], {name: 1}, name, None)]
        payloads.append(raw.split('?', 1)[1])
        sigs = set()
        good = raw[1:].split('?', 1)[0]
        key = secret.encode() if isinstance(secret, str) else secret
        for k in range(len(good) + 1):
            sigs.add(good[:k])
            sigs.add(good[k:])
        for p in payloads:
            pb = p.encode()
            mine = set(sigs)
            for h in (hashlib.md5, hashlib.sha1, hashlib.sha256):
                for kk in (b'', b'x', name.encode(), pb, key[:-1], key + b'\x01', key * 2, key[::-1] + b'y', key.upper() + b'z', b'None', b'\x00' * 65 + key, key + b' '):
                    mine.add(base64.b64encode(hmac.new(kk, pb, h).digest()).decode())
                    mine.add(hmac.new(kk, pb, h).hexdigest())
                mine.add(base64.b64encode(h(pb).digest()).decode())
                mine.add(h(pb).hexdigest())
                if key:
                    mine.add(base64.b64encode(h(pb + b'').digest()).decode())
            mine |= {'', '!', '=', '==', 'A' * 24, '\x00', 'é'}
            for sg in mine:
                t = '!%s?%s' % (sg, p)
                if t == raw:
                    continue
                absent(name, t, secret, 'forged', ctx)
        # payload of one cookie with the signature of another one
        for tj, (n2, v2, s2) in enumerate(TAMPER):
            if tj == ti:
                continue
            for vv in (tval(v2), 'z', 0):
                other = raw_signed(n2, vv, s2)
                a, b = raw[1:].split('?', 1), other[1:].split('?', 1)
                for t in ('!%s?%s' % (a[0], b[1]), '!%s?%s' % (b[0], a[1])):
                    if t != raw and t != other:
                        absent(name, t, secret, 'spliced', ctx)
                same = raw_signed(n2, vv, secret)
                a, b = raw[1:].split('?', 1), same[1:].split('?', 1)
                if a[1] != b[1]:
                    absent(name, '!%s?%s' % (a[0], b[1]), secret, 'spliced', ctx)
                    absent(name, '!%s?%s' % (b[0], a[1]), secret, 'spliced', ctx)
    elif kind == 'secret':
        key = secret if isinstance(secret, bytes) else secret.encode()
        others = {key + b'x', key[:-1], key[1:], key[::-1], b'x' + key, key + key, key.upper(), key.swapcase(), key + b'\n', key + b' ', b'!', b'None'}
        for i in range(len(key)):
            for b in range(256) if len(key) < 20 else (key[i] ^ 1, key[i] ^ 0x20, key[i] ^ 0x80, 0x78):
                others.add(key[:i] + bytes([b]) + key[i + 1:])
        # HMAC pads keys with NUL up to the block size: those are the same key
        # (one pair of each kind is explored as `equal` and recorded as a known finding)
        pad = lambda k: (k if len(k) <= 64 else hashlib.md5(k).digest()).ljust(64, b'\0')
        for o in sorted(others):
            if not o or pad(o) == pad(key):
                continue
            absent(name, raw, o, 'other secret', ctx, deep=True)
            try:
                o = o.decode()
            except UnicodeError:
                continue
            absent(name, raw, o, 'other secret', ctx)
            absent(name, raw_signed(name, 'v', o), secret, 'signed with another secret', ctx)
    elif kind == 'name':
        # a genuine cookie moved to another name
        s = S()
        near = [name + 'x', 'x' + name, name.upper() + 'Q', name[:-1] or 'zz', name[1:] or 'zz', name.upper(), name.lower(), name.swapcase(), name.title(), name[::-1], name + name,
                name + '_', '_' + name, name + '.', name + '-', name.replace('-', '_'), name.replace('_', '-'), name + '0', name + '1', '$' + name, '__Host-' + name, '__Secure-' + name,
                name + '+', name + '%20', name + '!', name.strip("!#$%&'*+-.^_`|~"), name + '^', name + "'", '"'[:0] + name + '`']
        near += [name[:i] + c + name[i + 1:] for i in range(len(name)) for c in (name[i].swapcase(), chr(ord(name[i]) ^ 1), 'x') if c.isalnum()]
        for n2 in NAMES + near:
            if n2 == name or not n2:
                continue
            rq.__init__(dict(HTTP_COOKIE='%s=%s' % (n2, quote(raw)), REQUEST_METHOD='GET', PATH_INFO='/'))
            g = rq.get_cookie(n2, SENT, secret)
            if g is not SENT:
                raise Violation('signed cookie %s reads under the name %s as %r' % (name, n2, g))
            ctx.trans()


# HMAC takes these pairs of secrets for one key (see KNOWN_FINDINGS.txt)
EQUAL_KEYS = [('n', 'v', 's', 's\0', 'secret-s-nul'), ('n', 'v', 'k' * 65, hashlib.md5(b'k' * 65).digest(), 'secret-k65-digest')]


def run_equal(case, ctx):
    equal_key(*EQUAL_KEYS[case[1]], ctx)


RUN = dict(plain=run_plain, signed=run_signed, tamper=run_tamper, equal=run_equal)


def run_case(case, ctx):
    RUN[case[0]](case, ctx)


def cases(tier):
    th = tier == 'thorough'
    for c in CHARS:
        for n in (1, 2, 3):
            yield ('plain', 'text', (c, n, 5 if n < 3 or th else 1))
    for k in ('empty', 'len', 'names', 'multi', 'foreign', 'badnames'):
        yield ('plain', k, None)
    for lo in range(0, 0x800, 0x100):
        yield ('plain', 'points', (lo, lo + 0x100))
    for lo in range(0x800, 0x110000, 0x2000 if not th else 0x400):
        yield ('plain', 'points', (lo, min(lo + 4, 0x110000)))
    for si in range(len(SECRETS)):
        for w in WAYS:
            yield ('signed', si, w)
    for i in range(len(EQUAL_KEYS)):
        yield ('equal', i)
    for ti in range(len(TAMPER)):
        for k in range(8):
            yield ('tamper', ti, 'byte', k)
        for k in ('len', 'forge', 'secret', 'name'):
            yield ('tamper', ti, k, 0)
        if th or ti in (0, 5):
            for k in range(8):
                yield ('tamper', ti, 'pair', k)


NSHARD = 48


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
