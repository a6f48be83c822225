"""C18 - query strings and urlencoded forms decode to exactly what was sent."""
import itertools
from urllib.parse import quote, quote_plus

from ..core import Violation
from .. import wsgi
from .c01 import ODD as _ODD

ID = 'C18'
TECHNIQUE = 'explicit-state model checking: exhaustive enumeration of pair lists x encodings and of all raw strings to a length bound, against the sent list'
LEVEL_NOTE = ('Exhaustive within the stated alphabet and lengths on the real code through WSGI and Request; nothing is modelled. '
    'Some 150 texts that normalisation, stripping, case folding or unquoting would change, alone and in pairs. Says nothing about longer strings over other characters.')
RULE = ('every list of up to 3 (key,value) pairs over the adversarial alphabet, in 6 URL-encodings (escapes in upper and lower case, `+` and %20, unreserved characters escaped, `=` raw in values, each pair spelled in another way), sent as query, as form '
        'body (Content-Length and chunked) and as both; every raw string up to the length bound for totality; a state is a '
        'distinct (wire string, channel), a transition one character of it consumed by the scanner')
ASSUMPTIONS = ['raw strings are only required to parse without raising; their value is checked only when they are an encoding of a pair list']
BOUNDS = {'quick': dict(raw_len=6, key_len=2, value_len=2, pairs=3), 'thorough': dict(raw_len=7, key_len=2, value_len=3, pairs=4)}

SPECIAL = ['a', '=', '&', '+', '%', ' ', ';', '\xe9', '\u20ac', '\U0001F600', '\x00', '\n', '\r', '#', '"', '\\', '\xa0', '\u2028', '2']
SMALL = ['a', '=', '&', '+', '%', ' ', '\xe9', '2']
RAW = ['a', '=', '&', '%', '+', ';', '4']


def _enc_min(s):
    # encode only what has a meaning (lower-case escapes, '/' etc. left alone), space as %20
    out = []
    for b in s.encode('utf8'):
        c = chr(b)
        if c in '=&+% ' or b >= 0x7f or b < 0x20:
            out.append('%%%02x' % b)
        else:
            out.append(c)
    return ''.join(out)


def _enc_all(s):
    return ''.join('%%%02X' % b for b in s.encode('utf8'))


def _enc_low(s):
    # unreserved characters escaped too, lower-case
    return ''.join('+' if b == 0x20 else '%%%02x' % b for b in s.encode('utf8'))


ENC = {'plus': quote_plus, 'pct': lambda s: quote(s, safe=''), 'min': _enc_min, 'all': _enc_all}


def wire(pairs, enc):
    if enc == 'eq':
        # the first `=` ends the key: one in a value needs no escape
        return '&'.join(quote_plus(k) + '=' + quote_plus(v, safe='=/?:@!$\'()*,;') for k, v in pairs)
    if enc == 'var':
        # every pair spelled in another way
        fs = [quote_plus, _enc_all, _enc_min, _enc_low]
        return '&'.join(fs[i % 4](k) + '=' + fs[(i + 1) % 4](v) for i, (k, v) in enumerate(pairs))
    e = ENC[enc]
    return '&'.join(e(k) + '=' + e(v) for k, v in pairs)


def expected(pairs):
    out = {}
    cnt = {}
    for k, v in pairs:
        cnt[k] = cnt.get(k, 0) + 1
        if cnt[k] == 1:
            out[k] = v
        elif cnt[k] == 2:
            out[k] = [out[k], v]
        else:
            out[k].append(v)
    return out


_app = None


def app():
    global _app
    if _app is None:
        import ombott
        _app = ombott.Ombott()
        box = {}

        def h():
            rq = _app.request
            box.clear()
            if rq.method == 'GET':
                box['query'] = rq.query
                box['GET'] = rq.GET
                box['params'] = rq.params
                box['query2'] = rq.query
            else:
                box['forms'] = rq.forms
                box['POST'] = rq.POST
                box['files'] = rq.files
                box['params'] = rq.params
                box['query'] = rq.query
            return 'ok'
        _app.route('/x', ['GET', 'POST'], h)
        _app._box = box
    return _app


def chunk(data, size):
    out = []
    for i in range(0, len(data), size):
        c = data[i:i + size]
        out.append(b'%x\r\n%s\r\n' % (len(c), c))
    return b''.join(out) + b'0\r\n\r\n'


def send(channel, qs, body):
    a = app()
    kw = {}
    if channel == 'query':
        env = wsgi.environ('/x', 'GET', qs=qs)
    else:
        raw = body.encode('latin1')
        kw['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
        if 'charset' in channel:
            kw['CONTENT_TYPE'] = 'application/x-www-form-urlencoded; charset=UTF-8'
        if 'none' in channel:
            kw['CONTENT_TYPE'] = None
        if 'chunked' in channel:
            env = wsgi.environ('/x', 'POST', qs=qs, body=chunk(raw, 5), HTTP_TRANSFER_ENCODING='chunked',
                               CONTENT_LENGTH=channel.partition('-cl')[2] or None, **kw)
        else:
            env = wsgi.environ('/x', 'POST', qs=qs, body=raw, CONTENT_LENGTH=str(len(raw)), **kw)
    a._box.clear()
    r = wsgi.call(a, env)
    return r, dict(a._box), env


def plain(d):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}


def run_case(case, ctx):
    kind = case['k']
    if kind == 'rt':
        pairs = [tuple(p) for p in case['pairs']]
        w = wire(pairs, case['enc'])
        ch = case['ch']
        ctx.trans(len(w))
        ctx.state((w, ch))
        exp = expected(pairs)
        extra = case.get('q') or []
        if ch == 'query':
            r, box, env = send('query', w, '')
            want = {'query': exp, 'GET': exp, 'params': exp, 'query2': exp}
        else:
            qs = wire(extra, 'plus')
            r, box, env = send(ch, qs, w)
            pe = dict(expected(extra))
            pe.update(exp)
            want = {'forms': exp, 'POST': exp, 'files': {}, 'params': pe, 'query': expected(extra)}
        if r.code != 200:
            raise Violation('sending %r as %s was answered %s; errors: %s' % (w, ch, r.status, env['wsgi.errors'].text[-500:]))
        for k, v in want.items():
            got = plain(box.get(k, {}))
            if got != v:
                raise Violation('%r sent as %s: request.%s is %r, expected %r' % (w, ch, k, got, v))
            for kk, x in got.items():
                for y in (x if isinstance(x, list) else [x]):
                    if type(y) is not str:
                        raise Violation('%r: %s value %r is not text' % (w, k, y))
        ctx.outcome('rt:%d:%d' % (len(exp), sum(isinstance(v, list) for v in exp.values())))
    elif kind == 'raw':
        s = case['s']
        from ombott import Request
        try:
            q = Request({'QUERY_STRING': s}).query
        except Exception as e:    # noqa
            raise Violation('parsing the query string %r raised %r' % (s, e))
        ctx.outcome('raw:%d' % len(q))
        ctx.trans(len(s))
        ctx.state(s)
    elif kind == 'rawform':
        s = case['s']
        ctx.trans(len(s))
        ctx.state((s, case['ch']))
        r, box, env = send(case['ch'], '', s)
        if r.code != 200:
            raise Violation('parsing the form body %r was answered %s %s' % (s, r.status, env['wsgi.errors'].text[-500:]))


def strings(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n):
            yield ''.join(t)


# the -cl channels send a Content-Length next to Transfer-Encoding: chunked (which overrides it)
CHANNELS = ['query', 'form', 'form-chunked', 'form-charset', 'form-none', 'form-chunked-cl0', 'form-chunked-cl2', 'form-chunked-cl200000']


ODD = [t for t in _ODD if not any(0xd800 <= ord(c) < 0xe000 for c in t)] + [
    'a\r', '\r\n', '\r', 'a\rb', '\u0958', '\u2126', '\u1e9b\u0323', '\U0002f800', 'A\u030a', '\u0344', '%u00e9', '\\u00e9', '&amp;', '&#233;', '&eacute', '=?utf-8?q?a?=',
    '0', 'None', 'null', 'true', '[]', 'k[]', 'k[0]', 'a.b', '\x1f', '\x80', '\x9f', '\xff', '\u0100', '\u07ff', '\u0800', '\uffff', '\ufffd', '\ufffe', '\U00010000', '\U0010ffff']


def shards(tier):
    out = [{'s': 'odd', 'i': i} for i in range(8)]
    for a in SPECIAL:
        out.append({'s': 'one', 'first': a})
    for a in SMALL:
        out.append({'s': 'two', 'first': a})
    out += [{'s': 'three', 'i': i} for i in range(6)]
    for a in RAW:
        out.append({'s': 'raw', 'first': a})
    out.append({'s': 'rawform'})
    out.append({'s': 'rawbytes'})
    out.append({'s': 'many'})
    return out


def run_shard(sh, ctx):
    T = ctx.thorough
    s = sh['s']
    if s == 'one':
        keys = [sh['first'] + x for x in strings(SPECIAL, 0, 1)]
        vals = list(strings(SPECIAL, 0, 1)) + list(strings(SMALL, 2, 3 if T else 2))
        for k in keys:
            for v in vals:
                for e in list(ENC) + ['eq', 'var']:
                    ctx.run({'k': 'rt', 'pairs': [[k, v]], 'enc': e, 'ch': 'query'})
                if len(k) == 1:
                    for ch in CHANNELS[1:]:
                        ctx.run({'k': 'rt', 'pairs': [[k, v]], 'enc': 'plus', 'ch': ch})
        if sh['first'] in SMALL:
            for v in strings(SPECIAL, 2, 2):
                ctx.run({'k': 'rt', 'pairs': [[sh['first'], v]], 'enc': 'plus', 'ch': 'query'})
                ctx.run({'k': 'rt', 'pairs': [[sh['first'], v]], 'enc': 'min', 'ch': 'query'})
                ctx.run({'k': 'rt', 'pairs': [[sh['first'], v]], 'enc': 'eq', 'ch': 'query'})
            for v in strings(['=', 'a', '&', ' '], 3, 5 if T else 4):
                ctx.run({'k': 'rt', 'pairs': [[sh['first'], v], ['b', v]], 'enc': 'eq', 'ch': 'query'})
            for v in strings(['%', '2', '5', 'B', '+', ' '], 3, 4):
                ctx.run({'k': 'rt', 'pairs': [[sh['first'], v]], 'enc': 'plus', 'ch': 'query'})
    elif s == 'two':
        keys = list(strings(SMALL, 1, 1)) + ['a=', '&a', '+a', 'a%']
        vals = ['', 'a', '=', '&', '+', '%2', ' ', '\xe9', 'a=a', '&&']
        k1 = sh['first']
        for v1 in vals:
            for k2 in keys:
                for v2 in vals:
                    ps = [[k1, v1], [k2, v2]]
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'plus', 'ch': 'query'})
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'min', 'ch': 'form'})
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'eq', 'ch': 'form'})
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'var', 'ch': 'form'})
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'pct', 'ch': 'form-chunked',
                             'q': [['q', v1]]})
    elif s == 'three':
        keys = ['a', 'b', 'a=', '\xe9', 'a b', 'self']
        vals = ['', 'x', '&', '+', 'x y', '\u20ac']
        k1 = keys[sh['i']]
        for k2, k3 in itertools.product(keys, repeat=2):
            for vs in itertools.product(vals, repeat=3):
                ps = [[k1, vs[0]], [k2, vs[1]], [k3, vs[2]]]
                ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'plus', 'ch': 'query'})
                ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'var', 'ch': 'query'})
                if k1 in (k2, k3) or T:
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'min', 'ch': 'form'})
        for ks in itertools.product(['a', 'b'], repeat=3 if not T else 4):
            for vs in itertools.product(['', 'x', '&'], repeat=len(ks) + 1):
                ps = [[k, v] for k, v in zip((k1,) + ks, vs)]
                for ch in CHANNELS:
                    ctx.run({'k': 'rt', 'pairs': ps, 'enc': 'plus', 'ch': ch})
    elif s == 'odd':
        for t in ODD[sh['i']::8]:
            for e in list(ENC) + ['eq', 'var']:
                for ch in CHANNELS:
                    ctx.run({'k': 'rt', 'pairs': [['k', t], [t, 'v'], ['k', t + 'z']], 'enc': e, 'ch': ch})
                    ctx.run({'k': 'rt', 'pairs': [[t, t]], 'enc': e, 'ch': ch})
            for u in ODD:
                ctx.run({'k': 'rt', 'pairs': [['k' + t, u], ['k' + u, t]], 'enc': 'plus', 'ch': 'query'})
                ctx.run({'k': 'rt', 'pairs': [['k' + t + u, u + t]], 'enc': 'min', 'ch': 'form'})
    elif s == 'raw':
        hi = 7 if T else 6
        for t in strings(RAW, 0, hi - 1):
            ctx.run({'k': 'raw', 's': sh['first'] + t})
    elif s == 'rawform':
        for t in strings(RAW, 0, 4):
            for ch in ('form', 'form-chunked'):
                ctx.run({'k': 'rawform', 's': t, 'ch': ch})
        for t in strings(['a', '=', '&', '%', '\x00', '\xff', '\xc3', '\n'], 0, 4):
            ctx.run({'k': 'rawform', 's': t, 'ch': 'form'})
    elif s == 'rawbytes':
        for a in range(256):
            for b in range(256):
                ctx.run({'k': 'raw', 's': chr(a) + chr(b)})
                ctx.run({'k': 'raw', 's': '%' + chr(a) + chr(b)})
            ctx.run({'k': 'raw', 's': 'a=%' + chr(a)})
        for t in strings(['\ud800', '\udfff', '\u20ac', '%', '=', '&', '%C3', '%FF', '%ud8'], 0, 4):
            ctx.run({'k': 'raw', 's': t})
    elif s == 'many':
        for n in range(1, 40):
            for ch in CHANNELS:
                ctx.run({'k': 'rt', 'pairs': [['k', str(i)] for i in range(n)], 'enc': 'plus', 'ch': ch})
                ctx.run({'k': 'rt', 'pairs': [['k%d' % (i % 3), str(i)] for i in range(n)], 'enc': 'plus', 'ch': ch})
                ctx.run({'k': 'rt', 'pairs': [['k%d' % (i % 7), '' if i % 2 else 'v'] for i in range(n)], 'enc': 'min', 'ch': ch})
        for n in (1, 10, 100, 1000, 1023, 1024, 1025, 4096, 5000, 70000):
            for u in 'a', '+', ' ', '%', '&=', '\xe9', '\u20ac', '\U0001F600':
                for enc in ('plus', 'pct', 'min'):
                    for ch in ('query', 'form', 'form-chunked') if n < 5001 else ('query',):
                        t = u * n
                        if ch == 'query' and n < 1100 or len(wire([['k', t]], enc)) < 90000:
                            ctx.run({'k': 'rt', 'pairs': [['k', t], ['l', 'z']], 'enc': enc, 'ch': ch})
                            if n < 1100:
                                ctx.run({'k': 'rt', 'pairs': [[t, 'v'], ['k', 'z'], [t, t]], 'enc': enc, 'ch': ch})
        for n in (100, 1000, 3000):
            ctx.run({'k': 'rt', 'pairs': [['k%d' % (i % 50), str(i)] for i in range(n)], 'enc': 'plus', 'ch': 'query'})
            ctx.run({'k': 'raw', 's': '&' * n})
            ctx.run({'k': 'raw', 's': '=' * n})
            ctx.run({'k': 'raw', 's': 'a=&' * n})
