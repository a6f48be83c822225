"""C06 - multipart parsing is independent of how the body is split into reads."""
import copy
import itertools
import types

from ..core import Violation
from .. import wsgi

ID = 'C06'
TECHNIQUE = ('explicit-state model checking of the real incremental parser: states (offset, complete parser state), transitions '
             '"feed the next k bytes" for every k, so all 2^(n-1) divisions of every body and prefix are covered; plus '
             'stateless enumeration of single/double/regular cuts through WSGI')
LEVEL_NOTE = ('All divisions of every listed body and of each of its prefixes are covered (state merging on the complete '
              'object graph of the parser; where a parser cannot be copied, bounded cuts are replayed instead and the run says so). '
              'Bodies are bounded: data over {CR,LF,-,boundary letter} up to the stated length, up to 3 parts, listed boundaries.')
RULE = ('a state is (body, offset, structural dump of the MultipartMarkup object graph); a transition feeds one chunk; at each state the '
        'markups and error are compared with a one-piece parse of that prefix; executions count transitions replayed on the real '
        'parser plus WSGI requests')
ASSUMPTIONS = ['parser state is confined to the MultipartMarkup object graph for the merged search; the unmerged cut replays do not assume it']
BOUNDS = {'quick': dict(data_len=4, parts=3, malformed='every string of 4-5 bytes over {CR,LF,-,B,x} after 9 beginnings, 2 boundaries', large='sections of up to 102500 bytes'),
          'thorough': dict(data_len=5, parts=3, malformed='5 bytes, 5 boundaries')}
HANG_S = 60


def MM():
    from ombott.request_pkg.multipart import MultipartMarkup
    return MultipartMarkup


class Opaque(Exception):
    pass


_ATOM = (int, str, bytes, bool, float, type(None), types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)


def fingerprint(root):
    """Structural dump of everything reachable; raises Opaque for objects it cannot see into."""
    ids = {}
    out = []

    def walk(o):
        if isinstance(o, _ATOM):
            if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type)):
                out.append(o.__qualname__)
                if getattr(o, '__closure__', None):
                    for c in o.__closure__:
                        walk(c.cell_contents)
            else:
                out.append(o if not isinstance(o, types.ModuleType) else o.__name__)
            return
        if id(o) in ids:
            out.append(('ref', ids[id(o)]))
            return
        ids[id(o)] = len(ids)
        if isinstance(o, types.MethodType):
            out.append(('m', o.__func__.__qualname__))
            walk(o.__self__)
        elif isinstance(o, dict):
            out.append(('d', type(o).__name__, len(o)))
            for k, v in o.items():
                walk(k)
                walk(v)
        elif isinstance(o, (list, tuple)):
            out.append(('l', type(o).__name__, len(o)))
            for v in o:
                walk(v)
        elif isinstance(o, (set, frozenset)):
            out.append(('s', len(o), sorted(map(repr, o)).__repr__()))
        elif isinstance(o, (bytearray, memoryview)):
            out.append(('b', bytes(o)))
        elif isinstance(o, BaseException):
            out.append(('e', type(o).__name__))
        elif type(o).__module__.split('.')[0] == 'ombott':
            out.append(('o', type(o).__qualname__))
            names = sorted(getattr(o, '__dict__', ()))
            for cls in type(o).__mro__:
                sl = cls.__dict__.get('__slots__', ())
                names += [sl] if isinstance(sl, str) else list(sl)
            for n in names:
                if n not in ('__dict__', '__weakref__') and hasattr(o, n):
                    out.append(n)
                    walk(getattr(o, n))
        elif type(o).__module__ == 're':
            out.append(('re', repr(o)))
        else:
            raise Opaque(type(o))
    walk(root)
    return tuple(out)


def observe(m):
    err = m.error
    marks = tuple((n, tuple(se)) for n, se in m.markups)
    if err is not None:
        return ('error', type(err).__name__)
    return ('ok', marks)


def one_piece(boundary, data):
    m = MM()(boundary)
    if data:
        m.parse(data)
    return observe(m)


def parse_chunks(boundary, chunks):
    m = MM()(boundary)
    for c in chunks:
        m.parse(c)
    return observe(m)


def build(parts, boundary, lead=b'', epilogue=b''):
    """-> body, expected markups of the whole body"""
    out = lead + b'--' + boundary
    marks = [('data', (0, 0))]
    for h, d in parts:
        out += b'\r\n'
        hs = len(out)
        out += h
        he = len(out)
        out += b'\r\n\r\n'
        ds = len(out)
        out += d
        marks += [('headers', (hs, he)), ('data', (ds, len(out)))]
        out += b'\r\n--' + boundary
    return out + b'--' + epilogue, tuple(marks)


def body_of(case):
    return build([(h, d) for h, d in case['parts']], case['b'], case.get('lead', b''), case.get('epi', b''))


def search(case, ctx):
    body, marks = body_of(case)
    bd = case['b']
    n = len(body)
    ref = [one_piece(bd, body[:i]) for i in range(n + 1)]
    if ref[n] != ('ok', marks):
        raise Violation('one-piece parse of the well-formed body %r (boundary %r) gives %r, expected %r' % (body, bd, ref[n], marks))
    for i in range(n):
        if ref[i][0] == 'error':
            raise Violation('one-piece parse of prefix %r of a well-formed body (boundary %r) reports %s' % (body[:i], bd, ref[i][1]))
        if ref[i][1] != marks[:len(ref[i][1])]:
            raise Violation('one-piece parse of prefix %r (boundary %r) gives sections %r that the whole body does not have' % (
                body[:i], bd, ref[i][1]))
    root = MM()(bd)
    level = {0: {}}
    try:
        level[0][fingerprint(root)] = (root, ())
        copy.deepcopy(root)
    except Exception as e:    # noqa
        ctx.count('bodies_without_state_merging')
        ctx.note('parser state cannot be copied (%s): bounded cuts only' % e)
        return
    for off in range(n):
        for fp, (m, cuts) in level.get(off, {}).items():
            for k in range(1, n - off + 1):
                m2 = copy.deepcopy(m)
                m2.parse(body[off:off + k])
                ctx.trans()
                got = observe(m2)
                if got != ref[off + k]:
                    raise Violation('body %r (boundary %r) divided at %r gives %r, in one piece %r' % (
                        body[:off + k], bd, list(cuts) + [off], got, ref[off + k]))
                if off + k < n:
                    fp2 = fingerprint(m2)
                    lv = level.setdefault(off + k, {})
                    if fp2 not in lv:
                        lv[fp2] = (m2, cuts + (off,) if off else cuts)
                        ctx.state((bd, body, off + k, fp2))
        level.pop(off, None)


def trie(case, ctx):
    """Every body pre + start + w, w any string of up to `depth` bytes of ALPHA5: every division against one piece."""
    bd, pre, start, depth = case['b'], case['pre'], case['start'], case['depth']
    root = MM()(bd)
    try:
        fingerprint(root)
        copy.deepcopy(root)
    except Exception as e:    # noqa
        ctx.count('bodies_without_state_merging')
        ctx.note('parser state cannot be copied (%s): bounded cuts only' % e)
        return
    # R[i]: parser states after all divisions of the first i bytes
    path = []           # list of (state list)
    body = bytearray()

    def extend(byte):
        body.append(byte)
        n = len(body)
        want = one_piece(bd, bytes(body))
        states = {}
        for i in range(n):
            for m, cs in path[i]:
                m2 = copy.deepcopy(m)
                m2.parse(bytes(body[i:]))
                ctx.trans()
                got = observe(m2)
                if got != want:
                    raise Violation('body %r (boundary %r) divided at %r gives %r, in one piece %r' % (bytes(body), bd, list(cs) + [i], got, want))
                states.setdefault(fingerprint(m2), (m2, cs + (i,)))
        path.append(list(states.values()))
        ctx.state((bd, bytes(body)))
        ctx.rearm()
        return want[0]

    path.append([(root, ())])
    for c in pre:
        extend(c)
    for c in start:
        extend(c)

    def rec(d):
        for c in ALPHA5:
            extend(c)
            # what follows an error is not looked at
            if d > 1 and path[-1][0][0].error is None:
                rec(d - 1)
            path.pop()
            del body[-1:]
    rec(depth)


def cuts(case, ctx):
    body, marks = body_of(case)
    bd = case['b']
    n = len(body)
    want = ('ok', marks)

    def chk(cs):
        ctx.trans(len(cs) + 1)
        pos = [0] + list(cs) + [n]
        got = parse_chunks(bd, [body[a:b] for a, b in zip(pos, pos[1:])])
        if got != want:
            raise Violation('body %r (boundary %r) cut at %r gives %r, expected %r' % (body, bd, list(cs)[:50], got, want))
    for i in range(1, n):
        chk((i,))
    if n <= case.get('double', 0):
        for c in itertools.combinations(range(1, n), 2):
            chk(c)
    else:
        # double cuts around every CR/LF/-/boundary byte
        hot = [i for i in range(1, n) if body[i - 1:i + 1] and (body[i] in b'\r\n-' or body[i - 1] in b'\r\n-')]
        if len(hot) <= (160 if ctx.thorough or len(bd) < 10 else 60):
            for c in itertools.combinations(hot, 2):
                chk(c)
    for k in range(1, min(n, 200)):
        for off in {1, k}:
            chk(tuple(range(off, n, k)))
    # through empty tail chunk-free regular buffers, prefixes cut too
    for i in range(1, n, max(1, n // 60)):
        for k in (1, 2, 3, 7):
            got = parse_chunks(bd, [body[j:min(i, j + k)] for j in range(0, i, k)])
            ctx.trans()
            if got != one_piece(bd, body[:i]):
                raise Violation('prefix %r (boundary %r) in pieces of %d gives %r, in one piece %r' % (
                    body[:i], bd, k, got, one_piece(bd, body[:i])))


LSIZE = [0, 1, 100, 1000, 4090, 8190, 16400, 65530, 66000, 102500]
REG = [1000, 1023, 1024, 4096, 8192, 65535, 65536, 65537, 100000, 102400]


def filler(kind, tok, n):
    unit = {'x': b'x', 'cr': b'\r', 'lf': b'\n', 'crlf': b'\r\n', 'dash': b'-', 'look': tok[:-1] + b'x', 'look2': tok[:5], 'bin': bytes(range(256)), 'blank': b'\r\n\r\n',
            'hdr': b'\r\na:b'}[kind]
    d = (unit * (n // len(unit) + 1))[:n]
    return b'x' * n if tok in d + tok[:-1] or (d + tok).find(tok) != len(d) or (b'\r\n' + d).startswith(tok) else d


def large(case, ctx):
    """Long header blocks, data, leads and epilogues: in one piece, in buffers of regular size, cut around every section edge."""
    bd = case['b']
    tok = b'\r\n--' + bd
    parts = [(b'a: b\r\nX: ' + b'h' * h if h else b'a:b', filler(case['f'], tok, d)) for h, d in case['hd']]
    body, marks = build(parts, bd, epilogue=b'\r\n' + filler(case['f'], tok, case.get('epi', 0)))
    n = len(body)
    edges = sorted({e for _, se in marks for e in se})
    ctx.state((bd, case['f'], tuple(map(tuple, case['hd'])), case.get('epi', 0)))

    def chk(pos, end, what):
        pos = [0] + [p for p in pos if 0 < p < end] + [end]
        ctx.trans(len(pos) - 1)
        m = MM()(bd)
        for a, b in zip(pos, pos[1:]):
            m.parse(body[a:b])
        got = observe(m)
        if end == n:
            want = ('ok', marks)
        else:
            want = one_piece(bd, body[:end])
            if want[0] != 'ok' or want[1] != marks[:len(want[1])]:
                raise Violation('the first %d bytes of a body of %r bytes (%r) in one piece give %.300r' % (end, n, case, want))
        if got != want:
            raise Violation('body of %d bytes (%r) %s gives %.300r, expected %.300r' % (end, case, what, got, want))
    chk([], n, 'in one piece')
    for k in REG + [n - 1, n // 2, n // 3]:
        if k > 0 and n // k < 2000:
            chk(range(k, n, k), n, 'in pieces of %d' % k)
            chk(range(1, n, k), n, 'in pieces of %d after the first byte' % k)
    t = len(tok)
    offs = range(-3, t + 6) if n * len(edges) < 20000 else [-1, 0, 1, 2, 3, 4, t - 1, t, t + 1, t + 2] if n * len(edges) < 10 ** 6 else [1]
    near = sorted({e + i for e in edges for i in offs})
    for c in near:
        chk([c], n, 'cut at %d' % c)
    for c, d in zip(edges, edges[1:]):
        chk([c - 1, d + 1], n, 'cut at %d and %d' % (c - 1, d + 1))
        chk([c + 1, d + 3], n, 'cut at %d and %d' % (c + 1, d + 3))
    for end in near[::7]:
        if 0 < end < n:
            for k in (1024, 65536):
                chk(range(k, end, k), end, 'in pieces of %d' % k)


# ---- WSGI level
_apps = {}


def app_for(mem):
    if mem not in _apps:
        import ombott
        a = ombott.Ombott(dict(max_memfile_size=mem) if mem is not None else None)
        box = a._box = {}

        def lst(v):
            return v if isinstance(v, list) else [v]

        def h():
            rq = a.request
            box['forms'] = {k: lst(v) for k, v in rq.forms.items()}
            box['files'] = {k: [(f.raw_filename, f.file.read()) for f in lst(v)] for k, v in rq.files.items()}
            return b'ok'
        a.route('/', 'POST', h)
        _apps[mem] = a
    return _apps[mem]


def web(case, ctx):
    """fields: [(name, filename or None, data)] posted with the stream divided by reads"""
    parts, forms, files = [], {}, {}
    for name, fn, data in case['fields']:
        if fn is None:
            h = b'Content-Disposition: form-data; name="%s"' % name
            forms.setdefault(name.decode(), []).append(data.decode())
        else:
            h = b'Content-Disposition: form-data; name="%s"; filename="%s"\r\nContent-Type: application/octet-stream' % (name, fn)
            files.setdefault(name.decode(), []).append((fn.decode(), data))
        parts.append((h, data))
    body, _ = build(parts, case['b'], case.get('lead', b''), case.get('epi', b''))
    a = app_for(case.get('mem'))
    cs = case['cuts']
    n = len(body)
    kw = {}
    if cs == 'all':
        plan = [1] * n
        pos = None
    else:
        pos = [0] + sorted({c % n for c in cs}) + [n]
        plan = None
    if case.get('te'):
        if pos is None:
            pos = list(range(0, n + 1))
        raw = b''.join(b'%x\r\n%s\r\n' % (q - p, body[p:q]) for p, q in zip(pos, pos[1:]) if q > p) + b'0\r\n\r\n'
        st = wsgi.Stream(raw)
        kw = dict(HTTP_TRANSFER_ENCODING='chunked')
    else:
        if plan is None:
            plan = [q - p for p, q in zip(pos, pos[1:]) if q > p]
        st = wsgi.Stream(body, plan)
        kw = dict(CONTENT_LENGTH=str(n))
    env = wsgi.environ('/', 'POST', stream=st, CONTENT_TYPE='multipart/form-data; boundary=' + case['b'].decode(), **kw)
    a._box.clear()
    r = wsgi.call(a, env)
    ctx.trans(len(st.reads))
    ctx.state((body, case.get('mem'), str(cs), case.get('te')))
    if r.code != 200 or a._box.get('forms') != forms or a._box.get('files') != files:
        raise Violation('body %r read as %r (%s, threshold %r): %s forms=%r files=%r, expected forms=%r files=%r; %s' % (
            body, cs, 'chunked' if case.get('te') else 'Content-Length', case.get('mem'), r.status, a._box.get('forms'), a._box.get('files'),
            forms, files, env['wsgi.errors'].text[-500:]))


def run_case(case, ctx):
    k = case['k']
    if k == 'search':
        search(case, ctx)
    elif k == 'cuts':
        cuts(case, ctx)
    elif k == 'trie':
        trie(case, ctx)
    elif k == 'large':
        large(case, ctx)
    elif k == 'web':
        web(case, ctx)
    ctx.outcome(k)


BOUND = [b'B', b'-', b'--', b'-B', b'B-', b'BB', b'B-B', b'--B', b'BBBB', b"b'()+_,./:=?0", b'----WebKitFormBoundaryAb3', b'n' * 70]
ALPHA = [b'\r', b'\n', b'-', b'B']
HDR = [b'a:b', b'a:b\r\nc:d', b'a: \r', b'x']
EPI = [b'', b'\r\n', b'\r\n--B\r\n', b'junk', b'--', b'-', b'\r', b'\r\n--B--\r\n', b'\r\n\r\nx:y\r\n\r\n']


ALPHA5 = b'\r\n-Bx'
PRES = [b'', b'\r\n', b'--B', b'--B\r\n', b'--B\r\na:b', b'--B\r\na:b\r\n\r\n', b'--B\r\na:b\r\n\r\nz\r\n--', b'x\r\n--', b'--B\r\na:b\r\n\r\n\r\n--B--']


def datas(b, n):
    tok = b'\r\n--' + b
    for k in range(n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            d = b''.join(t)
            if tok not in d + tok[:-1] and tok not in b'\r\n\r\n' + d:
                # the data may not contain the delimiter, nor complete it early
                if (d + tok).find(tok) == len(d) and not (b'\r\n' + d).startswith(tok):
                    yield d


def look(b):
    """data full of near-delimiters"""
    tok = b'\r\n--' + b
    alts = []
    for i in range(1, len(tok)):
        alts += [tok[:i], tok[:i] + b'x', tok[:i] + tok[:-1], tok[:i] * 2, b'x' * i + tok[:i], b'\r' + tok[:i],
                 tok[:i] + b'\r', tok[:i] + b'\r\n']
    for i in range(1, 2 * len(tok)):
        alts.append(b'y' * i)
        alts.append(b'y' * i + b'\r\n')
        alts.append(b'y' * i + tok[:-1])
    seen = set()
    for d in alts:
        if d not in seen and (d + tok).find(tok) == len(d) and not (b'\r\n' + d).startswith(tok):
            seen.add(d)
            yield d


def shards(tier):
    out = []
    for b in sorted(BOUND, key=len, reverse=True):
        out.append({'s': 'look', 'b': b})
        for j in range(3):
            out.append({'s': 'mix', 'b': b, 'i': j})
    for i in range(4):
        for b in BOUND[:6]:
            out.append({'s': 'data', 'b': b, 'i': i})
    for i in range(len(PRES)):
        for b in (b'B', b'-') + ((b'BB', b'--', b'Bx') if tier == 'thorough' else ()):
            out.append({'s': 'trie', 'b': b, 'i': i})
    for i in range(8):
        out.append({'s': 'web', 'i': i})
    out += [{'s': 'big', 'i': i} for i in range(4)]
    out += [{'s': 'large', 'i': i} for i in range(len(LSIZE))]
    return out


def run_shard(sh, ctx):
    s, T = sh['s'], ctx.thorough
    b = sh.get('b')
    if s == 'data':
        nmax = 5 if T else 4
        for i, d in enumerate(datas(b, nmax if b == b'B' else nmax - 1)):
            if i % 4 == sh['i']:
                ctx.run(dict(k='search', b=b, parts=[(b'a:b', d)]))
                if len(d) <= 2:
                    ctx.run(dict(k='search', b=b, parts=[(b'a:b', d)], lead=b'\r\n', epi=b'\r\n'))
                    ctx.run(dict(k='cuts', b=b, parts=[(b'a:b', d)], epi=b'\r\n', double=80))
    elif s == 'look':
        ds = list(look(b))
        step = 1 if len(b) < 6 or T else max(1, len(ds) // 60)
        for d in ds[::step]:
            ctx.run(dict(k='cuts', b=b, parts=[(b'a:b', d), (b'c:d', b'z')], double=70 if len(b) < 6 else 0))
            if len(d) < 24 and len(b) < 6:
                ctx.run(dict(k='search', b=b, parts=[(b'a:b', d)]))
    elif s == 'mix':
        if len(b) < 6 and sh['i'] == 0:
            for h1, h2 in itertools.product(HDR, repeat=2):
                for d1, d2 in itertools.product([b'', b'-', b'\r\n', b'\r\n--'], repeat=2):
                    if len(b) == 1 or (d1, d2) in ((b'', b''), (b'\r\n--', b'-')):
                        ctx.run(dict(k='cuts', b=b, parts=[(h1, d1), (h2, d2)], epi=b'\r\n', double=90))
            ctx.run(dict(k='search', b=b, parts=[(b'a:b', b'\r\n--'), (b'c:d', b''), (b'e:f', b'-')], epi=b'\r\n'))
        for epi in EPI[sh['i']::3]:
            for lead in (b'', b'\r\n'):
                for parts in ([], [(b'a:b', b'')], [(b'a:b', b'x\r\n')]):
                    if len(b) < 6 or T or not parts:
                        ctx.run(dict(k='search', b=b, parts=parts, lead=lead, epi=epi))
                    ctx.run(dict(k='cuts', b=b, parts=parts, lead=lead, epi=epi, double=120))
    elif s == 'trie':
        depth = 4 if T or len(PRES[sh['i']]) < 9 else 3
        for st in ALPHA5:
            ctx.run(dict(k='trie', b=b, pre=PRES[sh['i']], start=bytes([st]), depth=depth))
    elif s == 'web':
        fsets = [
            [(b'a', None, b'1')],
            [(b'a', None, b'1'), (b'b', None, b''), (b'f', b'x.bin', b'\r\n--Bo\r\n--')],
            [(b'f', b'f', b'--Bou\r\r\n-'), (b'f', b'g', b''), (b't', None, b'\r\n')],
            [(b'f', b'f', bytes(range(256)))],
            [(b'', None, b'-'), (b'x', None, b'\r\n--Boun\r\nd')],
            [(b'f', b'f', b'q' * 63), (b'g', b'g', b'\r' * 20), (b'h', b'h', b'\n\r' * 9)],
            [(b'a', None, b'x' * 41)] * 3,
            [(b'f', b'f', b'\r\n--Bound' * 5 + b'\r\n--'), (b'a', None, b'-')],
        ]
        f = fsets[sh['i']]
        bd = b'Boundy'
        n = len(build([(b'Content-Disposition: form-data; name="%s"' % x[0], x[2]) for x in f], bd)[0]) + 90 * len(f)
        for te in (0, 1):
            for epi in (b'\r\n', b''):
                for c in range(1, n):
                    ctx.run(dict(k='web', fields=f, b=bd, cuts=[c], te=te, epi=epi))
                ctx.run(dict(k='web', fields=f, b=bd, cuts='all', te=te, epi=epi))
            step = 1 if T else 2
            for c in range(1, n, 3):
                for d2 in range(1, 12, step):
                    ctx.run(dict(k='web', fields=f, b=bd, cuts=[c, c + d2] if c + d2 < n else [c], te=te, epi=b'\r\n'))
        # buffer-size-regular cuts: every threshold that leaves room for the headers and text
        for mem in range(300, 900, 1 if T else 3):
            ctx.run(dict(k='web', fields=f, b=bd, cuts=[], mem=mem, epi=b'\r\n'))
            ctx.run(dict(k='web', fields=f, b=bd, cuts=[], mem=mem, te=1, epi=b'\r\n'))
    elif s == 'large':
        h = LSIZE[sh['i']]
        for bd in (b'b', b'----WebKitFormBoundary7MA4YWxk', b'n' * 70):
            for j, f in enumerate(['x', 'cr', 'lf', 'crlf', 'dash', 'look', 'look2', 'bin', 'blank', 'hdr']):
                for d in LSIZE if T or len(bd) == 30 and f in ('x', 'look') else LSIZE[j % 3::3] if len(bd) > 1 or f in ('x', 'cr') else []:
                    ctx.run(dict(k='large', b=bd, f=f, hd=[(h, d)]))
            for d in LSIZE[1:8:2 if T else 3]:
                ctx.run(dict(k='large', b=bd, f='look', hd=[(d, h), (h, d), (0, h)], epi=d))
                ctx.run(dict(k='large', b=bd, f='crlf', hd=[(0, 3), (h, d), (3, 0)], epi=h))
        if h < 2000:
            for np in (16, 17, 40, 128, 129, 300):
                ctx.run(dict(k='large', b=b'----bnd', f='look', hd=[(i % 7, (i * h) % 997) for i in range(np)]))
    elif s == 'big':
        bd = b'----WebKitFormBoundary7MA4YWxkTrZu0gW'
        tok = b'\r\n--' + bd
        fields = [(b'f%d' % i, b'file%d.bin' % i, (tok[:-1] + b'x' + bytes(range(256))) * (3 + i)) for i in range(2)]
        fields.append((b't', None, b'text\r\n--'))
        base = build([(b'Content-Disposition: form-data; name="%s"; filename="%s"\r\nContent-Type: application/octet-stream' % (x[0], x[1])
                       if x[1] else b'Content-Disposition: form-data; name="%s"' % x[0], x[2]) for x in fields], bd)[0]
        n = len(base)
        for mem in range(400 + sh['i'], n + 2, 4 * (1 if T else 3)):
            ctx.run(dict(k='web', fields=fields, b=bd, cuts=[], mem=mem, epi=b'\r\n'))
        for c in range(1 + sh['i'], n, 4):
            ctx.run(dict(k='web', fields=fields, b=bd, cuts=[c], epi=b'\r\n'))
