"""C07 - multipart forms and uploads round-trip exactly."""
import io
import itertools

from ..core import Violation
from .. import wsgi

ID = 'C07'
TECHNIQUE = ('bounded exhaustive state exploration of the real form decoder against an independent encoder: all field lists over adversarial '
             'alphabets of names, file names, values and contents x boundaries x framing x thresholds x access orders; all operation '
             'sequences on the upload file objects against io.BytesIO')
LEVEL_NOTE = ('Complete over the stated alphabets and lengths (names and file names to length 3, contents over {CR,LF,-,boundary letter,0xff} to '
              'the stated length, field lists to length 4 over {2 names} x {text, upload, empty upload}, the code points below U+3100, U+E000.. and samples of the rest (thorough: all of the BMP) in a name, file name, text and content type of its own); the encoder writes quoted UTF-8 '
              'parameters as browsers do. Upload operations are exhaustive to the stated depth on two uploads at a time.')
RULE = ('a state is one encoded body (or the pair of file positions in the upload search), a transition one posted field or file '
        'operation; every case is one POST through WSGI whose handler-visible forms, files and POST are compared with the encoded list')
ASSUMPTIONS = ['names and file names are sent as quoted UTF-8 parameters without double quotes and line breaks']
BOUNDS = {'quick': dict(name_len=3, data_len=5, fields=4, file_ops=4), 'thorough': dict(name_len=3, data_len=6, fields=5, file_ops=4)}

_apps = {}


def app_for(mem):
    if mem not in _apps:
        import ombott
        a = ombott.Ombott(dict(max_memfile_size=mem) if mem is not None else None)
        box = a._box = {}

        def lst(v):
            return v if isinstance(v, list) else v

        def norm(v):
            if isinstance(v, list):
                return [norm(x) for x in v]
            if isinstance(v, str):
                return v
            v.file.seek(0)
            data = v.file.read()
            v.file.seek(0)
            buf = io.BytesIO()
            v.save(buf)
            if buf.getvalue() != data:
                return ('save() wrote', buf.getvalue(), 'read() gave', data)
            return (v.raw_filename, v.content_type, data, v.name)

        def h(how):
            rq = a.request
            if how == 'ops':
                box['files'] = rq.files
                box['go']()
                return b'ok'
            for k in {'ff': ('forms', 'files', 'POST'), 'fi': ('files', 'forms', 'POST'), 'po': ('POST', 'files', 'forms'),
                      'bo': ('body', 'POST', 'forms', 'files'), 'pa': ('params', 'POST', 'forms', 'files')}[how]:
                if k == 'body':
                    rq.body.read(5)
                    continue
                box[k] = {n: norm(v) for n, v in getattr(rq, k).items()}
            # once more, in the other order
            for k in ('files', 'forms'):
                box[k + '2'] = {n: norm(v) for n, v in getattr(rq, k).items()}
            return b'ok'
        a.route('/<how>', ['POST', 'PUT'], h)
        _apps[mem] = a
    return _apps[mem]


STYLES = ['std', 'lower', 'typefirst', 'extra', 'tight', 'fnfirst']


def part(f, style):
    """f: (name, filename|None, content type|None, data)"""
    name, fn, ct, data = f
    q = lambda s: b'"' + s.encode('utf8') + b'"'
    if style == 'tight':
        cd = b'Content-Disposition:form-data;name=' + q(name) + (b';filename=' + q(fn) if fn is not None else b'')
    elif style == 'fnfirst' and fn is not None:
        cd = b'Content-Disposition: form-data; filename=' + q(fn) + b'; name=' + q(name)
    else:
        cd = b'Content-Disposition: form-data; name=' + q(name) + (b'; filename=' + q(fn) if fn is not None else b'')
    hs = [cd]
    if ct is not None:
        hs.append(b'Content-Type: ' + ct.encode())
    if style == 'typefirst':
        hs.reverse()
    if style == 'extra':
        hs = [b'Content-Transfer-Encoding: binary', b'X-Empty:'] + hs + [b'Content-Length: %d' % len(data), b'X-Odd: name="zz"; filename="yy"']
    if style == 'lower':
        hs = [h.split(b':', 1)[0].lower() + b':' + h.split(b':', 1)[1] for h in hs]
    return b'\r\n'.join(hs) + b'\r\n\r\n' + data


def encode(fields, bd, style='std', lead=b'', epi=b'\r\n'):
    out = lead
    for f in fields:
        out += b'--' + bd + b'\r\n' + part(f, style) + b'\r\n'
    return out + b'--' + bd + b'--' + epi


def expected(fields):
    forms, files, post = {}, {}, {}

    def add(d, k, v):
        d.setdefault(k, []).append(v)
    for name, fn, ct, data in fields:
        if fn is None:
            v = data.decode('utf8')
            add(forms, name, v)
        else:
            v = (fn, ct, data, name)
            add(files, name, v)
        add(post, name, v)
    one = lambda d: {k: v if len(v) > 1 else v[0] for k, v in d.items()}
    return one(forms), one(files), one(post)


def same(got, want):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(same, got, want))
    if isinstance(want, tuple):
        return (isinstance(got, tuple) and len(got) == 4 and got[0] == want[0] and got[2] == want[2] and got[3] == want[3]
                and (want[1] is None or got[1] == want[1]))
    return got == want and type(got) is type(want)


def same_dict(got, want):
    return got is not None and set(got) == set(want) and all(same(got[k], want[k]) for k in want)


def post(case, how, ctx):
    body = encode(case['fields'], case['bd'], case.get('style', 'std'), case.get('lead', b''), case.get('epi', b'\r\n'))
    a = app_for(case.get('mem'))
    bd = case['bd'].decode()
    ctype = case.get('ctype', 'multipart/form-data; boundary=%s') % bd
    kw = {}
    te = case.get('te')
    if te:
        data = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + te]), body[i:i + te]) for i in range(0, len(body), te)) + b'0\r\n\r\n'
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
    else:
        data = body
        kw['CONTENT_LENGTH'] = str(len(body))
    st = wsgi.Stream(data, case.get('plan'), case.get('reads', 'full'))
    env = wsgi.environ('/' + how, 'POST', stream=st, CONTENT_TYPE=ctype, **kw)
    r = wsgi.call(a, env)
    return a, body, r, env


def run_case(case, ctx):
    if case.get('k') == 'ops':
        return ops(case, ctx)
    fields = case['fields']
    how = case.get('how', 'ff')
    app_for(case.get('mem'))._box.clear()
    a, body, r, env = post(case, how, ctx)
    box = a._box
    ctx.state((body, case.get('mem'), how, case.get('te')))
    ctx.trans(len(fields) or 1)
    ctx.outcome((len(fields), r.code))
    forms, files, pst = expected(fields)
    what = 'fields %s as %r (boundary %r, %s, threshold %r)' % (
        str(fields)[:400], body[:300], case['bd'], 'chunked' if case.get('te') else 'Content-Length', case.get('mem'))
    if r.code != 200:
        raise Violation('%s: answered %s; %s' % (what, r.status, env['wsgi.errors'].text[-800:]))
    for k, want in (('forms', forms), ('files', files), ('POST', pst), ('forms2', forms), ('files2', files)):
        if not same_dict(box.get(k), want):
            raise Violation('%s: %s is %s, expected %s' % (what, k.rstrip('2'), str(box.get(k))[:600], str(want)[:600]))


# ---- upload file objects
OPS = [('read', 1), ('read', 3), ('read', None), ('read', 0), ('read', -1), ('seek0', 0), ('seek0', 2), ('seek1', 1), ('seek2', 0), ('seek2', -1), ('tell', 0)]


def apply_op(f, op, n):
    k, v = op
    if k == 'read':
        return f.read() if v is None else f.read(v)
    if k == 'tell':
        return f.tell()
    cur = f.tell()
    if k == 'seek0':
        return f.seek(min(v, n))
    if k == 'seek1':
        return f.seek(cur + v - cur, 1) if cur + v <= n else None
    if k == 'seek2':
        return f.seek(v, 2) if n + v >= 0 else None


def ops(case, ctx):
    """All operation sequences on two uploads of one body; merged on the pair of positions."""
    contents = case['contents']
    fields = [('f%d' % i, 'n', 'a/b', c) for i, c in enumerate(contents)]
    depth = case['depth']
    mem = case.get('mem')
    a = app_for(mem)

    def go():
        files = a._box['files']
        fs = [files['f%d' % i].file for i in range(len(contents))]
        ref = [io.BytesIO(c) for c in contents]
        allops = [(i, op) for i in range(len(fs)) for op in OPS]
        for seq in itertools.product(allops, repeat=depth):
            for f, g in zip(fs, ref):
                f.seek(0)
                g.seek(0)
            for j, (i, op) in enumerate(seq):
                got, want = apply_op(fs[i], op, len(contents[i])), apply_op(ref[i], op, len(contents[i]))
                ctx.trans()
                if got != want or fs[i].tell() != ref[i].tell():
                    a._box['bad'] = 'uploads %r: after %r operation %r on upload %d gives %r (position %d), expected %r (position %d)' % (
                        contents, seq[:j], op, i, got, fs[i].tell(), want, ref[i].tell())
                    return
            ctx.state(('ops', tuple(contents), seq[-1], tuple(g.tell() for g in ref)))
    a._box.clear()
    a._box['go'] = go
    _, _, r, env = post(dict(fields=fields, bd=b'B0undary', mem=mem), 'ops', ctx)
    ctx.outcome('ops')
    if a._box.get('bad'):
        raise Violation(a._box['bad'])
    if r.code != 200:
        raise Violation('upload operations on %r: %s %s' % (contents, r.status, env['wsgi.errors'].text[-800:]))


AL = ['a', ';', '=', ' ', '\\', 'é', ',', "'", '\u2028', '\x85', '\x0b', '%', ':', '-', '/', '+', '\t', '名', '\x1c', '.', '*', 'name', '; name=', 'filename=', '😀', 'B']
AL3 = ['a', ';', '=', ' ', '\\', 'é', '\x85', 'name=']
DAT = [b'\r', b'\n', b'-', b'B', b'\xff']
TXT = ['\r', '\n', '-', 'B', 'é', ' ']
BDS = [b'B', b'-', b'--', b'-B', b'BB', b'B-B', b'----WebKitFormBoundary7MA4YWxkTrZu0gW', b"'()+_,./:=?", b'x' * 70, b'a b']
CTYPES = ['multipart/form-data; boundary=%s', 'multipart/form-data; boundary="%s"', 'Multipart/Form-Data; boundary=%s', 'multipart/form-data; charset=utf-8; boundary=%s',
          'multipart/form-data; boundary=%s; charset=utf-8', 'multipart/form-data;boundary=%s', 'multipart/form-data; BOUNDARY=%s',
          'multipart/form-data; boundary="%s"; charset=utf-8']


def ok(d, bd):
    tok = b'\r\n--' + bd
    return (d + tok).find(tok) == len(d) and not (b'\r\n' + d).startswith(tok)


def names(T=False):
    yield ''
    for k in (1, 2):
        for t in itertools.product(AL, repeat=k):
            yield ''.join(t)
    for t in itertools.product(AL if T else AL3, repeat=3):
        yield ''.join(t)
    yield from ('x' * 300, 'C:\\dir\\file.txt', '..', '../../etc/passwd', '\\', 'a\\', '%22', '%0D%0A', 'a;b=c; d', '=?utf-8?q?x?=')


def shards(tier):
    out = []
    for i in range(8):
        out.append({'s': 'names', 'i': i})
        out.append({'s': 'data', 'i': i})
        out.append({'s': 'lists', 'i': i})
        out.append({'s': 'sizes', 'i': i})
    out += [{'s': 'bd', 'i': i} for i in range(len(BDS))]
    out += [{'s': 'ops', 'i': i} for i in range(5)]
    out += [{'s': 'points', 'i': i} for i in range(4)]
    return out


def run_shard(sh, ctx):
    s, T, i = sh['s'], ctx.thorough, sh['i']
    if s == 'names':
        for j, n in enumerate(names(T)):
            if j % 8 != i:
                continue
            st = STYLES if T or len(n) < 2 else [STYLES[j % len(STYLES)], 'std']
            for style in dict.fromkeys(st):
                for bd in (b'B', b'-----bound'):
                    ctx.run(dict(fields=[(n, None, None, 'vé'.encode())], bd=bd, style=style))
                    ctx.run(dict(fields=[(n, 'f.bin', 'a/b', b'\xff\x00')], bd=bd, style=style))
                    ctx.run(dict(fields=[('u', n, 'image/jpeg', b'\xff\x00')], bd=bd, style=style))
                    ctx.run(dict(fields=[(n, n, None, b'')], bd=bd, style=style))
                    ctx.run(dict(fields=[(n, None, 'text/plain; charset=utf-8', b'1'), ('o', None, None, b'2'), (n, n, 'x/y; a="b;c"', b'3')], bd=bd, style=style))
    elif s == 'data':
        nmax = 6 if T else 5
        c = 0
        for bd in (b'B', b'BB', b'-B', b'-'):
            for k in range(nmax + 1):
                for t in itertools.product(DAT, repeat=k):
                    c += 1
                    if c % 8 != i:
                        continue
                    d = b''.join(t)
                    if ok(d, bd):
                        ctx.run(dict(fields=[('f', 'n', 'a/b', d), ('t', None, None, b'x')], bd=bd))
                        if k < nmax:
                            ctx.run(dict(fields=[('a', None, None, b'y'), ('f', 'n', None, d), ('g', 'm', None, d[::-1] if ok(d[::-1], bd) else b'')], bd=bd, how='fi', te=7))
            for k in range(nmax):
                for t in itertools.product(TXT, repeat=k):
                    c += 1
                    if c % 8 != i:
                        continue
                    d = ''.join(t).encode()
                    if ok(d, bd):
                        ctx.run(dict(fields=[('t', None, None, d), ('t', None, 'text/plain', b'')], bd=bd, how='po'))
    elif s == 'lists':
        kinds = [(n, k) for n in 'ab' for k in ('t', 'f', 'e')]
        c = 0
        for m in range(0, 6 if T else 5):
            for t in itertools.product(kinds, repeat=m):
                c += 1
                if c % 8 != i:
                    continue
                fields = []
                for j, (n, k) in enumerate(t):
                    if k == 't':
                        fields.append((n, None, None, b'v%d' % j if j % 3 else b''))
                    elif k == 'f':
                        fields.append((n, 'f%d.x' % j, 'x/t%d' % j, b'\r\n-%d\xfe' % j))
                    else:
                        fields.append((n, '', 'application/octet-stream', b''))
                for how in ('ff', 'fi', 'po', 'bo', 'pa'):
                    ctx.run(dict(fields=fields, bd=b'B', how=how))
                ctx.run(dict(fields=fields, bd=b'BB', te=1 + c % 40, mem=2000))
                ctx.run(dict(fields=fields, bd=b'BB', how='po', mem=100 * m + 10))
        # many fields, repeated names
        for m in (256 + i, 512 + i, 1000 + i, 1024 + i, 2048 + i, 4100 + i):
            # the limit on text in memory is out of the way
            ctx.run(dict(fields=[('n%d' % (j % (m - i)), None if (j + i) % 3 else 'f%d' % j, None, b'%d' % j) for j in range(m)], bd=b'B', mem=10 ** 7))
            ctx.run(dict(fields=[('same', None if i % 2 else 'f%d' % j, None, b'%d' % j) for j in range(m)], bd=b'B', mem=10 ** 7))
        for m in (1000, 4000, 9000):
            # long names
            for n in ('x' * (m + i), 'é' * m, 'a;b="c'.replace('"', '') * (m // 5)):
                ctx.run(dict(fields=[(n, None, None, b'v'), ('f', n, 'a/b', b'd'), (n, n, None, b'w')], bd=b'B'))
        for m in (7, 40, 200):
            ctx.run(dict(fields=[('n%d' % (j % (i + 1)), None if j % 3 else 'f%d' % j, None, b'%d' % j) for j in range(m)], bd=b'B'))
    elif s == 'sizes':
        pat = bytes(range(256)) + b'\r\n--Bo\r\n--Bou\r\r\n--B'
        for n in list(range(i, 700, 8)) + [1000 + i, 4095 + i, 65535 + i, 102400 + i, 250000 + i]:
            d = (pat * (n // len(pat) + 1))[:n]
            if not ok(d, b'Bound'):
                continue
            fields = [('f', 'n.bin', 'a/b', d), ('t', None, None, b'tail'), ('g', 'm.bin', None, d[::-1])]
            for mem in (None, 300, 311):
                for te in (0, 1 if n < 700 else 5000, 97, 4096):
                    if te in (1, 97) and n > 5000:
                        continue
                    ctx.run(dict(fields=fields, bd=b'Bound', mem=mem, te=te))
                if n < 700:
                    ctx.run(dict(fields=fields, bd=b'Bound', mem=mem, reads='one'))
            tv = ''.join(chr(0x20 + j % 0x250) for j in range(min(n, 30000))).encode()
            ctx.run(dict(fields=[('t', None, None, tv), ('t', None, None, tv[:1])], bd=b'Bound'))
    elif s == 'bd':
        bd = BDS[i]
        base = [[('a', None, None, b'1')], [], [('f', 'n', 'a/b', b'\r\n--' + bd[:-1])], [('f', 'n', 'a/b', b'--' + bd), ('g', None, None, b'--' + bd + b'--'), ('h', 'z', None, b'')],
                [('f', 'n', 'a/b', bd + b'\r\n' + bd + b'\r\n-' + bd)], [('x', None, None, b'\r'), ('x', None, None, b'\n'), ('x', None, None, b'-')]]
        for ct in CTYPES:
            if b' ' in bd or set(bd) & set(b'();:=?,/'):
                if '"' not in ct:
                    continue
            for fs in base:
                if any(not ok(f[3], bd) for f in fs):
                    continue
                for lead in (b'', b'\r\n'):
                    for epi in (b'', b'\r\n', b'\r\nepilogue\r\n--' + bd + b'\r\nx'):
                        for te in (0, 1, 11):
                            for style in STYLES if T or not te else ('std',):
                                ctx.run(dict(fields=fs, bd=bd, ctype=ct, lead=lead, epi=epi, te=te, style=style))
    elif s == 'points':
        # every character of the first blocks at the begin, inside and at the end of texts, names and file names; every byte likewise
        cps = [c for c in list(range(0x3100 if not T else 0xd800)) + list(range(0xe000, 0x10000, 1 if T else 64)) + list(range(0xfe00, 0x10000))
               + list(range(0x10000, 0x110000, 0x400 if T else 0x4000))]
        for j in range(0, len(cps), 40):
            if j // 40 % 4 != i:
                continue
            cs = [chr(c) for c in cps[j:j + 40]]
            texts = [x for c in cs for x in (c, c + 'a', 'a' + c, 'a' + c + 'a', c + c, ' ' + c)]
            ctx.run(dict(fields=[('n%d' % k, None, None if k % 2 else 'text/plain', x.encode()) for k, x in enumerate(texts)], bd=b'B0und'))
            ctx.run(dict(fields=[('same', None, None, x.encode()) for x in texts], bd=b'B0und', how='po'))
            texts = [x for x in texts if not set(x) & set('"\r\n')]
            ctx.run(dict(fields=[(x, None, None, b'v') for x in texts], bd=b'B0und', style=STYLES[j // 40 % 6]))
            ctx.run(dict(fields=[(x, x[::-1], 'a/b', b'v') for x in texts], bd=b'B0und', style=STYLES[j // 40 % 6]))
        if i == 0:
            for b in range(256):
                b = bytes([b])
                ds = [b, b + b'a', b'a' + b, b'a' + b + b'a', b + b, b + b'\r', b'\n' + b, b'\xef\xbb\xbf' + b]
                ctx.run(dict(fields=[('f', 'x%d' % k, None, d) for k, d in enumerate(ds)], bd=b'B0und'))
    elif s == 'ops':
        cs = [(b'abcde', b'12'), (b'', b'xyz'), (b'\r\n-', b'\r\n-'), (b'abcd', b'wxyz'), (b'q', b'')][i]
        ctx.run(dict(k='ops', contents=cs, depth=4, mem=None))
        ctx.run(dict(k='ops', contents=cs, depth=4 if T else 3, mem=150))
