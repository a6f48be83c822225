"""C13 - body size limits and disk spooling bound what a request can consume."""
import itertools
import json
import os
import sys
import tracemalloc

from ..core import Violation
from ..choice import Chooser, next_prefix
from .. import wsgi

ID = 'C13'
TECHNIQUE = ('stateless model checking of the real body pipeline: every (limit, threshold, size, framing, chunking, content type, accessor) '
             'of a bounded grid x read fragmentations, with a recording input stream, file descriptor and peak-memory monitors')
LEVEL_NOTE = ('Complete over the stated grid: all sizes around and far beyond each limit and threshold, all partitions of small chunked bodies, '
              'all single short reads (all fragmentations for bodies of up to 9 bytes). Multipart text between "text alone fits" and '
              '"headers plus text fit" is left free. Peak memory is judged on a few large uploads with a generous allowance.')
RULE = ('a case is (max_body_size, max_memfile_size, body, framing, accessor, read answers); a state is such a case with the stream '
        'position at each read, a transition one read(); the reference is arithmetic on the sizes')
ASSUMPTIONS = ['the server stream obeys PEP 3333', '"one buffer" is max_memfile_size bytes (at least one)', 'framing bytes of chunked encoding are not counted against the limit']
BOUNDS = {'quick': dict(full_fragmentation=8, limit=64, threshold=64), 'thorough': dict(full_fragmentation=10, limit=64, threshold=64)}

_apps = {}


_opened = []       # files opened for writing by the current request


def _audit(ev, args):
    if ev == 'open' and len(args) > 2 and isinstance(args[2], int) and args[2] & (os.O_RDWR | os.O_WRONLY):
        _opened.append(args[0])


_hooked = []


def lst(v):
    return v if isinstance(v, list) else [v]


def app_for(mx, mem, via):
    k = (mx, mem, via)
    if k not in _apps:
        import ombott
        cfg = {}
        if mx is not None:
            cfg['max_body_size'] = mx
        if mem is not None:
            cfg['max_memfile_size'] = mem
        if via == 'setup':
            a = ombott.Ombott()
            a.setup(cfg)
        else:
            a = ombott.Ombott(cfg)
        box = a._box = {}

        def get(how, rq):
            if how == 'body':
                b = rq.body
                box['size'] = None
                box['on_disk'] = len(_opened)     # before fileno(), which may itself move a body to disk
                try:
                    fd = b.fileno()
                    b.flush()
                    box['size'] = os.fstat(fd).st_size
                except (OSError, AttributeError):
                    pass
                box['body'] = b.read()
                box['again'] = rq.body.read()
            elif how == 'keep':
                # look without loading
                b = rq.body
                box['on_disk'] = len(_opened)
                try:
                    box['size'] = os.fstat(b.fileno()).st_size
                except (OSError, AttributeError):
                    box['size'] = None
            elif how == 'json':
                box['json'] = rq.json
            elif how == 'files':
                box['files'] = {n: [(f.raw_filename, f.file.read()) for f in lst(v)] for n, v in rq.files.items()}
                box['forms'] = {n: lst(v) for n, v in rq.forms.items()}
            else:
                box['forms'] = {n: lst(v) for n, v in getattr(rq, how).items() if not hasattr(lst(v)[0], 'file')}

        def h(how):
            if how.startswith('re'):
                try:
                    get('body', a.request)
                except ombott.HTTPError:
                    box.clear()
                get(how[2:], a.request)
            else:
                get(how, a.request)
            return b'ok'
        a.route('/<how>', ['POST', 'PUT', 'PATCH', 'GET', 'DELETE'], h)
        _apps[k] = a
    return _apps[k]


def blob(n):
    base = b'\x00\r\n-A\xffb\r\nC\x80\x0a;'
    return bytes((base[i % len(base)] + i // len(base)) & 0xff for i in range(n)) if n < 5000 else (base * (n // len(base) + 1))[:n]


def wire(case, body):
    """-> stream bytes, environ extras, payload(pos)"""
    if case.get('te'):
        sizes = list(case['te']) if isinstance(case['te'], (list, tuple)) else None
        if sizes is None:
            sizes = [len(body)]
        out, pos, marks = b'', 0, []
        i = 0
        while pos < len(body):
            k = min(sizes[i % len(sizes)], len(body) - pos)
            i += 1
            out += b'%x\r\n' % k
            marks.append((len(out), k))
            out += body[pos:pos + k] + b'\r\n'
            pos += k
        out += b'0\r\n\r\n'

        def payload(p):
            return sum(min(max(p - s, 0), k) for s, k in marks)
        kw = dict(HTTP_TRANSFER_ENCODING='chunked')
        if 'cl' in case:        # overridden by the chunked encoding
            kw['CONTENT_LENGTH'] = str(case['cl'])
        return out, kw, payload
    return body, dict(CONTENT_LENGTH=str(len(body))), lambda p: p


def make(case):
    """-> body, content type, text (form text size or None), must-accept-as-form, expected forms, expected files, expected json"""
    kind = case['kind']
    n = case['n']
    if kind == 'raw':
        return dict(body=blob(n), ctype=case.get('ctype', 'application/octet-stream'))
    if kind == 'url':
        v = 'x' * max(n - 2, 0)
        body = ('a=' + v)[:n].encode()
        f = {'a': [v]} if n >= 1 else {}
        return dict(body=body, ctype='application/x-www-form-urlencoded', text=n, fits=n, forms=f)
    if kind == 'urlfields':
        body = b'&'.join(b'k%d=%s' % (i, b'v' * 3) for i in range(n))
        return dict(body=body, ctype='application/x-www-form-urlencoded', text=len(body), fits=len(body),
                    forms={'k%d' % i: ['vvv'] for i in range(n)})
    if kind == 'json':
        v = 'x' * max(n - 8, 0)
        body = json.dumps({'a': v}, separators=(',', ':')).encode()
        return dict(body=body, ctype='application/json', text=len(body), fits=len(body), json={'a': v}, forms={'a': [v]})
    if kind == 'mp':
        b = b'B'
        out = b'--' + b
        text = hdr = 0
        forms, files = {}, {}
        for i, (t, k) in enumerate(case['parts']):
            if t == 'f':
                h = b'Content-Disposition: form-data; name="f%d"; filename="u"' % i
                d = blob(k)
                files['f%d' % i] = [('u', d)]
            else:
                h = b'Content-Disposition: form-data; name="t%d"' % i
                d = b'y' * k
                text += k
                forms['t%d' % i] = [d.decode()]
            hdr += len(h)
            out += b'\r\n' + h + b'\r\n\r\n' + d + b'\r\n--' + b
        out += b'--\r\n'
        return dict(body=out, ctype='multipart/form-data; boundary=B', text=text, fits=text + hdr, forms=forms, files=files)
    raise ValueError(kind)


def run_case(case, ctx):
    if case.get('k') == 'peak':
        return peak(case, ctx)
    mx, mem, how = case['mx'], case['mem'], case['how']
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked.append(1)
    T = mem if mem is not None else 100 * 1024
    m = make(case)
    body = m['body']
    a = app_for(mx, mem, case.get('via'))
    data, kw, payload = wire(case, body)
    ch = Chooser(case.get('choices', ()))
    ctx.last = ch
    extra = case.get('extra', b'')       # next request on the same connection
    st = wsgi.ChoiceStream(data + extra, ch, (lambda k: [1, k - 1, k // 2]) if case.get('few') else None) \
        if 'choices' in case else wsgi.Stream(data + extra, default=case.get('reads', 'full'))
    a._box.clear()
    del _opened[:]
    env = wsgi.environ('/' + how, case.get('meth', 'POST'), stream=st, CONTENT_TYPE=m['ctype'], **kw)
    r = wsgi.call(a, env)
    box = dict(a._box)
    errors = env['wsgi.errors']
    env.clear()         # drop the body
    ctx.trans(len(st.reads))
    pos = 0
    if len(st.reads) < 50:
        for asked, given in st.reads:
            ctx.state((mx, mem, case['kind'], str(case.get('parts')), case['n'], how, str(case.get('te')), pos))
            pos += given
    else:
        ctx.state((mx, mem, case['kind'], str(case.get('parts')), case['n'], how, str(case.get('te'))))
    n = len(body)
    what = 'body of %d bytes (%s, %s, limit %r, threshold %r, read through .%s)' % (
        n, m['ctype'], 'chunks %r%s' % (case['te'], ' and Content-Length %r' % case['cl'] if 'cl' in case else '') if case.get('te') else 'Content-Length', mx, mem, how)
    err = errors.text[-800:]
    ctx.outcome('%s:%s' % (how, r.code))
    got = payload(st.pos)
    if how.endswith('json') and 'json' not in m and (not st.reads or how == 'rejson'):
        return        # nothing to load from another content type
    if mx is not None and n > mx:
        if r.code != 413:
            raise Violation('%s: larger than the limit but answered %s; %s' % (what, r.status, err))
        if got > mx + max(T, 1):
            raise Violation('%s: %d payload bytes were read, more than the limit plus one buffer' % (what, got))
        big = [k for k, _ in st.reads if k is not None and k > max(T, 1, 2)]
        if st.bad or (big and max(big) > mx + max(T, 1)):
            raise Violation('%s: asked the stream for %r' % (what, st.bad or max(big)))
        return
    if how in ('body', 'keep'):
        ok = True
    elif how == 'rebody':
        ok, how = True, 'body'
    else:
        how = how[2:] if how.startswith('re') else how
        if m.get('text') is None:
            ok = None if n > T else True
        elif m['text'] > T:
            ok = False
        elif m['fits'] <= T:
            ok = True
        else:
            ok = None
        if how == 'json' and m.get('json') is None:
            ok = None      # not a JSON body: nothing to load
            if r.code == 200 and box.get('json') is not None:
                raise Violation('%s: json is %r' % (what, box['json']))
    if ok is False:
        if not (r.code is not None and 400 <= r.code < 500):
            raise Violation('%s: form text of %d bytes is larger than the threshold but answered %s; %s' % (what, m['text'], r.status, err))
        return
    if ok is None and r.code != 200:
        if not (r.code is not None and 400 <= r.code < 500):
            raise Violation('%s: answered %s; %s' % (what, r.status, err))
        return
    if r.code != 200:
        raise Violation('%s: within the limits but answered %s; %s' % (what, r.status, err))
    if how in ('body', 'keep'):
        if how == 'body' and (box['body'] != body or box['again'] != body):
            raise Violation('%s: presented %d bytes %r, then %d bytes' % (what, len(box['body']), box['body'][:60], len(box['again'])))
        if n > T and box['size'] != n:
            raise Violation('%s: larger than the threshold but not held in a file (file size %r)' % (what, box['size']))
        if n > T and not box['on_disk']:
            raise Violation('%s: larger than the threshold but kept in memory until its descriptor is asked for' % (what,))
        if st.pos > len(data):
            raise Violation('%s: read %d bytes beyond the body' % (what, st.pos - len(data)))
    elif how == 'json':
        if ok and box['json'] != m['json']:
            raise Violation('%s: json differs: %r' % (what, str(box['json'])[:100]))
    elif m.get('forms') is not None and ok:
        if box.get('forms') != m['forms']:
            raise Violation('%s: forms differ: %s' % (what, str(box.get('forms'))[:300]))
        if how == 'files' and box['files'] != m.get('files', {}):
            raise Violation('%s: files differ: %s' % (what, str(box['files'])[:300]))


class Big:
    """stream of n bytes made on the fly"""
    def __init__(self, segs):
        self.segs = list(segs)      # (bytes) or (n, byte)
        self.buf = b''

    def read(self, n):
        out = []
        while n and self.segs:
            s = self.segs[0]
            if isinstance(s, bytes):
                out.append(s[:n])
                rest = s[n:]
                n -= len(out[-1])
                if rest:
                    self.segs[0] = rest
                else:
                    self.segs.pop(0)
            else:
                k = min(n, s[0])
                out.append(s[1] * k)
                n -= k
                if s[0] - k:
                    self.segs[0] = (s[0] - k, s[1])
                else:
                    self.segs.pop(0)
        return b''.join(out)


def peak(case, ctx):
    """A large body must not be accumulated in memory."""
    mem, n = case['mem'], case['n']
    T = mem if mem is not None else 100 * 1024
    a = app_for(None, mem, None)
    if case['kind'] == 'raw':
        pre = post = b''
        ctype = 'application/octet-stream'
        how = 'keep'
    else:
        B = b'----WebKitFormBoundary' + b'q' * 40
        pre = b'--' + B + b'\r\nContent-Disposition: form-data; name="f"; filename="u"\r\n\r\n'
        post = b'\r\n--' + B + b'--\r\n'
        ctype = 'multipart/form-data; boundary=' + B.decode()
        how = 'keep'
    total = len(pre) + n + len(post)
    if case['te']:
        segs, left = [], n
        segs.append(b'%x\r\n' % len(pre) + pre + b'\r\n') if pre else None
        while left:
            k = min(left, case['te'])
            segs += [b'%x\r\n' % k, (k, b'x'), b'\r\n']
            left -= k
        if post:
            segs.append(b'%x\r\n' % len(post) + post + b'\r\n')
        segs.append(b'0\r\n\r\n')
        kw = dict(HTTP_TRANSFER_ENCODING='chunked')
    else:
        segs = [s for s in (pre, (n, b'x'), post) if s]
        kw = dict(CONTENT_LENGTH=str(total))
    env = wsgi.environ('/' + how, 'POST', stream=Big(segs), CONTENT_TYPE=ctype, **kw)
    a._box.clear()
    del _opened[:]
    tracemalloc.start()
    try:
        r = wsgi.call(a, env)
        _, pk = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
    ctx.state(('peak', mem, n, case['kind'], case['te']))
    ctx.trans()
    ctx.outcome('peak')
    if r.code != 200 or a._box.get('size') != total:
        raise Violation('upload of %d bytes (threshold %r): %s, file size %r; %s' % (
            total, mem, r.status, a._box.get('size'), env['wsgi.errors'].text[-500:]))
    allow = 8 * T + (2 << 20)
    if pk > allow:
        raise Violation('upload of %d bytes (%s, threshold %r) took %d bytes of memory' % (total, case['kind'], mem, pk))


def tree(ctx, case, bound=None):
    prefix = []
    while prefix is not None:
        ctx.run(dict(case, choices=prefix))
        prefix = next_prefix(ctx.last.choices, ctx.last.widths, bound)


LIMS = [0, 1, 2, 5, 9, 16, 64, None]
MEMS = [0, 1, 2, 3, 7, 16, 64, None]


def sizes(mx, mem):
    s = set(range(0, 13))
    for x in (mx, mem, (mx or 0) + (mem or 0)):
        if x is not None:
            s |= {x - 1, x, x + 1, x + 2, 2 * x, 2 * x + 1, 3 * x + 5}
    return sorted(k for k in s if k >= 0)


def shards(tier):
    out = [{'s': 'peak', 'te': te} for te in (0, 65536, 4 << 20, 8 << 20)] + [{'s': 'large'}]
    for mx in LIMS:
        for mem in MEMS:
            out.append({'s': 'grid', 'mx': mx, 'mem': mem})
    for i in range(8):
        out.append({'s': 'form', 'i': i})
    out = [{'s': 'mp', 'i': i} for i in (7, 2, 5, 6, 4, 3, 1, 0)] + out
    return out


def run_shard(sh, ctx):
    s, T = sh['s'], ctx.thorough
    if s == 'grid':
        mx, mem = sh['mx'], sh['mem']
        for n in sizes(mx, mem):
            for te in (None, 1, [1], [2], [3, 1], [7], [64], [n or 1]):
                for how in ('body', 'forms', 'json', 'files', 'POST', 'params', 'rebody', 'reforms', 'keep'):
                    for reads in ('full', 'one'):
                        ctx.run(dict(kind='raw', n=n, mx=mx, mem=mem, te=te, how=how, reads=reads))
                for meth in ('GET', 'PUT', 'DELETE'):
                    ctx.run(dict(kind='raw', n=n, mx=mx, mem=mem, te=te, how='body', meth=meth, via='setup'))
                for ctype in ('application/json', 'multipart/form-data; boundary=x', 'application/x-www-form-urlencoded', '', 'text/plain'):
                    ctx.run(dict(kind='raw', n=n, mx=mx, mem=mem, te=te, how='body', ctype=ctype, extra=b'GET / HTTP/1.1\r\n\r\n'))
            for te in (None, [3], [n or 1]):
                if n <= (10 if T else 8):
                    tree(ctx, dict(kind='raw', n=n, mx=mx, mem=mem, te=te, how='body'))
                else:
                    tree(ctx, dict(kind='raw', n=n, mx=mx, mem=mem, te=te, how='body', few=1), bound=2 if T or n < 20 else 1)
    elif s == 'form':
        for mem in [0, 1, 2, 5, 16, 40, 64, 100, 1000, None][sh['i']::8]:
            t = mem if mem is not None else 102400
            for mx in (None, t - 1, t, t + 1, 3 * t + 100):
                if mx is not None and mx < 0:
                    continue
                for n in sorted({0, 1, 2, 3, 8, 9, 10, t - 2, t - 1, t, t + 1, t + 2, 2 * t, 2 * t + 1, 5 * t}):
                    if n < 0:
                        continue
                    for kind in ('url', 'json'):
                        for te in (None, [3], [t or 1], [t + 1], [n or 1]):
                            if te == [3] and n > 5000:
                                continue
                            if te and te != [3]:
                                for cl in (0, 1, t + 1, 10 ** 7):
                                    for how in ('forms', 'json', 'body'):
                                        ctx.run(dict(kind=kind, n=n, mx=mx, mem=mem, te=te, how=how, cl=cl))
                            for how in ('forms', 'POST', 'params', 'json', 'files', 'reforms', 'rejson', 'body'):
                                for via in (None, 'setup'):
                                    ctx.run(dict(kind=kind, n=n, mx=mx, mem=mem, te=te, how=how, via=via))
                for n in range(0, 12):
                    ctx.run(dict(kind='urlfields', n=n, mx=mx, mem=mem, how='forms'))
                    ctx.run(dict(kind='urlfields', n=n, mx=mx, mem=mem, how='forms', te=[4]))
    elif s == 'mp':
        for mem in [0, 1, 40, 41, 44, 45, 46, 47, 60, 85, 86, 100, 130, 200, 300, None][sh['i']::8]:
            t = mem if mem is not None else 102400
            near = sorted({0, 1, 5, t // 2, t - 45, t - 44, t - 43, t - 41, t - 40, t - 39, t - 1, t, t + 1, 2 * t, 4 * t + 3})
            near = [k for k in near if k >= 0]
            if mem is None and not T:
                near = [1, t - 45, t - 44, t - 40, t, t + 1]
            lists = [[('t', k)] for k in near]
            lists += [[('f', k)] for k in near]
            for a, b in itertools.product(near, repeat=2):
                lists += [[('t', a), ('t', b)], [('f', a), ('t', b)], [('t', a), ('f', b)]]
            lists += [[('t', k)] * 3 for k in near] + [[('t', t // 3 + d)] * 3 for d in (-40, -1, 0, 1, 2) if t // 3 + d >= 0]
            lists += [[('t', t // 10)] * 11, [('t', t // 10 + 1)] * 10, [('f', t + 1)] * 3 + [('t', 0)]]
            for parts in lists:
                n = sum(k for _, k in parts)
                body = None
                for te in (None, [97], [max(t, 1)]):
                    if te == [97] and n > 3000:
                        continue
                    for how in ('files', 'forms', 'POST', 'params', 'reforms', 'body') if n < 5000 or T else ('files', 'reforms'):
                        ctx.run(dict(kind='mp', n=n, parts=parts, mx=None, mem=mem, te=te, how=how))
                if n <= 2000:
                    body = len(make(dict(kind='mp', n=n, parts=parts))['body'])
                    for mx in (body - 1, body, body + 1):
                        for te in (None, [body]):
                            ctx.run(dict(kind='mp', n=n, parts=parts, mx=mx, mem=mem, te=te, how='files'))
    elif s == 'large':
        D = 100 * 1024
        for mx in (None, D - 1, D, D + 1, 3 * D, 1 << 20):
            for n in (D - 1, D, D + 1, 2 * D, 2 * D + 1, 3 * D, 3 * D + 1, (1 << 20), (1 << 20) + 1, 3 << 20):
                for te in (None, [n], [4096], [D], [D + 1], [65536, 1]):
                    for how in ('body', 'keep', 'forms'):
                        ctx.run(dict(kind='raw', n=n, mx=mx, mem=None, te=te, how=how))
    elif s == 'peak':
        te = sh['te']
        for mem in (4096, None):
            for kind in ('raw', 'mp'):
                if mem == 4096 and (te or kind == 'mp') and not T:
                    continue
                ctx.run(dict(k='peak', mem=mem, n=(32 << 20) if T else (8 << 20), kind=kind, te=te))
