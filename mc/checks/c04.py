"""C04 - Content-Length bodies arrive byte-exact under any read fragmentation."""
from ..core import Violation
from ..choice import Chooser, next_prefix
from .. import wsgi

ID = 'C04'
TECHNIQUE = ('stateless model checking of the real body reader: all read fragmentations (choice tree over every read() answer) '
             'x Content-Length x available data x buffer sizes')
LEVEL_NOTE = ('Complete over all fragmentations for the small bodies stated in bounds (every buffer size up to the body length, '
              'Content-Length below/equal/above the data); for bodies of up to several buffers of realistic size complete up to 2 '
              'short reads with 5 short-read sizes; announced lengths around every machine word up to 10**100. Trusts io.BytesIO and temp files.')
RULE = ('a case is (bytes available, Content-Length, in-memory threshold, access pattern, sequence of read sizes); a state is '
        '(available, Content-Length, threshold, stream position at a read), a transition one read() answered; every leaf of the '
        'choice tree is one complete WSGI request on the real application')
ASSUMPTIONS = ['the server stream obeys PEP 3333: read(n) gives at most n bytes and b"" only at end of stream']
BOUNDS = {'quick': dict(full_tree_len=11, large_short_reads=2), 'thorough': dict(full_tree_len=13, large_short_reads=2)}

PATTERNS = ['read', 'twice', 'partial', 'input', 'chunks', 'copy']
HUGE = sorted({b + d for k in (15, 16, 24, 31, 32, 33, 53, 62, 63, 64, 65, 128) for b in [2 ** k] for d in (-1, 0, 1, 2, 5, 11)} |
              {10 ** k for k in (3, 6, 9, 12, 18, 30, 100)} | {99999, 123456789012})
_apps = {}


def data_of(n):
    # distinct neighbours, includes NUL, CR, LF, '-' and high bytes
    base = b'\x00\r\n-A\xffb\r\nC\x80\x0a;'
    return bytes((base[i % len(base)] + i // len(base)) & 0xff for i in range(n))


def app_for(mem):
    if mem not in _apps:
        import ombott
        a = ombott.Ombott(dict(max_memfile_size=mem) if mem is not None else None)
        box = a._box = {}

        def h(pat):
            rq = a.request
            if pat == 'read':
                box['body'] = [rq.body.read()]
            elif pat == 'twice':
                box['body'] = [rq.body.read(), rq.body.read()]
            elif pat == 'partial':
                first = rq.body.read(2)
                box['part'] = first
                box['body'] = [rq.body.read()]
            elif pat == 'input':
                b = rq.body.read()
                box['body'] = [b]
                inp = rq.environ['wsgi.input']
                inp.seek(0)
                box['body'].append(inp.read())
            elif pat == 'chunks':
                out = []
                f = rq.body
                while True:
                    c = f.read(3)
                    if not c:
                        break
                    out.append(c)
                box['body'] = [b''.join(out), rq.body.read()]
            elif pat == 'copy':
                box['body'] = [rq.body.read(), rq.copy().body.read()]
            return b'ok'
        a.route('/<pat>', ['POST', 'GET', 'PUT'], h)
        _apps[mem] = a
    return _apps[mem]


def run_case(case, ctx):
    n, cl, mem, pat = case['n'], case['cl'], case['mem'], case['pat']
    data = data_of(n)
    a = app_for(mem)
    opts = None
    if case.get('large'):
        opts = lambda m: [1, 2, m // 2, m - 1, m - 2]
    ch = Chooser(case['choices'])
    st = wsgi.ChoiceStream(data, ch, opts)
    a._box.clear()
    env = wsgi.environ('/' + pat, case.get('meth', 'POST'), stream=st, CONTENT_LENGTH=None if cl is None else str(cl))
    if case.get('ctype'):
        env['CONTENT_TYPE'] = case['ctype']
    if case.get('pathenv'):
        env.update(case['pathenv'])
    r = wsgi.call(a, env)
    ctx.last = ch
    want = data[:cl or 0]
    pos = 0
    if st.bad:
        raise Violation('the stream was used with %s (Content-Length %s)' % (st.bad, cl))
    for asked, given in st.reads:
        ctx.trans()
        ctx.state((n, cl, mem, pos))
        if asked > (cl or 0) - pos:
            raise Violation('read(%r) at offset %d goes beyond Content-Length %r (reads: %r)' % (asked, pos, cl, st.reads))
        pos += given
    if r.code != 200:
        raise Violation('status %s for Content-Length %r, %d bytes available, threshold %r; %s' % (
            r.status, cl, n, mem, env['wsgi.errors'].text[-600:]))
    for b in a._box['body']:
        if b != want:
            raise Violation('Content-Length %r, %d bytes available, threshold %r, reads %r: body is %r (%d bytes), expected %r (%d bytes)' % (
                cl, n, mem, st.reads[:20], b[:60], len(b), want[:60], len(want)))
    if 'part' in a._box and a._box['part'] != want[:2]:
        raise Violation('body.read(2) gave %r, expected %r' % (a._box['part'], want[:2]))
    ctx.outcome('len%d' % min(len(want), 20))


def tree(ctx, case, bound=None):
    prefix = []
    while prefix is not None:
        ctx.run(dict(case, choices=prefix))
        ch = ctx.last
        if ch.diverged:
            ctx.note('divergence while replaying a prefix')
        prefix = next_prefix(ch.choices, ch.widths, bound)


def shards(tier):
    top = 13 if tier == 'thorough' else 11
    out = []
    for mem in list(range(0, top + 2)):
        out.append({'s': 'tree', 'mem': mem})
    out.append({'s': 'tree', 'mem': None})
    for mem in (None, 4096, 1024, 16, 4, 1):
        for i in range(7):
            out.append({'s': 'large', 'mem': mem, 'i': i})
    for mem in (2, 5, 64):
        out.append({'s': 'types', 'mem': mem})
    for mem in (0, 3, 64, None):
        out.append({'s': 'huge', 'mem': mem})
    return out


def run_shard(sh, ctx):
    mem = sh['mem']
    if sh['s'] == 'tree':
        top = 13 if ctx.thorough else 11
        for n in range(0, top + 1):
            for cl in [None] + list(range(0, n + 3)):
                if cl is not None and cl < n - 1 and n not in (top, top - 1, 3, 4):
                    continue     # below-data lengths: the tree only depends on Content-Length
                big = min(cl or 0, n) >= 9
                for pat in PATTERNS:
                    if pat not in ('read', 'input') and big and not ctx.thorough:
                        continue
                    if pat != 'read' and min(cl or 0, n) >= 11:
                        continue
                    tree(ctx, dict(n=n, cl=cl, mem=mem, pat=pat))
    elif sh['s'] == 'large':
        m = mem if mem is not None else 100 * 1024
        for k in [(m - 1, m, m + 1, 2 * m, 2 * m + 1, 3 * m - 1, 5 * m + 3)[sh['i']]]:
            if k <= 0:
                continue
            for cl in (k - 1, k, k + 1):
                if cl < 0:
                    continue
                if k > 500000 and not ctx.thorough:
                    tree(ctx, dict(n=k, cl=cl, mem=mem, pat='read', large=1), bound=1)
                else:
                    tree(ctx, dict(n=k, cl=cl, mem=mem, pat='input', large=1), bound=2 if k <= (40 * m if ctx.thorough or m < 5000 else m + 1) else 1)
        # byte at a time
        for k in (m, m + 1, 2 * m + 1):
            if k <= 10000 and sh['i'] == 0:
                ctx.run(dict(n=k, cl=k, mem=mem, pat='read', large=1, choices=[1] * k))
    elif sh['s'] == 'types':
        for ctype in ('text/plain', 'application/octet-stream', 'application/json', 'application/x-www-form-urlencoded',
                      'multipart/form-data; boundary=x', 'multipart/mixed'):
            for meth in ('POST', 'PUT', 'GET'):
                for n in range(0, 8):
                    for cl in (0, n - 1, n, n + 1):
                        if cl >= 0:
                            tree(ctx, dict(n=n, cl=cl, mem=mem, pat='twice', ctype=ctype, meth=meth))
    elif sh['s'] == 'huge':
        # the peer announces more than any machine word holds and then hangs up
        for cl in HUGE:
            for n in (0, 1, 2, 3, 5, 8, 12):
                for pat in ('read', 'input', 'copy', 'chunks'):
                    tree(ctx, dict(n=n, cl=cl, mem=mem, pat=pat, large=1 if mem is None or mem > 12 else 0), bound=None if n < 6 else 2)
