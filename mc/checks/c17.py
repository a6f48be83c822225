"""C17  Range and conditional requests describe exactly the bytes delivered."""
import email.utils
import itertools
import mimetypes
import os
import re
import shutil
import tempfile
import time

from ..core import Violation
from ..wsgi import environ, call, pep3333_problems

ID = 'C17'
TECHNIQUE = ('exhaustive enumeration of file lengths x Range headers (every first/last pair, all strings over a small alphabet, lists) x methods x '
             'server features, and of file times x If-Modified-Since dates x date formats x local time zones, on the real static_file through the '
             'application against RFC 7233 arithmetic')
LEVEL_NOTE = ('lengths 0..12 x all a-b with a, b in {none, 0..len+2, huge}; all texts up to length 5 over 10 characters after `bytes=`; lengths around 64 KiB, '
              '1 MiB and 2 MiB x boundaries; 20 file times x 33 dates x 10 formats (6 with a numeric zone) x 10 zones')
RULE = ('206: Content-Range, Content-Length and body are the same slice, the first range clipped to the file; 416 otherwise; chunks <= 1 MiB; '
        '304 without body for a date not older than the file; HEAD has the headers of GET and no body')
ASSUMPTIONS = ['a Range header that RFC 7233 does not define may be answered with 416 or with a 206 that is consistent in itself',
               'a list whose first range is unsatisfiable is answered with 416 (first requested range)', 'the file does not change while it is served']
BOUNDS = dict(quick='lengths 0..12 and 12 big ones; all header texts up to length 5', thorough='lengths 0..20, header texts up to length 6')
MAXCHUNK = 1024 * 1024

_scratch = []


def prepare():
    _scratch.append(os.path.realpath(tempfile.mkdtemp(prefix='vp-c17-')))


def cleanup():
    shutil.rmtree(_scratch[0], ignore_errors=True)


def content(n):
    # every offset within 64 KiB has its own two bytes
    out = bytearray(n)
    for i in range(min(n, 70000)):
        out[i] = (i * 7 + i // 256 * 13 + 1) & 255
    if n > 70000:
        blk = bytes(out[:65521])
        out = bytearray((blk * (n // 65521 + 1))[:n])
    return bytes(out)


_files = {}
_setup = []


def file_of(n, name='f.bin'):
    key = n, name
    if key not in _files:
        d = os.path.join(_scratch[0], 'p%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        fn = '%d-%s' % (n, name)
        data = content(n)
        with open(os.path.join(d, fn), 'wb') as fp:
            fp.write(data)
        _files[key] = (d, fn, data)
    return _files[key]


CUR = {}


def app():
    import ombott
    a = ombott.default_app()
    if not _setup:
        mimetypes.init()

        @a.route('/f', ['GET', 'POST'], overwrite=True)
        def f():
            return ombott.static_file(CUR['name'], CUR['root'], **CUR.get('kw', {}))
        _setup.append(1)
    return a


class FW:
    def __init__(self, f, block=8192):
        self.f = f

    def __iter__(self):
        while True:
            d = self.f.read(8192)
            if not d:
                return
            yield d

    def close(self):
        self.f.close()


def get(d, fn, method, headers, wrapper=False):
    CUR.update(name=fn, root=d)
    e = environ('/f', method, headers=headers)
    if wrapper:
        e['wsgi.file_wrapper'] = FW
    r = call(app(), e)
    p = pep3333_problems(r, method)
    if p:
        raise Violation('%s %r: %s' % (method, headers, '; '.join(p)))
    return r


_spec = re.compile(r'^bytes=[ \t]*(?:(\d+)-(\d*)|-(\d+))[ \t]*(?:,|$)', re.A)


_list = re.compile(r"^bytes=(\d+-\d*|-\d+)(,[ \t]*(\d+-\d*|-\d+)?)*$", re.A)


def rfc(header, n):
    """(kind, slice): 'ok' slice | 'no' None | 'any' None   -- first range of an RFC 7233 header for a file of n bytes"""
    if not _list.match(header) or len(header) > 3000:
        return 'any', None
    m = _spec.match(header)
    first, last, suffix = m.groups()
    if suffix is not None:
        k = int(suffix)
        if k == 0 or n == 0:
            return 'no', None
        return 'ok', (max(0, n - k), n)
    a = int(first)
    if last:
        b = int(last)
        if b < a:
            return 'no', None       # invalid: no slice can answer it
    else:
        b = n - 1
    if a >= n:
        return 'no', None
    return 'ok', (a, min(b, n - 1) + 1)


_cr = re.compile(r'^bytes (\d+)-(\d+)/(\d+)$')


def judge(n, header, r, data, method, where, ctx):
    kind, sl = rfc(header, n)
    cl = r.header_all('Content-Length')
    ctx.outcome('%s %s' % (kind, r.code))
    if r.code == 416:
        if kind == 'ok':
            raise Violation('%s: 416 for a satisfiable range' % where)
        if method != 'HEAD' and cl and cl != [str(len(r.body))]:
            raise Violation('%s: 416 with Content-Length %r for %d bytes' % (where, cl, len(r.body)))
        return
    if r.code != 206:
        raise Violation('%s: %r' % (where, r.status))
    if kind == 'no':
        raise Violation('%s: 206 %r for a range that cannot be satisfied' % (where, r.header('Content-Range')))
    m = _cr.match(r.header('Content-Range') or '')
    if not m or len(r.header_all('Content-Range')) != 1:
        raise Violation('%s: Content-Range %r' % (where, r.header_all('Content-Range')))
    a, b, t = map(int, m.groups())
    if t != n or not 0 <= a <= b < n:
        raise Violation('%s: Content-Range %r for a file of %d bytes' % (where, m.group(0), n))
    if kind == 'ok' and (a, b + 1) != sl:
        raise Violation('%s: Content-Range %r, expected %d-%d' % (where, m.group(0), sl[0], sl[1] - 1))
    if cl != [str(b + 1 - a)]:
        raise Violation('%s: Content-Length %r with %r' % (where, cl, m.group(0)))
    if method != 'HEAD' and r.body != data[a:b + 1]:
        raise Violation('%s: delivers %d bytes that are not those of %r' % (where, len(r.body), m.group(0)))
    if any(len(c) > MAXCHUNK for c in r.chunks):
        raise Violation('%s: chunk of %d bytes' % (where, max(map(len, r.chunks))))


def same_headers(g, h, where):
    a = sorted(x for x in g.headers if x[0] != 'Date')
    b = sorted(x for x in h.headers if x[0] != 'Date')
    if g.status != h.status or a != b:
        raise Violation('%s: HEAD answers %s %r, GET answers %s %r' % (where, h.status, b, g.status, a))
    if h.body:
        raise Violation('%s: HEAD with body' % where)


def one_range(n, header, ctx, head=True, wrapper=False, name='f.bin'):
    d, fn, data = file_of(n, name)
    where = 'file of %d bytes, Range: %r%s' % (n, header[:100], ', file_wrapper' if wrapper else '')
    g = get(d, fn, 'GET', {'Range': header}, wrapper)
    if not header:
        full(g, data, where, ctx)
    else:
        judge(n, header, g, data, 'GET', where, ctx)
    ctx.trans()
    if head:
        h = get(d, fn, 'HEAD', {'Range': header}, wrapper)
        same_headers(g, h, where)
        ctx.trans()
    ctx.state((n, header, wrapper, name))


def full(g, data, where, ctx):
    if g.code != 200 or g.body != data or g.header_all('Content-Length') != [str(len(data))]:
        raise Violation('%s: %s, Content-Length %r, %d bytes delivered' % (where, g.status, g.header_all('Content-Length'), len(g.body)))
    if g.header('Content-Range') is not None:
        raise Violation('%s: Content-Range without Range' % where)
    if any(len(c) > MAXCHUNK for c in g.chunks):
        raise Violation('%s: chunk of %d bytes' % (where, max(map(len, g.chunks))))
    ctx.outcome('full')


def nums(n):
    return [''] + [str(i) for i in range(n + 3)] + ['007', str(10 ** 18)]


ALPH = '0129-, =b\t'
MAL = ['bytes', 'bytes=', 'bytes=-', 'bytes=--1', 'bytes=a-b', 'bytes=1', 'bytes=0-1-2', 'bytes 0-1', 'items=0-1', 'Bytes=0-1', 'BYTES=0-', 'xbytes=0-1', 'bytes=0-1;x',
       'bytes=+1-2', 'bytes=1_0-', 'bytes=٠-١', 'bytes=0x1-2', 'bytes=-0', 'bytes=-00', 'bytes=1e1-', 'bytes=0--1', 'bytes=-1-2', ' bytes=0-1', 'bytes =0-1',
       'bytes= 0-1', 'bytes=0 -1', 'bytes=0- 1', 'bytes=0-1 ', 'bytes=,0-1', 'bytes=0-1,', 'bytes=0-1,,2-3', 'bytes=0-1,x', 'bytes=0-0,-1', 'bytes=bytes=0-1',
       'bytes=0-1 bytes=2-3', 'none', '0-1', '-1', '=', 'bytes==0-1', 'bytes=0-1,bytes=2-3', 'bytes=99-,0-1', 'bytes=5-2,0-1', 'bytes=-5,0-1', 'bytes=0-,0-,0-',
       'bytes=0.0-1', 'bytes=0-1.5', 'bytes=\x0b0-1', 'bytes=\xa00-1', 'bytes=0-' + '9' * 30, 'bytes=' + '9' * 30 + '-', 'bytes=-' + '9' * 30,
       'bytes=0-' + '9' * 5000, 'bytes=' + '0' * 50 + '1-2', 'bytes=-' + '9' * 5000, 'bytes=' + ','.join('%d-%d' % (i, i) for i in range(500)),
       'bytes=NaN-', 'bytes=inf-', 'bytes=1-inf', 'bytes=²-', 'bytes=１-２']

BIG = [65535, 65536, 65537, MAXCHUNK - 1, MAXCHUNK, MAXCHUNK + 1, 2 * MAXCHUNK - 1, 2 * MAXCHUNK, 2 * MAXCHUNK + 1, 3 * MAXCHUNK + 12345, 8191, 8193]


def run_pairs(case, ctx):
    _, n, tail = case
    for a in nums(n):
        for b in nums(n):
            if a or b:
                one_range(n, 'bytes=%s-%s%s' % (a, b, tail), ctx, head=tail == '')


def run_text(case, ctx):
    _, n, pre, k = case
    for rest in itertools.product(ALPH, repeat=k):
        one_range(n, 'bytes=' + pre + ''.join(rest), ctx, head=False)


def run_mal(case, ctx):
    _, n = case
    for h in MAL:
        one_range(n, h, ctx)
        one_range(n, h, ctx, wrapper=True)


def run_full(case, ctx):
    _, n = case
    for name in ('f.bin', 'f.txt', 'f.html', 'f.tar.gz', 'noext', 'f.svg', 'f.json'):
        for kw in ({}, dict(mimetype=None), dict(mimetype='text/x'), dict(download=True), dict(download='é.txt'), dict(charset='latin1')):
            d, fn, data = file_of(n, name)
            CUR['kw'] = kw
            for w in (False, True):
                for hd in ({}, {'Range': ''}, {'If-Modified-Since': ''}, {'If-Modified-Since': 'garbage'}, {'If-Range': 'x'}, {'Accept-Encoding': 'gzip'}, {'If-None-Match': '"x"'}):
                    g = get(d, fn, 'GET', hd, w)
                    where = 'file %s of %d bytes, %r %r' % (name, n, kw, hd)
                    full(g, data, where, ctx)
                    same_headers(g, get(d, fn, 'HEAD', hd, w), where)
                    same_headers(g, get(d, fn, 'head', hd, w), where)
                    ctx.trans(3)
                for h in ('bytes=0-', 'bytes=1-2', 'bytes=-1', 'bytes=9-', 'x'):
                    g = get(d, fn, 'GET', {'Range': h}, w)
                    judge(n, h, g, data, 'GET', 'file %s of %d bytes, %r Range %r' % (name, n, kw, h), ctx)
                    same_headers(g, get(d, fn, 'HEAD', {'Range': h}, w), 'file %s, Range %r' % (name, h))
                    ctx.trans(2)
            CUR['kw'] = {}
    ctx.state(case)


def run_big(case, ctx):
    _, n = case
    d, fn, data = file_of(n)
    for w in (False, True):
        g = get(d, fn, 'GET', {}, w)
        full(g, data, 'file of %d bytes' % n, ctx)
        same_headers(g, get(d, fn, 'HEAD', {}, w), 'file of %d bytes' % n)
    edge = sorted({x for e in (0, 65536, MAXCHUNK, 2 * MAXCHUNK, n) for x in (e - 1, e, e + 1) if 0 <= x <= n + 1})
    for a in edge:
        for b in edge:
            one_range(n, 'bytes=%d-%d' % (a, b), ctx, head=False)
        one_range(n, 'bytes=%d-' % a, ctx, head=False)
        one_range(n, 'bytes=-%d' % a, ctx, head=False)
    for a in (0, 1, n - MAXCHUNK, n - MAXCHUNK - 1):
        if a >= 0:
            for ln in (MAXCHUNK - 1, MAXCHUNK, MAXCHUNK + 1, 2 * MAXCHUNK, 2 * MAXCHUNK + 1):
                one_range(n, 'bytes=%d-%d' % (a, a + ln - 1), ctx, head=False)


ZONES = ['UTC', 'EST5EDT', 'XXX-14', 'AAA+12:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-1GMT0,M10.5.0,M3.5.0/1', 'Europe/Moscow', 'Europe/London', 'America/New_York',
         'Australia/Lord_Howe', 'Asia/Pyongyang']
MTIMES = [0, 1, 86399, 86400, 50000000, 951782400, 951868799, 1e9 + 0.25, 1079168400, 1130634000, 1320000000, 1350000000.999, 1396310399, 1414281600, 1700000000.5, 1711846799, 1711846800,
          1720000000, 1729990799, 1729990800, 2 ** 31 - 1, 2 ** 31 + 5, 4102444800]
DELTAS = [0, 1, 59, 60, 61, 1800, 3599, 3600, 3601, 7200, 86399, 86400, 86401, 31 * 86400, 366 * 86400, 10 ** 9]


def fmt(t, how):
    tm = time.gmtime(t)
    wd = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][tm.tm_wday]
    wl = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday'][tm.tm_wday]
    mo = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][tm.tm_mon - 1]
    hms = '%02d:%02d:%02d' % tm[3:6]
    if how == '1123':
        return '%s, %02d %s %d %s GMT' % (wd, tm.tm_mday, mo, tm.tm_year, hms)
    if how == '850':
        return '%s, %02d-%s-%02d %s GMT' % (wl, tm.tm_mday, mo, tm.tm_year % 100, hms)
    if how == 'asctime':
        return '%s %s %2d %s %d' % (wd, mo, tm.tm_mday, hms, tm.tm_year)
    if how[0] in '+-':
        # the same instant in another zone
        off = (int(how[1:3]) * 60 + int(how[3:])) * 60 * (1 if how[0] == '+' else -1)
        return None if t + off < 0 else fmt(t + off, '1123')[:-3] + how
    if how == 'length':
        return '%s, %02d %s %d %s GMT; length=5' % (wd, tm.tm_mday, mo, tm.tm_year, hms)


def run_ims(case, ctx):
    _, zone, mi = case
    os.environ['TZ'] = zone
    time.tzset()
    try:
        mt = MTIMES[mi]
        n = 7
        d, fn, data = file_of(n, 'ims.txt')
        os.utime(os.path.join(d, fn), (mt, mt))
        g = get(d, fn, 'GET', {})
        lm = g.header('Last-Modified')
        if lm != fmt(int(mt), '1123'):
            raise Violation('Last-Modified %r of a file of %s, zone %s' % (lm, mt, zone))
        for sign in (1, -1):
            for dl in DELTAS:
                t = int(mt) + sign * dl
                if not 0 <= t < 253402300800 - 86400:
                    continue
                for how in ('1123', '850', 'asctime', 'length', '+0000', '-0500', '+0200', '+0545', '-1200', '+1400'):
                    if how == '850' and not 0 <= t < 2 ** 31 + 10 ** 8:
                        continue
                    h = {'If-Modified-Since': fmt(t, how)}
                    if not h['If-Modified-Since'] or how[0] in '+-' and t > 253402300800 - 3 * 86400:
                        continue
                    where = 'file of %s (%s), If-Modified-Since %r, zone %s' % (mt, lm, h['If-Modified-Since'], zone)
                    for extra in ({}, {'Range': 'bytes=1-3'}, {'Range': 'bytes=9-'}) if how == '1123' and dl < 3700 else ({},):
                        hh = dict(h, **extra)
                        g = get(d, fn, 'GET', hh)
                        ctx.outcome('ims %s' % g.code)
                        if t >= int(mt):
                            if g.code != 304 or g.body:
                                raise Violation('%s: %s with %d bytes' % (where, g.status, len(g.body)))
                        elif not extra:
                            full(g, data, where, ctx)
                        else:
                            judge(n, extra['Range'], g, data, 'GET', where, ctx)
                        same_headers(g, get(d, fn, 'HEAD', hh), where)
                        ctx.trans(2)
        ctx.state((zone, mi))
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()


def run_hist(case, ctx):
    """The file is rewritten between the requests: every answer describes the file of its own time."""
    _, seq = case
    d, fn, _ = file_of(4, 'h%s.bin' % abs(hash(seq)))
    path = os.path.join(d, fn)
    t = 1700000000
    for n, hd in seq:
        data = content(n)
        with open(path, 'wb') as fp:
            fp.write(data)
        t += 10
        os.utime(path, (t, t))
        where = 'rewritten file, history %r' % (seq,)
        g = get(d, fn, 'GET', hd and {'Range': hd} or {})
        if hd:
            judge(n, hd, g, data, 'GET', where, ctx)
        else:
            full(g, data, where, ctx)
        g = get(d, fn, 'GET', {'If-Modified-Since': fmt(t - 1, '1123')})
        full(g, data, where, ctx)
        g = get(d, fn, 'GET', {'If-Modified-Since': fmt(t, '1123')})
        if g.code != 304:
            raise Violation('%s: %s' % (where, g.status))
        ctx.trans(3)
    os.unlink(path)
    ctx.state(seq)


RUN = dict(hist=run_hist, pairs=run_pairs, text=run_text, mal=run_mal, full=run_full, big=run_big, ims=run_ims)


def run_case(case, ctx):
    CUR.clear()
    RUN[case[0]](case, ctx)


def cases(tier):
    th = tier == 'thorough'
    for n in BIG:
        yield ('big', n)
    for n in range(0, 21 if th else 13):
        for tail in ('', ',0-0', ', 1-2', ',', ' '):
            yield ('pairs', n, tail)
    for n in (0, 1, 2, 5, 12):
        yield ('mal', n)
        yield ('full', n)
    for n in (0, 1, 3, 10, 12):
        for k in range(0, 4):
            if k == 0:
                yield ('text', n, '', 0)
            else:
                for c in ALPH:
                    yield ('text', n, c, k - 1)
    for n in (1, 3, 12):
        for k in (4, 5):
            for c in itertools.product(ALPH, repeat=2):
                if k == 5 and n == 1 and not th:
                    continue
                yield ('text', n, ''.join(c), k - 2)
    if th:
        for c in itertools.product(ALPH, repeat=3):
            yield ('text', 12, ''.join(c), 3)
    steps = [(n, h) for n in (0, 1, 5, 9) for h in (None, 'bytes=0-', 'bytes=-3', 'bytes=2-6')]
    for k in (1, 2, 3) if th else (1, 2):
        for sq in itertools.product(steps, repeat=k):
            yield ('hist', sq)
    for z in ZONES:
        for mi in range(len(MTIMES)):
            yield ('ims', z, mi)


NSHARD = 48


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
