"""C05 - chunked transfer decoding is exact and rejects every truncation."""
import itertools
import re

from ..core import Violation
from ..choice import Chooser, next_prefix
from .. import wsgi

ID = 'C05'
TECHNIQUE = ('stateless model checking of the real chunked decoder against an independent reference decoder: all chunkings x '
             'spellings x buffer sizes x read fragmentations, every strict prefix and every single-byte corruption')
LEVEL_NOTE = ('Complete for the bounded encodings listed in bounds (every partition, prefix, one-byte substitution/deletion/insertion in '
              'the framing, every fragmentation of short encodings, at most 2 short reads for longer ones). Up to 10000 (100001) chunks, size lines of 256 KiB together. Chunk sizes of up to 128 digits that agree with the data in their low digits. Size lines longer '
              'than 64 bytes are only required not to fault.')
RULE = ('a case is (encoded bytes, buffer size, sequence of read answers); a state is (encoding, buffer size) and, where fragmentation is explored, the stream position at a multi-byte read, a '
        'transition one read(); the reference decoder gives one of: exact payload / must be rejected / free but no server error')
ASSUMPTIONS = ['the server stream obeys PEP 3333', 'bytes after the terminating zero-size line (trailers, pipelined data) do not change the verdict']
BOUNDS = {'quick': dict(payload=5, full_fragmentation_payload=4, short_reads=2), 'thorough': dict(payload=7, full_fragmentation_payload=6, short_reads=3)}

HEX = re.compile(rb'^[0-9A-Fa-f]+$')
EXT = re.compile(rb'^;[\t\x20-\x7e\x80-\xff]*$')


def reference(data):
    """-> ('exact', payload) | ('reject', why) | ('maybe', payload) | ('free',)"""
    pos = 0
    out = b''
    maybe = False
    while True:
        e = data.find(b'\r\n', pos)
        line = data[pos:e if e >= 0 else len(data)]
        m = re.match(rb'[0-9A-Fa-f]*', line)
        digits, rest = m.group(), line[m.end():]
        if e < 0:
            # cut inside a size line: still a prefix of a legal line?
            if rest in (b'', b'\r') or EXT.match(rest.rstrip(b'\r')) and b'\r' not in rest[:-1]:
                return ('reject', 'cut inside a size line')
            return ('free',)
        if not digits:
            return ('free',)
        if rest and not EXT.match(rest):
            if EXT.match(rest.lstrip(b' \t')) or not rest.strip(b' \t'):
                maybe = True
            else:
                return ('free',)
        if len(line) > 62:
            maybe = True
        size = int(digits, 16)
        pos = e + 2
        if size == 0:
            return ('maybe' if maybe else 'exact', out)
        if len(data) - pos < size + 2:
            return ('reject', 'cut inside chunk data or its CRLF')
        if data[pos + size:pos + size + 2] != b'\r\n':
            return ('reject', 'chunk data not followed by CRLF')
        out += data[pos:pos + size]
        pos += size + 2


_apps = {}


def app_for(mem):
    if mem not in _apps:
        import ombott
        a = ombott.Ombott(dict(max_memfile_size=mem) if mem is not None else None)
        box = a._box = {}

        def h():
            box['called'] = 1
            how = a.request.query_string
            if how:
                # an earlier access was refused and the handler carried on
                import ombott
                try:
                    if how == 'forms':
                        a.request.forms
                    elif how == 'params':
                        a.request.params
                    else:
                        a.request.body.read()
                except ombott.HTTPError:
                    pass
            b = a.request.body.read()
            box['body'] = b
            return b'ok'
        a.route('/', ['POST', 'PUT'], h)
        _apps[mem] = a
    return _apps[mem]


def run_case(case, ctx):
    data, mem = case['data'], case['mem']
    a = app_for(mem)
    ch = Chooser(case.get('choices', ()))
    ctx.last = ch
    opts = None
    if case.get('few'):
        opts = lambda m: [1, m - 1, m // 2]
    st = wsgi.ChoiceStream(data, ch, opts)
    a._box.clear()
    env = wsgi.environ('/', 'POST', case.get('how', ''), stream=st, CONTENT_LENGTH=case.get('cl'),
                       HTTP_TRANSFER_ENCODING=case.get('te', 'chunked'))
    r = wsgi.call(a, env)
    h = hash(data)
    pos = 0
    if 'choices' in case:
        for asked, given in st.reads:
            if asked > 1:
                ctx.state((h, mem, pos))
            pos += given
    else:
        ctx.state((h, mem))
    ctx.trans(len(st.reads))
    verdict = reference(data)
    body = a._box.get('body')
    ctx.outcome(verdict[0] + ':' + str(r.code))
    what = 'chunked body %r (buffer %r, reads %r)' % (data[:200], mem, st.reads[:30] if case.get('choices') else '')
    if r.escaped is not None or r.code is None or not (r.code == 200 or 400 <= r.code < 500):
        raise Violation('%s: answered %s %r; %s' % (what, r.status, r.escaped, env['wsgi.errors'].text[-800:]))
    if verdict[0] == 'exact' and (r.code != 200 or body != verdict[1]):
        raise Violation('%s: expected body %r, got %s %r' % (what, verdict[1][:100], r.status, body and body[:100]))
    if verdict[0] == 'maybe' and r.code == 200 and body != verdict[1]:
        raise Violation('%s: accepted with body %r, expected %r' % (what, body, verdict[1]))
    if verdict[0] == 'reject' and r.code == 200:
        raise Violation('%s: accepted with body %r although %s' % (what, body, verdict[1]))


# ---- encodings
SPELL = {
    'plain': lambda n: b'%x' % n,
    'upper': lambda n: b'%X' % n,
    'zeros': lambda n: b'00%x' % n,
    'ext': lambda n: b'%x;a' % n,
    'ext2': lambda n: b'%X;name="v;w" ;x=y' % n,
    'semi': lambda n: b'%x;' % n,
}
TAILS = [b'\r\n', b'A: b\r\n\r\n', b'\r\nGET / HTTP/1.1\r\n\r\n', b'X-Long: yyy\r\nB: 5\r\n\r\n']


def encode(parts, spells, last=b'0', tail=b'\r\n'):
    out = []
    for p, s in zip(parts, spells):
        out.append(SPELL[s](len(p)) + b'\r\n' + p + b'\r\n')
    return b''.join(out) + last + b'\r\n' + tail


def partitions(data):
    n = len(data)
    if not n:
        yield []
        return
    for mask in range(1 << (n - 1)):
        out, st = [], 0
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(data[st:i + 1])
                st = i + 1
        out.append(data[st:])
        yield out


PAY = [b'\r\n0\r\n\r\n', b'abcdefg', b'0\r\n\r\n0\r', b'\n\r\r\n\r\n\r', b'\x00\xff;5\r\nx']


def tree(ctx, case, bound=None):
    prefix = []
    while prefix is not None:
        ctx.run(dict(case, choices=prefix))
        prefix = next_prefix(ctx.last.choices, ctx.last.widths, bound)


def framing_positions(parts, enc_):
    """offsets of enc_ that are not payload"""
    pos, out = 0, []
    i = 0
    for p in parts:
        e = enc_.index(b'\r\n', pos)
        out += range(pos, e + 2)
        pos = e + 2 + len(p)
        out += range(pos, pos + 2)
        pos += 2
    out += range(pos, len(enc_))
    return out


BASES = None


def bases():
    """base encodings for prefixes / corruptions: (parts, encoding)"""
    out = []
    for parts, spells, last, tail in [
        ([b'hello'], ['plain'], b'0', TAILS[0]),
        ([b'he', b'l\r\no'], ['plain', 'plain'], b'0', TAILS[0]),
        ([b'0\r\n\r\n', b'5\r\n'], ['zeros', 'ext'], b'000', TAILS[1]),
        ([b'abcdefghijklmnop', b'q'], ['upper', 'ext2'], b'0;x=y', TAILS[2]),
        ([b'abcdefghijklmnopqrstuvwxyz0'], ['upper'], b'0', TAILS[3]),
        ([b'\r\n', b'\r', b'\n', b'\r\n'], ['plain', 'semi', 'zeros', 'plain'], b'00', TAILS[0]),
        ([b'x' * 171, b'y' * 16], ['plain', 'upper'], b'0', TAILS[0]),
        ([], [], b'0', TAILS[0]),
        ([b'a' * 10, b'b' * 11, b'c' * 12], ['plain', 'upper', 'plain'], b'0', TAILS[0]),
    ]:
        out.append((parts, encode(parts, spells, last, tail)))
    return out


BUFS = [1, 2, 3, 4, 5, 7, 16, 64, 1000, None]


def shards(tier):
    out = []
    for b in BUFS:
        out.append({'s': 'part', 'mem': b})
        out.append({'s': 'frag', 'mem': b})
        out.append({'s': 'prefix', 'mem': b})
    for i in range(len(bases())):
        out.append({'s': 'corrupt', 'i': i})
    for b in (1, 2, 4, 64, None):
        out.append({'s': 'big', 'mem': b})
    out.append({'s': 'hexes'})
    out.append({'s': 'lines'})
    out.append({'s': 'many'})
    out.append({'s': 'hdr'})
    return out


def run_shard(sh, ctx):
    s, T = sh['s'], ctx.thorough
    mem = sh.get('mem')
    if s == 'part':
        n = 7 if T else 5
        for pay in PAY:
            for k in range(0, n + 1):
                for parts in partitions(pay[:k]):
                    m = len(parts)
                    spells = [['plain'] * m, ['upper'] * m, ['zeros'] * m, ['ext'] * m, ['ext2'] * m, ['semi'] * m,
                              (['ext2', 'plain', 'zeros'] * m)[:m]]
                    for sp in spells:
                        for last, tail in ((b'0', TAILS[0]), (b'00;z', TAILS[1]), (b'0', TAILS[2])):
                            d = encode(parts, sp, last, tail)
                            ctx.run(dict(data=d, mem=mem))
    elif s == 'frag':
        for pay in PAY:
            for k in range(0, (6 if T else 4) + 1):
                for parts in partitions(pay[:k]):
                    tree(ctx, dict(data=encode(parts, ['plain'] * len(parts)), mem=mem))
                    if len(parts) == 2:
                        tree(ctx, dict(data=encode(parts, ['ext2', 'zeros'], tail=TAILS[3]), mem=mem))
        for parts, d in bases():
            tree(ctx, dict(data=d, mem=mem, few=1), bound=(3 if T else 2) if len(d) < 90 else 1)
    elif s == 'prefix':
        for parts, d in bases():
            for i in range(len(d)):
                ctx.run(dict(data=d[:i], mem=mem))
                for how in ('body', 'forms', 'params'):
                    ctx.run(dict(data=d[:i], mem=mem, how=how))
        for pay in PAY:
            for k in range(1, 6):
                for parts in partitions(pay[:k]):
                    d = encode(parts, ['plain'] * len(parts))
                    for i in range(len(d)):
                        tree(ctx, dict(data=d[:i], mem=mem), bound=1)
    elif s == 'corrupt':
        parts, d = bases()[sh['i']]
        fp = framing_positions(parts, d)
        for mem in (2, 64, None):
            for p in fp:
                for b in range(256):
                    ctx.run(dict(data=d[:p] + bytes([b]) + d[p + 1:], mem=mem))
                ctx.run(dict(data=d[:p] + d[p + 1:], mem=mem))
                for b in b'\r\n1;z':
                    for how in ('body', 'params'):
                        ctx.run(dict(data=d[:p] + bytes([b]) + d[p + 1:], mem=mem, how=how))
                        ctx.run(dict(data=d[:p] + bytes([b]) + d[p:], mem=mem, how=how))
                ctx.run(dict(data=d[:p] + d[p:p + 1] + d[p:], mem=mem))
                for b in b'\r\n0;1aFg-+_x \x00\xff':
                    ctx.run(dict(data=d[:p] + bytes([b]) + d[p:], mem=mem))
        # two cooperating corruptions of the separators
        seps = [p for p in fp if d[p] in b'\r\n']
        for p, q in itertools.combinations(seps[:12], 2):
            for a, b in itertools.product((b'', b'\r', b'\n', b'0', b'\r\n', b'x'), repeat=2):
                ctx.run(dict(data=d[:p] + a + d[p + 1:q] + b + d[q + 1:], mem=3))
    elif s == 'big':
        size = mem or 100 * 1024
        for k in (size - 1, size, size + 1, 2 * size, 2 * size + 1, 3 * size + 2):
            if k < 1:
                continue
            blob = (bytes(range(256)) * (k // 256 + 1))[:k]
            for parts in ([blob], [blob[:k // 2], blob[k // 2:]], [blob[:1], blob[1:]], [blob[:-1], blob[-1:]]):
                parts = [p for p in parts if p]
                for sp in ('plain', 'upper'):
                    d = encode(parts, [sp] * len(parts))
                    b = 2 if size < 100 else 1
                    tree(ctx, dict(data=d, mem=mem, few=1), bound=b)
                    for cut in {1, 2, 3, len(d) // 2, len(d) - 4, len(d) - 5, len(d) - 6, len(d) - 7, len(d) - 8}:
                        if 0 < cut < len(d):
                            ctx.run(dict(data=d[:cut], mem=mem))
    elif s == 'many':
        for n in (99, 100, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 1365, 1366, 2047, 2048, 2049, 4096, 4097, 10000) + ((65536, 100001) if T else ()):
            for sp in ('plain', 'ext2') if n < 5000 else ('plain',):
                for size in (1, 2, 11) if n < 3000 else (1,):
                    d = encode([bytes([65 + (i * size + j) % 26 for j in range(size)]) for i in range(n)], [sp] * n)
                    for m in (None, 64) if n < 3000 else (None,):
                        ctx.run(dict(data=d, mem=m))
                        ctx.run(dict(data=d[:-5], mem=m))
                        ctx.run(dict(data=d[:-6] + d[-5:], mem=m))
        for n in (10, 41, 64, 65):      # the size lines together are longer than any single one may be
            for ext in (100, 1000, 4000):
                d = b''.join(b'3;' + b'x' * ext + b'\r\nabc\r\n' for i in range(n)) + b'0;' + b'y' * ext + b'\r\n\r\n'
                for m in (None, 64):
                    ctx.run(dict(data=d, mem=m))
                    ctx.run(dict(data=d[:-7 - ext], mem=m))
    elif s == 'hexes':
        for n in list(range(0, 600)) + [4095, 4096, 4097, 0xabc, 0xabcd, 0xfffe, 0xffff, 0x10000]:
            blob = (b'0123456789abcdef\r\n' * (n // 18 + 1))[:n]
            for sp in SPELL:
                if n:
                    ctx.run(dict(data=encode([blob], [sp]), mem=64 if n < 5000 else None))
                    ctx.run(dict(data=encode([b'z', blob], ['plain', sp]), mem=None))
        # legal spellings of any length: leading zeros, long extensions
        for parts in ([b'abc'], [b'x' * 0x1ab, b'yz'], [b'q']):
            for z in list(range(0, 70)) + [127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2000, 4000]:
                for mem in (1, 16, 64, None):
                    for zs in ((z, 0), (0, z), (z, z)):
                        d = b''.join(b'0' * zs[k % 2] + (b'%x' if z % 2 else b'%X') % len(p) + b'\r\n' + p + b'\r\n' for k, p in enumerate(parts))
                        ctx.run(dict(data=d + b'0\r\n\r\n', mem=mem))
                    ctx.run(dict(data=encode(parts, ['plain'] * len(parts)) .replace(b'0\r\n\r\n', b'0' * (z + 1) + b'\r\n\r\n'), mem=mem))
                    ctx.run(dict(data=b'3;' + b'e' * z + b'\r\nabc\r\n0;' + b'f=' + b'g' * z + b'\r\n\r\n', mem=mem))
                    ctx.run(dict(data=b'3;e="' + b' ;' * (z // 2) + b'"\r\nabc\r\n0\r\n' + b'T: ' + b't' * z + b'\r\n\r\n', mem=mem))
        # many chunks
        for k in (255, 256, 257, 1000, 1025, 5000):
            for size in (1, 3):
                ctx.run(dict(data=encode([bytes([j % 256]) * size for j in range(k)], ['plain'] * k), mem=None))
        # sizes that agree with the data in their low digits only
        for k in list(range(1, 41)) + [63, 64, 100, 127]:
            for lead in (b'1', b'f', b'8', b'10', b'01', b'7fff'):
                for low in (b'5', b'0', b'3', b'1'):
                    size = lead + b'0' * (k - 1) + low
                    for body in (b'hello', b'hel', b'h', b''):
                        for pre in (b'', b'2\r\nab\r\n'):
                            d = pre + size + b'\r\n' + body + b'\r\n0\r\n\r\n'
                            if body == b'':
                                d = pre + size + b'\r\n\r\n'
                            ctx.run(dict(data=d, mem=4 if k % 2 else None))
    elif s == 'lines':
        # every size line over a small alphabet up to a length, followed by data
        alpha = [b'0', b'3', b'a', b'F', b';', b'\r', b'\n', b' ', b'-', b'+', b'x', b'_']
        for n in range(0, 4 if not T else 5):
            for t in itertools.product(alpha, repeat=n):
                line = b''.join(t)
                for rest in (b'\r\nabc\r\n0\r\n\r\n', b'\r\n'):
                    ctx.run(dict(data=line + rest, mem=None))
                    if n <= 3:
                        ctx.run(dict(data=b'1\r\nq\r\n' + line + rest, mem=4))
        for junk in (b'\xff', b'\xd9\xa3', b'g', b'3g', b'0x3', b'3.0', b'1e1', b'f' * 61, b'f' * 5000, b'9' * 20, b'0' * 5000,
                     b'3;' + b'e' * 50, b'3;' + b'e' * 5000, b'3;' + b'e' * 200000, b'3' + b' ' * 70, b'\t3', b'3\t', b'3 ;a', b'3;a\t b'):
            for rest in (b'\r\nabc\r\n0\r\n\r\n', b'\r\n', b'', b'\n', b'\nabc\n0\n\n'):
                for m in (4, 64, None):
                    ctx.run(dict(data=junk + rest, mem=m))
    elif s == 'hdr':
        for te in ('chunked', 'Chunked', 'CHUNKED', 'gzip, chunked', 'identity,Chunked'):
            for cl in (None, '', '0', '3', '5', '1000', '200000'):
                for parts, d in bases()[:4]:
                    for m in (4, None):
                        ctx.run(dict(data=d, mem=m, te=te, cl=cl))
