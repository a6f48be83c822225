"""C12 - malformed request bodies yield client errors, never server faults."""
import itertools
import json

from ..core import Violation
from .. import wsgi

ID = 'C12'
TECHNIQUE = ('bounded exhaustive exploration of the real body decoders: all token sequences up to a length, all truncations and all single-byte '
             'mutations of well-formed bodies x content types x framing x accessors, judged by status class, error log and an independent '
             'delimiter reference')
LEVEL_NOTE = ('Complete over the stated token alphabets and lengths, every offset of the base bodies (truncation, deletion, duplication, '
              '20 substitutions), listed odd content types, 26 charset labels in every place a body can name one, Content-Length values and large pathological bodies. A hang is no answer within '
              'the watchdog time.')
RULE = ('a state is one (content type, body, framing) with a transition per accessor used; on success every delivered multipart field must '
        'be, byte for byte and in order, the data of a part that a delimiter terminates in the sent body')
ASSUMPTIONS = ['the server stream obeys PEP 3333; application code reads the request only and lets HTTP errors through']
BOUNDS = {'quick': dict(multipart_tokens=5, json_tokens=4, url_tokens=4, header_tokens=4),
          'thorough': dict(multipart_tokens=6, json_tokens=5, url_tokens=5, header_tokens=5)}
HANG_S = 20

_apps = {}


def app_for(mem, mx):
    if (mem, mx) not in _apps:
        import ombott
        cfg = {}
        if mem is not None:
            cfg['max_memfile_size'] = mem
        if mx is not None:
            cfg['max_body_size'] = mx
        a = ombott.Ombott(cfg)
        box = a._box = {}

        def items(d):
            for n, v in d.items():
                for x in v if isinstance(v, list) else [v]:
                    if hasattr(x, 'file'):
                        yield n, 'f', x.file.read()
                        x.file.seek(0)
                    else:
                        yield n, 't', x

        def get(acc):
            rq = a.request
            if acc == 'json':
                box['json'] = rq.json
            elif acc == 'body':
                box['body'] = rq.body.read()
            elif acc == 'clen':
                rq.content_length
            else:
                box[acc] = list(items(getattr(rq, acc)))

        def h(how):
            if how.startswith('all'):
                n = 0
                for acc in {'all': ['forms', 'files', 'POST', 'params', 'json', 'body', 'forms'],
                            'all2': ['json', 'files', 'forms', 'POST', 'body'],
                            'all3': ['body', 'params', 'files']}[how]:
                    try:
                        get(acc)
                    except ombott.HTTPError as e:
                        n = n or e.status_code
                        box['err'] = e.status_code
                return str(n)
            get(how)
            return b'0'
        a.route('/<how>', ['POST', 'PUT'], h)
        _apps[mem, mx] = a
    return _apps[mem, mx]


def complete_parts(body, bd, overlap):
    """(header block, data) of every part that a delimiter terminates, in order, up to the close delimiter.

    overlap: may the line break that ends the headers begin the next delimiter?  (RFC 2046 and its implementations differ)"""
    tok = b'\r\n--' + bd
    b = b'\r\n' + body
    out = []
    p = b.find(tok)
    while p >= 0:
        p += len(tok)
        if b[p:p + 2] != b'\r\n':
            break
        e = b.find(b'\r\n\r\n', p + 2)
        n = b.find(tok, p) if overlap else -1
        if overlap and 0 <= n < e + 2:
            p = n
            continue
        if e < 0:
            break
        n = b.find(tok, e + 4)
        if n >= 0:
            out.append((b[p + 2:e], b[e + 4:n]))
        p = n
    return out


def run_case(case, ctx):
    body, ctype, how = case['body'], case['ctype'], case['how']
    if isinstance(body, list):      # compact description of a large body
        body = b''.join(t * n for t, n in body)
    a = app_for(case.get('mem'), case.get('mx'))
    a._box.clear()
    kw = dict(case.get('env', ()))
    te = case.get('te')
    sent = body
    if te:
        data = body if te == 'raw' else b''.join(
            b'%x\r\n%s\r\n' % (len(body[i:i + te]), body[i:i + te]) for i in range(0, len(body), te)) + b'0\r\n\r\n'
        kw.setdefault('HTTP_TRANSFER_ENCODING', 'chunked')
        st = wsgi.Stream(data)
    else:
        cl = case.get('cl', len(body))
        kw['CONTENT_LENGTH'] = None if cl is None else str(cl)
        st = wsgi.Stream(body)
        try:
            sent = body[:max(0, int(cl))] if cl is not None else b''
        except ValueError:
            sent = None
    env = wsgi.environ('/' + how, 'POST', stream=st, CONTENT_TYPE=ctype, **kw)
    r = wsgi.call(a, env)
    ctx.trans(1 if not how.startswith('all') else 7)
    ctx.state((ctype, body, te, case.get('cl', 0), case.get('mem'), str(case.get('env'))))
    what = 'body %r (%s, %s, threshold %r, .%s)' % (body[:300], ctype, 'chunked' if te else 'Content-Length %r' % kw.get('CONTENT_LENGTH'), case.get('mem'), how)
    err = env['wsgi.errors'].text
    box = a._box
    if r.escaped is not None or r.iter_error is not None or r.code is None:
        raise Violation('%s: exception reached the server: %r' % (what, r.escaped or r.iter_error))
    ok = r.code == 200
    if not (ok or 400 <= r.code < 500) or err:
        raise Violation('%s: answered %s; log %s' % (what, r.status, err[-900:]))
    inner = r.body.decode() if ok else str(r.code)
    ctx.outcome('%s %s %s' % (ctype.split(';')[0][:20], how, inner if ok else r.code))
    if not all(400 <= int(x) < 500 for x in [inner] if x != '0'):
        raise Violation('%s: accessor raised status %s' % (what, inner))
    # ---- delivered fields
    bd = case.get('bd')
    if bd is not None and sent is not None and te != 'raw' and (box.get('forms') or box.get('files') or box.get('POST') or box.get('params')):
        refs = [complete_parts(sent, bd, False), complete_parts(sent, bd, True)]
        for acc in ('forms', 'files', 'POST', 'params'):
            got = box.get(acc)
            if not got:
                continue
            # values of one name keep the order of their parts
            byname = {}
            for n, kind, v in got:
                byname.setdefault(n, []).append(v)

            def explained(parts):
                for n, vs in byname.items():
                    i = 0
                    nb = n.encode('utf8', 'surrogatepass')
                    for v in vs:
                        vb = v if isinstance(v, bytes) else v.encode('utf8', 'surrogatepass')
                        while i < len(parts) and not (parts[i][1] == vb and nb in parts[i][0]):
                            i += 1
                        if i == len(parts):
                            return False
                        i += 1
                return True
            if not any(map(explained, refs)):
                raise Violation('%s: %s delivers %s, which are not all complete data of parts terminated by a delimiter (parts: %r)' % (
                    what, acc, str(got)[:300], [(h[:80], d[:80]) for h, d in refs[0][:6]]))
    if 'body' in box and te != 'raw' and sent is not None and box['body'] != sent:
        raise Violation('%s: body presented as %r' % (what, box['body'][:200]))
    # ---- well-formed values stay what they are
    if 'json' in box and sent is not None and box['json'] is not None and te != 'raw':
        try:
            ref = json.loads(sent)
        except Exception:   # noqa
            raise Violation('%s: json delivered %r from text that is not JSON' % (what, str(box['json'])[:100]))
        if repr(ref) != repr(box['json']):
            raise Violation('%s: json delivered %r, the text means %r' % (what, str(box['json'])[:200], str(ref)[:200]))


CD = b'Content-Disposition: form-data; name="a"'
MTOK = [b'--B', b'\r\n', b'\r\n\r\n', b'--', CD, b'; filename="f"', b'\r', b'\n', b'x', b'\xff', b'Content-Type: y', b':']
JTOK = [b'{', b'}', b'[', b']', b'"', b'a', b':', b',', b'1', b'-', b'null', b'\\', b'\\ud800', b' ', b'\xff', b'e9', b'.', b'\x00', b'"k":', b'\xef\xbb\xbf']
UTOK = [b'%', b'=', b'&', b'+', b'a', b'\xff', b'%ff', b'%zz', b';', b'%00', b'\xc3\xa9', b'%c3', b'\x00', b'[]']
HTOK = [b'form-data', b';', b'name', b'=', b'"', b'a', b' ', b'filename', b'*', b'\xff', b'\xc3\xa9', b'\\', b':', b"UTF-8''", b'\x00', b'\t', b',']
# names of character sets: usual ones, unknown ones, codecs of the interpreter that are none
CHARSETS = ['utf-8', 'UTF8', 'latin1', 'iso-8859-1', 'ascii', 'utf-16', 'utf-7', 'nope', '', 'idna', 'undefined', 'hex', 'base64', 'rot13', 'unicode_escape', 'raw_unicode_escape',
            'punycode', 'utf-8-sig', '\x00', 'é', 'utf-8"', '..', 'cp037', 'mbcs', '0', 'x' * 300]

HLINE = [CD, b'content-disposition: form-data; name="b"', b'Content-Disposition', b'Content-Disposition:', b'Content-Disposition: form-data', b':', b': x', b'', b' ', b' folded',
         b'Content-Type: text/plain', b'Content-Type:', b'X: y', b'\xff\xff', b'a\x00b: c', b'Content-Disposition: attachment; name=', b'Content-Disposition: form-data; name',
         b'Content-Disposition: form-data; name=""', b'Content-Disposition: form-data; filename="x"', b'Content-Disposition: form-data; name=a; filename',
         b'Content-Disposition: form-data; name=a; filename=', b'Content-Disposition form-data; name="a"', b'CONTENT-DISPOSITION: FORM-DATA; NAME="a"', b'\xe2\x80\xa8: x', b';', b'=:=;=']
HOWS = ['forms', 'files', 'POST', 'params', 'json', 'body']
SUBST = b'\r\n-B:;="\\ \x00\xff\xc3\xe9an0%&{'


def bases():
    def f(name, data, fn=None, ct=None, extra=b''):
        return (b'Content-Disposition: form-data; name="%s"' % name + (b'; filename="%s"' % fn if fn is not None else b'') +
                (b'\r\nContent-Type: %s' % ct if ct else b'') + extra + b'\r\n\r\n' + data)
    d = b'\r\n--B'
    return [
        b'--B\r\n' + f(b'a', b'hello') + d + b'--\r\n',
        b'--B\r\n' + f(b'a', b'he\r\nllo') + d + b'\r\n' + f(b'file', b'\r\n--\xff\x00', b'x.bin', b'a/b') + d + b'--\r\n',
        b'--B\r\n' + f(b'a', b'') + d + b'\r\n' + f(b'a', b'\xc3\xa9') + d + b'\r\n' + f(b'c', b'--B') + d + b'--',
        b'\r\n--B\r\n' + f(b'\xc3\xa9', b'v', b'\xc3\xa9;=') + d + b'--\r\nepilogue\r\n--B\r\n' + f(b'z', b'not a part') + d + b'--\r\n',
    ]


def shards(tier):
    out = []
    for i in range(16):
        out.append({'s': 'mp', 'i': i})
    for i in range(8):
        out.append({'s': 'json', 'i': i})
        out.append({'s': 'url', 'i': i})
        out.append({'s': 'hdr', 'i': i})
    for i in range(4):
        for j in range(4):
            out.append({'s': 'mut', 'i': i, 'j': j})
    out += [{'s': 'ctype', 'i': i} for i in range(8)] + [{'s': 'cl'}, {'s': 'chunk'}, {'s': 'hl', 'i': 0}, {'s': 'hl', 'i': 1}] + [{'s': 'huge', 'i': i} for i in range(8)]
    return out


MP = 'multipart/form-data; boundary=B'


def run_shard(sh, ctx):
    s, T, i = sh['s'], ctx.thorough, sh.get('i', 0)
    c = 0
    if s == 'mp':
        # free token sequences, after an opening delimiter and after a complete part
        nmax = 6 if T else 5
        pres = [b'', b'--B\r\n' + CD + b'\r\n\r\n', b'--B\r\n' + CD + b'\r\n\r\nhello\r\n--B\r\n']
        for k in range(nmax + 1):
            for t in itertools.product(MTOK, repeat=k):
                c += 1
                if c % 16 != i:
                    continue
                tail = b''.join(t)
                if k == nmax:
                    if b'--B' not in tail:
                        continue
                    todo = [(b'--B\r\n', HOWS[c // 16 % 5])]
                elif k == nmax - 1:
                    todo = [(p, 'all') for p in pres[1:]] + [(b'', HOWS[c // 16 % 5])]
                else:
                    todo = [(p, h) for p in pres for h in HOWS[:4] + ['all', 'all2', 'all3']]
                for p, h in todo:
                    ctx.run(dict(body=p + tail, ctype=MP, bd=b'B', how=h))
                    if k < nmax - 1:
                        ctx.run(dict(body=p + tail, ctype=MP, bd=b'B', how=h, te=3))
                        ctx.run(dict(body=p + tail, ctype=MP, bd=b'B', how=h, mem=45))
    elif s == 'json':
        for k in range((5 if T else 4) + 1):
            for t in itertools.product(JTOK, repeat=k):
                c += 1
                if c % 8 != i:
                    continue
                b = b''.join(t)
                for h in ('json', 'all', 'forms', 'params', 'files') if k < 4 else (('json', 'all', 'params')[c // 8 % 3],):
                    ctx.run(dict(body=b, ctype='application/json', how=h))
                if k < 3:
                    for h in ('json', 'POST', 'all2', 'all3'):
                        for ct in ('application/json; charset=utf-8', 'APPLICATION/JSON', 'application/jsonp', 'application/json;', 'text/json'):
                            ctx.run(dict(body=b, ctype=ct, how=h))
                        ctx.run(dict(body=b, ctype='application/json', how=h, te=1))
    elif s == 'url':
        for k in range((5 if T else 4) + 1):
            for t in itertools.product(UTOK, repeat=k):
                c += 1
                if c % 8 != i:
                    continue
                b = b''.join(t)
                for h in ('forms', 'params', 'POST', 'files', 'all') if k < 4 else (('forms', 'params', 'all')[c // 8 % 3],):
                    ctx.run(dict(body=b, ctype='application/x-www-form-urlencoded', how=h))
                if k < 4:
                    ctx.run(dict(body=b, ctype='', how='all'))
                    ctx.run(dict(body=b, ctype='text/plain', how='forms', te=2))
    elif s == 'hdr':
        for k in range((5 if T else 4) + 1):
            for t in itertools.product(HTOK, repeat=k):
                c += 1
                if c % 8 != i:
                    continue
                v = b''.join(t)
                for pre in (b'Content-Disposition: form-data; name="a"', b'Content-Disposition: ') if k < 4 else (b'Content-Disposition: form-data;',):
                    b = b'--B\r\n' + pre + v + b'\r\n\r\nda\r\nta\r\n--B--\r\n'
                    for h in ('POST', 'all') if k < 4 else ('POST',):
                        ctx.run(dict(body=b, ctype=MP, bd=b'B', how=h))
    elif s == 'hl':
        for k in range(0, 4):
            for t in itertools.product(HLINE, repeat=k):
                if k == 3 and t[0] != CD and t[1] != CD and not T:
                    continue
                c += 1
                if c % 2 != i:
                    continue
                b = b'--B\r\n' + b'\r\n'.join(t) + b'\r\n\r\nda\r\nta\r\n--B\r\n' + CD + b'\r\n\r\nsecond\r\n--B--\r\n'
                ctx.run(dict(body=b, ctype=MP, bd=b'B', how='POST'))
                if k < 3:
                    ctx.run(dict(body=b, ctype=MP, bd=b'B', how='all'))
                    ctx.run(dict(body=b.replace(b'da\r\nta', b'\xff\xfe'), ctype=MP, bd=b'B', how='files'))
        # what a part says about itself
        if i == 0:
            for cs in CHARSETS:
                for fn in (b'', b'; filename="f"', b'; filename*=%s\'\'%%e9' % cs.encode('latin1'), b"; name*=UTF-8''%ff"):
                    for ct in (b'text/plain; charset=', b'text/plain; charset="', b'application/json; charset=', b'; charset=', b'multipart/mixed; boundary='):
                        for data in (b'x', b'\xc3\xa9', b'\xff', b''):
                            b = b'--B\r\n' + CD + fn + b'\r\nContent-Type: ' + ct + cs.encode('latin1') + b'\r\n\r\n' + data + b'\r\n--B--\r\n'
                            ctx.run(dict(body=b, ctype=MP, bd=b'B', how='POST'))
                for h in (b'Content-Transfer-Encoding: ', b'Content-Length: ', b'Content-Encoding: '):
                    for v in (cs.encode('latin1'), b'base64', b'quoted-printable', b'-1', b'1e9', b'x'):
                        ctx.run(dict(body=b'--B\r\n' + CD + b'\r\n' + h + v + b'\r\n\r\n=F=\xff\r\n--B--\r\n', ctype=MP, bd=b'B', how='all'))
                b = b'--B\r\n' + CD.replace(b'"a"', b'"_charset_"') + b'\r\n\r\n' + cs.encode('latin1', 'replace') + b'\r\n--B\r\n' + CD + b'\r\n\r\nv\r\n--B--\r\n'
                ctx.run(dict(body=b, ctype=MP, bd=b'B', how='POST'))
                ctx.run(dict(body=b'_charset_=' + cs.encode('latin1') + b'&a=%e9', ctype='application/x-www-form-urlencoded', how='POST'))
    elif s == 'mut':
        b = bases()[i]
        for p in range(sh['j'], len(b) + 1, 4):
            muts = [b[:p], b[p:], b[:p] + b[p + 1:], b[:p] + b[p:p + 1] + b[p:]] + [b[:p] + bytes([x]) + b[p + 1:] for x in SUBST]
            muts += [b[:p] + b'\r\n--B' + b[p:], b[:p] + b'\r\n\r\n' + b[p:], b[:p] + b'--' + b[p:], b[:p] + b'\r' + b[p:], b[:p] + b'\n' + b[p:]]
            for m in muts:
                for h in HOWS[:4] + ['all', 'all2', 'all3']:
                    ctx.run(dict(body=m, ctype=MP, bd=b'B', how=h))
                ctx.run(dict(body=m, ctype=MP, bd=b'B', how='all', te=5))
                ctx.run(dict(body=m, ctype=MP, bd=b'B', how='all', mem=110))
            # two cuts: a hole in the body
            for q in range(p + 1, len(b) + 1, 1 if T else 3):
                ctx.run(dict(body=b[:p] + b[q:], ctype=MP, bd=b'B', how='POST'))
            # framing that disagrees with the data
            for cl in (p, len(b) + 1, len(b) + 1000):
                ctx.run(dict(body=b, cl=cl, ctype=MP, bd=b'B', how='POST'))
                ctx.run(dict(body=b[:p], cl=cl, ctype=MP, bd=b'B', how='all'))
    elif s == 'ctype':
        cts = ['', ';', '/', 'multipart', 'multipart/', 'multipart/form-data', 'multipart/form-data;', 'multipart/form-data; boundary', 'multipart/form-data; boundary=',
               'multipart/form-data; boundary=""', 'multipart/form-data; boundary="', 'multipart/form-data; boundary="B', 'multipart/form-data; boundary=B"',
               'multipart/form-data; boundary= B', 'multipart/form-data; boundary=;', 'multipart/form-data; boundary=;boundary=B', 'multipart/form-data; boundary=B; boundary=C',
               'multipart/mixed; boundary=B', 'multipart/x; boundary=B', 'multipart/; boundary=B', 'Multipart/Form-Data; Boundary=B', 'multipart/form-data; boundary=\xe9', 'multipart/form-data; boundary="a b"',
               'multipart/form-data; boundary=' + 'x' * 5000, 'multipart/form-data; boundary=-', 'multipart/form-data; boundary=--', 'multipart/form-data, boundary=B',
               'multipart/form-data boundary=B', 'multipart/form-data; xboundary=B', 'multipart/form-data; boundary=\x00', 'multipart/form-data; boundary="\\"B"',
               'multipart/form-data' + ';' * 3000, 'multipart/form-data;' + ' ' * 3000 + 'x', 'multipart/form-data; ' + 'a=b; ' * 1000 + 'boundary=B', 'multipart/' + 'b' * 3000,
               'application/json', 'application/json; charset=utf-16', 'application/json;charset', 'application/jsonx', 'application/x-www-form-urlencoded; charset=utf-8', 'text/plain', '\xff\xfe', 'a' * 10000]
        cts += [base + sep + cs for base in ('application/json', 'application/x-www-form-urlencoded', MP, 'text/plain') for sep in ('; charset=', ';CHARSET="', '; encoding=')
                for cs in CHARSETS]
        bodies = [b'', b'x', b'{}', b'[1]', b'"s"', b'null', b'1', b'a=1&b=2', b'\xff', b'--B--', b'--B', b'\r\n', b'--\r\n\r\n--'] + bases() + \
                 [b'{"a": 1}'.decode().encode('utf-16'), b'{"a": 1}'.decode().encode('utf-32'), b'----\r\n' + CD + b'\r\n\r\nx\r\n------', b'--' + b'x' * 5000 + b'\r\n' + CD + b'\r\n\r\n\r\n--' + b'x' * 5000 + b'--']
        for n, ct in list(enumerate(cts))[i::8]:
            for b in bodies if n < 44 else bodies[:5] + bodies[7:9] + [b'a=\xc3\xa9&%ff=1', b'{"a": "\xc3\xa9"}', b'{"\xff": 1}', b'\xef\xbb\xbf{}', bases()[0]]:
                for h in HOWS + ['all', 'all2', 'all3']:
                    for te in (None, 4):
                        for mem in (None, 10):
                            ctx.run(dict(body=b, ctype=ct, how=h, te=te, mem=mem))
            ctx.run(dict(body=b'x', ctype=ct, how='clen'))
        # every character at every place of the content type
        texts = ['multipart/form-data; boundary=B', 'multipart/form-data; boundary="B"', 'multipart/form-data; boundary=BB', 'multipart/form-data; boundary="BxB"; charset=utf-8', 'application/json; charset=utf-8', 'application/x-www-form-urlencoded']
        for t in texts:
            for p in range(len(t) + 1):
                if p % 8 != i:
                    continue
                for c in [chr(x) for x in range(256)] + ['\r\n', '\r\n ', '\n\n', '""', '\\"', '\r\r', '=', ';;']:
                    for ct in (t[:p] + c + t[p:], t[:p] + c + t[p + 1:]):
                        js = t.startswith('application/json')
                        bd = ct.partition('boundary=')[2].strip('"').partition(';')[0].partition('"')[0]
                        for b in ([b'{"a": 1}'] if js else [b'a=1&b=2'] if not t.startswith('multipart') else
                                  [b'--' + bd.encode('latin1') + b'\r\n' + CD + b'\r\n\r\nx\r\n--' + bd.encode('latin1') + b'--'] + ([bases()[0], b''] if p > 19 else [])):
                            ctx.run(dict(body=b, ctype=ct, how='json' if js else 'POST'))
                            if p > 19:
                                ctx.run(dict(body=b, ctype=ct, how='all'))
    elif s == 'cl':
        for cl in ('', '0', '1', '4', '5', '6', '100', '999999', '-1', '-5', 'abc', '1e3', '0x5', ' 5 ', '5,5', '5;', '+5', '5.0', '\xb2', '9' * 30, '9' * 5000, '\x00', '1_0', None):
            for b in (b'', b'a=b&c', bases()[0], b'{"a":1}'):
                for ct in ('', MP, 'application/json', 'application/x-www-form-urlencoded', 'text/plain'):
                    for h in HOWS + ['all', 'all2', 'all3', 'clen']:
                        for mx in (None, 3):
                            ctx.run(dict(body=b, ctype=ct, how=h, cl=cl, mx=mx))
                            if cl is not None:
                                ctx.run(dict(body=b, ctype=ct, how=h, te=2, mx=mx, env={'CONTENT_LENGTH': cl}))
                                ctx.run(dict(body=b, ctype=ct, how=h, te='raw', mx=mx, env={'CONTENT_LENGTH': cl}))
    elif s == 'chunk':
        for b in bases() + [b'a=b&c=d', b'{"a": [1, 2]}']:
            ct = MP if b.startswith((b'--', b'\r\n')) else ('application/json' if b[:1] == b'{' else '')
            good = b'%x\r\n' % len(b) + b + b'\r\n0\r\n\r\n'
            for p in range(len(good)):
                for h in ('POST', 'json', 'body', 'all', 'all2', 'all3'):
                    ctx.run(dict(body=good[:p], ctype=ct, how=h, te='raw'))
                    for x in b'\r\n0f;\xff':
                        ctx.run(dict(body=good[:p] + bytes([x]) + good[p + 1:], ctype=ct, how=h, te='raw'))
            for te in ('chunked, gzip', 'xchunkedx', 'CHUNKED', 'gzip'):
                for h in HOWS:
                    ctx.run(dict(body=good, ctype=ct, how=h, te='raw', env={'HTTP_TRANSFER_ENCODING': te}))
    elif s == 'huge':
        N = 400000 if T else 100000
        cases = [
            (MP, [(b'--B\r\n', N // 5)]), (MP, [(b'--B\r\n\r\n\r\n', 1), (b'\r\n--B\r\n\r\n\r\n', N // 12)]), (MP, [(b'--B\r\n', 1), (b'a:b\r\n', N // 5), (b'\r\n\r\n--B--', 1)]),
            (MP, [(b'--B\r\nContent-Disposition: form-data', 1), (b'; a', N // 4), (b'\r\n\r\n\r\n--B--', 1)]),
            (MP, [(b'--B\r\nContent-Disposition: form-data; name="', 1), (b' ;="', N // 8), (b'\r\n\r\n\r\n--B--', 1)]),
            (MP, [(b'--B\r\nContent-Disposition: form-data;', 1), (b' ', N), (b'\r\n\r\n\r\n--B--', 1)]),
            (MP, [(b'--B\r\nContent-Disposition: form-data;name=', 1), (b' ', N // 2), (b'"', N // 2), (b'\r\n\r\n\r\n--B--', 1)]),
            (MP, [(b'--B\r\n' + CD + b'\r\n\r\n', 1), (b'\r\n--', N // 4), (b'\r\n--B--', 1)]),
            (MP, [(b'--B\r\n' + CD + b'; filename=""\r\n\r\n', 1), (b'\r', N), (b'\r\n--B--', 1)]),
            (MP, [(b'--B', 1), (b'\r', N)]), (MP, [(b'-', N)]), (MP, [(b'--B\r\n', 1), (b'\r\n\r', N // 3)]), (MP, [(b'--B\r\n', 1), (b':', N)]),
            (MP, [(b'--B\r\n' + CD + b'\r\n\r\nx', 1), (b'\r\n--B\r\n' + CD + b'\r\n\r\nx', N // 60), (b'\r\n--B--', 1)]),
            ('multipart/form-data; boundary=' + '-' * 70, [(b'-', N)]), ('multipart/form-data; boundary=' + '-' * 70, [(b'-' * 72 + b'\r\n', 1), (b'\r\n\r\n', 1), (b'\r\n-', N // 3)]),
            ('application/json', [(b'[', N)]), ('application/json', [(b'{"a":', N // 5)]), ('application/json', [(b'[', N // 2), (b']', N // 2)]), ('application/json', [(b'9', N)]),
            ('application/json', [(b'1e', 1), (b'9', N)]), ('application/json', [(b'-', N)]), ('application/json', [(b'"', 1), (b'\\u0041', N // 6), (b'"', 1)]), ('application/json', [(b' ', N), (b'1', 1)]),
            ('application/json', [(b'[', 990), (b']', 990)]), ('application/json', [(b'9', 4301)]), ('application/json', [(b'[9', 1), (b'9', 9000), (b']', 1)]),
            ('', [(b'&', N)]), ('', [(b'=', N)]), ('', [(b'a', N)]), ('', [(b'a&', N // 2)]), ('', [(b'a=1&', N // 4)]), ('', [(b'%', N)]), ('', [(b'%f', N // 2)]), ('', [(b'+', N)]), ('', [(b'\xff', N)]),
        ]
        for ct, b in cases[i::8]:
            for h in ('forms', 'json', 'all'):
                ctx.run(dict(body=b, ctype=ct, how=h, bd=b'B' if ct == MP else None))
                ctx.run(dict(body=b, ctype=ct, how=h, te=5000))
                ctx.run(dict(body=b, ctype=ct, how=h, mem=2 * N))
