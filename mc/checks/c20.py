"""C20  Framework error pages never reflect request data unescaped."""
import html
import html.parser
import itertools
import json
import re
import urllib.parse

from ..core import Violation
from ..wsgi import environ, call

ID = 'C20'
TECHNIQUE = ('exhaustive enumeration of error situations x placements of marked payloads in the request x payloads x accepted types on the '
             'real application; each page is parsed and compared with the page of a harmless request')
LEVEL_NOTE = ('55 error situations (22 of them with chained or unusual exceptions) x 27 places x 42 payloads x 6 Accept headers, all pairs of places, every code point < 0x250 in path, query and Host')
RULE = ('the marked text occurs in the page in escaped (or percent-encoded) form only, the page has the tags of the harmless page, '
        'a page requested as JSON parses as JSON and holds no raw marker either')
ASSUMPTIONS = ['JSON is requested by an Accept header that starts with application/json', 'pages made by error handlers of the application are not framework-generated']
BOUNDS = dict(quick='~970k error pages; JSON errors with 750 texts of the application x 6 ways to raise them', thorough='~3M error pages')

S, Z = 'zqs', 'zqe'
PAY = ['<', '>', '"', "'", '&', '<b>', '</tt>', '</pre><script>alert(1)</script>', '"><img src=x onerror=alert(1)>', "' onmouseover='x", '&lt;', '&amp;',
       '&#60;', '{e}', '{e.body}', '{0}', '{url}', '{', '}', '{{<}}', '%s', '%(x)s', '%3Cb%3E', '%253C', '%00<', '＜script＞', '\x00<', '\\<', '\\\'',
       '\n<', '\r<', '\x0b>', '<!--', '-->', ']]>', '<\x7f', 'é<', '€"', '😀&', '\u2028<', '\u0131<', '\\x3c', '\\u003cb>', '$x', '`<`', '<?', '</title>']

FEW = ['<b>', '"', "'", '&lt;', '{e}', '%3Cb%3E', '\x00<', '</tt><script>', '\\<', '€&']


class Tags(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append((tag, tuple(sorted(a for a, _ in attrs))))

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        self.ev.append('/' + tag)

    def handle_comment(self, data):
        self.ev.append('comment')

    def handle_decl(self, d):
        self.ev.append('decl')

    unknown_decl = handle_pi = handle_decl


def tags(text):
    t = Tags()
    t.feed(text)
    t.close()
    return t.ev


# --------------------------------------------------------------------------- situations
def body_env(kind):
    bnd = 'multipart/form-data; boundary=bb'
    return {
        'chunk': dict(body=b'zz\r\nxx', HTTP_TRANSFER_ENCODING='chunked'),
        'chunkcut': dict(body=b'5\r\nab', HTTP_TRANSFER_ENCODING='chunked'),
        'mp': dict(body=b'--bb\r\nContent-Disposition: form-data\r\n\r\nx\r\n--bb--\r\n', CONTENT_TYPE=bnd),
        'mphdr': dict(body=b'--bb\r\nNo-Colon\r\n\r\nx\r\n--bb--\r\n', CONTENT_TYPE=bnd),
        'mpbnd': dict(body=b'x', CONTENT_TYPE='multipart/form-data'),
        'json': dict(body=b'{"a":', CONTENT_TYPE='application/json'),
        'big': dict(body=b'a=' + b'x' * 400, CONTENT_TYPE='application/x-www-form-urlencoded'),
        'form': dict(body=b'a=' + b'x' * 100, CONTENT_TYPE='application/x-www-form-urlencoded'),
    }[kind]


_apps = {}


def app_of(kind, debug):
    """-> (app, expected code)"""
    key = kind, debug
    if key in _apps:
        return _apps[key]
    import ombott
    cfg = dict(debug=debug, max_body_size=300, max_memfile_size=50, allow_x_script_name=True)
    if kind == 'domain':
        cfg.update(domain_map=lambda h: 'app' if h else None, app_name_header='HTTP_X_APP')
    if kind == 'static':
        app = ombott.default_app()
        app.setup(cfg)
    else:
        app = ombott.Ombott(cfg)
    R, E = ombott.HTTPResponse, ombott.HTTPError
    rq = app.request

    def text():
        return ' '.join([rq.path, rq.query_string, rq.get('HTTP_HOST') or '', rq.get('REQUEST_METHOD') or ''])
    code = 500
    every = '/<p:re((?s:.*))>'
    meth = ['GET', 'POST', 'ANY']

    def on(f):
        app.route('/', meth, f)
        app.route(every, meth, f)
    if kind in ('404', 'domain'):
        code = 404
    elif kind == '404routes':
        app.route('/a/<x:int>', 'ANY', lambda **k: 'x')
        app.route('/zqs', 'ANY', lambda **k: 'x')
        code = 404
    elif kind == '404hook':
        app.on_route('/')(lambda p: None)
        code = 404
    elif kind == '405':
        app.route('/', 'PURGE', lambda **k: 'x')
        app.route(every, 'PURGE', lambda **k: 'x')
        code = 405
    elif kind == '400path':
        code = 400
    elif kind == 'raise':
        def f(**k):
            raise ValueError(text())
        on(f)
    elif kind == 'raisekey':
        on(lambda **k: {}[text()])
    elif kind == 'hookraise':
        def f():
            raise ValueError(text())
        app.add_hook('before_request', f)
    elif kind == 'afterraise':
        def f():
            raise RuntimeError(text())
        app.add_hook('after_request', f)
        on(lambda **k: 'x')
    elif kind == 'routehook':
        def f(p):
            raise ValueError(p)
        app.on_route('/')(f)
        on(lambda **k: 'x')
    elif kind == 'gen':
        def f(**k):
            raise ValueError(text())
            yield ''
        on(f)
    elif kind == 'type':
        on(lambda **k: [[text()]])
    elif kind == 'typenum':
        on(lambda **k: 5)
    elif kind == 'typedyn':
        on(lambda **k: [type('T', (), {})()])
    elif kind == 'abort':
        on(lambda **k: ombott.abort(500, 'x'))
    elif kind == 'httperr':
        def f(**k):
            raise E(418, 'fixed', ValueError(text()))
        on(f)
        code = 418
    elif kind.startswith('x-'):
        x = kind[2:]

        class Own(Exception):
            pass

        def f(**k):
            t = text()
            if x in ('cause', 'gencause', 'hookcause', 'errcause'):
                try:
                    {}[t]
                except KeyError as e:
                    raise (E(500, 'fixed', ValueError(t)) if x == 'errcause' else ValueError(t)) from e
            if x == 'context':
                try:
                    {}[t]
                finally:
                    raise ValueError(t)
            if x == 'none':
                try:
                    {}[t]
                except KeyError:
                    raise ValueError(t) from None
            e = Own(t)
            if x == 'note':
                e.add_note(t)
            elif x == 'group':
                e = ExceptionGroup(t, [ValueError(t), KeyError(t)])
            elif x == 'syntax':
                e = SyntaxError(t, (t, 1, 1, t))
            elif x == 'os':
                e = OSError(2, t, t)
            elif x == 'decode':
                e = UnicodeDecodeError('utf8', t.encode('utf8', 'replace'), 0, 1, t)
            elif x == 'class':
                e = type(t.replace('\0', '') or 'T', (Exception,), {})(t)
            elif x == 'attrs':
                e.body = e.status = e.message = e.status_line = e.code = e.reason = e.headers = t
            elif x == 'args':
                e = Own(t, (t,), {t: t})
            elif x == 'str':
                e = type('T', (Exception,), {'__str__': lambda s: t, '__repr__': lambda s: t})()
            elif x == 'errtb':
                e = E(500, 'fixed', ValueError(t), t)
            elif x == 'errtbonly':
                e = E(500, 'fixed', traceback=t)
            elif x == 'errerr':
                e = E(500, 'fixed', E(500, t, ValueError(t)))
            elif x == 'eval':
                eval(compile('1/0', t.replace('\0', ''), 'eval'), {t: t})
            elif x == 'stop':
                e = StopIteration(t)
            elif x == 'assert':
                assert False, t
            elif x == 'unicode':
                e = Own('\ud800' + t)
            raise e
        if x == 'hookcause':
            app.add_hook('before_request', f)
        elif x == 'gencause':
            def g(**k):
                yield ''
                f()
            on(g)
        else:
            on(f)
    elif kind == 'args':
        on(lambda nope: 'x')
    elif kind == 'loop':
        def f(**k):
            r = R('x')
            r.body = r
            return r
        on(f)
    elif kind == 'crit-eh':
        def f(res):
            raise ValueError(text())
        app.error(404)(f)
    elif kind == 'crit-hdr':
        def f(**k):
            app.response.headers['X-A'] = '\ud800' + text()
            return 'x'
        on(f)
    elif kind == 'crit-enc':
        on(lambda **k: '\ud800' + text())
    elif kind == 'crit-ctype':
        def f(**k):
            app.response.content_type = 'text/html; charset=nope'
            return text()
        on(f)
    elif kind == 'crit-status':
        class Bad(E):
            @property
            def status_code(self):
                raise ValueError(text())

        def f(**k):
            raise Bad(404, 'x')
        on(f)
    elif kind.startswith('b-'):
        k2 = kind[2:]

        def f(**k):
            if k2.startswith('chunk') or k2 == 'big':
                return rq.body.read()
            if k2 == 'json':
                return str(rq.json)
            return str(list(rq.forms.items())) + str(list(rq.files.items()))
        on(f)
        code = 413 if k2 in ('big', 'form') else 400
    elif kind == 'static':
        def f(**k):
            return ombott.static_file(rq.path, '/nonexistent-root')
        app.route('/', meth, f, overwrite=True)
        app.route(every, meth, f, overwrite=True)
        code = 404
    _apps[key] = app, code
    return _apps[key]


CHAINED = ['x-' + x for x in ('cause', 'gencause', 'hookcause', 'errcause', 'context', 'none', 'note', 'group', 'syntax', 'os', 'decode', 'class', 'attrs', 'args', 'str', 'errtb',
                              'errtbonly', 'errerr', 'eval', 'stop', 'assert', 'unicode')]
KINDS = ['404', '404routes', '404hook', '405', '400path', 'raise', 'raisekey', 'hookraise', 'afterraise', 'routehook', 'gen', 'type', 'typenum', 'typedyn',
         'abort', 'httperr', 'args', 'loop', 'crit-eh', 'crit-hdr', 'crit-enc', 'crit-ctype', 'crit-status', 'b-chunk', 'b-chunkcut', 'b-mp', 'b-mphdr', 'b-mpbnd',
         'b-json', 'b-big', 'b-form', 'static', 'domain']
KINDS += CHAINED
PLACES = ['path', 'path2', 'qs', 'qsval', 'host', 'hostport', 'xfh', 'xfp', 'script', 'xscript', 'method', 'ctype', 'cookie', 'ua', 'ref', 'accept', 'server', 'port', 'scheme',
          'xff', 'range', 'ims', 'auth', 'proto', 'body', 'xapp', 'nohost']
ACCEPTS = [None, 'application/json', 'application/json, text/html;q=0.5', 'text/html', '*/*', 'application/json;charset=utf-8']


def place(e, where, text):
    t = text.encode('utf8').decode('latin1')
    if where == 'path':
        e['PATH_INFO'] += t
    elif where == 'path2':
        e['PATH_INFO'] = '/' + t + '/x'
    elif where == 'qs':
        e['QUERY_STRING'] = t
    elif where == 'qsval':
        e['QUERY_STRING'] = 'a=1&b=' + t + '&c'
    elif where == 'host':
        e['HTTP_HOST'] = t
    elif where == 'hostport':
        e['HTTP_HOST'] = 'h.x:' + t
    elif where == 'xfh':
        e['HTTP_X_FORWARDED_HOST'] = t
    elif where == 'xfp':
        e['HTTP_X_FORWARDED_PROTO'] = t
    elif where == 'script':
        e['SCRIPT_NAME'] = '/' + t
    elif where == 'xscript':
        e['HTTP_X_SCRIPT_NAME'] = t
    elif where == 'method':
        e['REQUEST_METHOD'] = t
    elif where == 'ctype':
        e['CONTENT_TYPE'] = (e.get('CONTENT_TYPE') or 'text/x') + '; x=' + t
    elif where == 'accept':
        e['HTTP_ACCEPT'] = (e.get('HTTP_ACCEPT') or 'text/html') + ';' + t
    elif where == 'server':
        e.pop('HTTP_HOST', None)
        e['SERVER_NAME'] = t
    elif where == 'port':
        e.pop('HTTP_HOST', None)
        e['SERVER_PORT'] = t
    elif where == 'scheme':
        e['wsgi.url_scheme'] = t
    elif where == 'body':
        pass
    elif where == 'nohost':
        e.pop('HTTP_HOST', None)
        e['PATH_INFO'] += t
    else:
        e[{'cookie': 'HTTP_COOKIE', 'ua': 'HTTP_USER_AGENT', 'ref': 'HTTP_REFERER', 'xff': 'HTTP_X_FORWARDED_FOR', 'range': 'HTTP_RANGE',
           'ims': 'HTTP_IF_MODIFIED_SINCE', 'auth': 'HTTP_AUTHORIZATION', 'proto': 'SERVER_PROTOCOL', 'xapp': 'HTTP_X_APP'}[where]] = t
    return e


def env_of(kind, places, text, accept, method='POST'):
    kw = body_env(kind[2:]) if kind.startswith('b-') else {}
    kw = dict(kw)
    body = kw.pop('body', b'')
    if 'body' in places and kind.startswith('b-'):
        pl = text.encode('utf8')
        body = {'b-chunk': pl + body, 'b-chunkcut': b'ff;' + pl + b'\r\nx', 'b-mp': body + pl, 'b-mphdr': body.replace(b'No-Colon', b'No-Colon' + pl),
                'b-json': b'{"a": ' + pl}.get(kind, body + pl)
    if kw.get('HTTP_TRANSFER_ENCODING'):
        kw['CONTENT_LENGTH'] = None
    e = environ('/', method, body=body, **kw)
    if kind == '400path':
        e['PATH_INFO'] = '/\xff'
    if accept:
        e['HTTP_ACCEPT'] = accept
    for p in places:
        place(e, p, text)
    if kind == '404routes' and not any(p in ('path', 'path2', 'nohost') for p in places):
        e['PATH_INFO'] = '/nope'
    return e


_raw = re.compile('%s[<>"\']|[<>"\']%s' % (S, Z))
_span = re.compile('%s(.*?)%s' % (S, Z), re.S)


def check_text(text, payload, where):
    """Every marked span is escaped or percent-encoded."""
    n = 0
    for m in _span.finditer(text):
        n += 1
        inner = m.group(1)
        if any(c in inner for c in '<>"\''):
            raise Violation('%s: page holds %r' % (where, m.group(0)))
        if '&' in inner:
            back = html.unescape(inner)
            # percent-encoded text has no `&` of its own; repr() doubles backslashes and escapes control characters
            if back != payload and back not in (repr(payload)[1:-1], repr('"' + payload)[2:-1], repr(payload + '\'"')[1:-4]) \
                    and repr(html.escape(payload))[1:-1] != inner and repr(payload.encode('utf8').decode('latin1'))[1:-1] != back \
                    and payload.encode('utf8').decode('latin1') != back \
                    and repr(html.escape(payload.encode('utf8').decode('latin1')))[1:-1] != inner:
                raise Violation('%s: page holds %r, which reads as %r' % (where, m.group(0), back))
    if _raw.search(text) and any(c in text for c in '<>') and re.search('%s[<>"]|[<>"]%s' % (S, Z), re.sub(_span, '', text)):
        raise Violation('%s: raw marker text: %r' % (where, text[max(0, _raw.search(text).start() - 20):][:80]))
    return n


_base = {}


_std = []


def standard():
    """Tags of the pages of harmless requests: the error page and the last resort."""
    if not _std:
        for k in ('404', 'crit-eh', 'raise'):
            app, _ = app_of(k, False)
            _std.append(tags(call(app, env_of(k, (), '', None, 'GET')).body.decode('utf8')))
    return _std


# what stands around the marked text
FRAMES = [(a, b) for a in ['[', ':', '/', '//', '@', 'u:p@', '?', '#', '\\', 'http://', 'https://', '.', '%', ';', ',', ' ', '-', '=', '~', '(', '*', '1.2.3.4:', '127.0.0.1',
                           'localhost', 'localhost:80', '[::1]:', 'xn--', 'a.b, ', 'javascript:', 'data:text/html,', 'favicon.ico', 'index.html?', '\t', '\xe9', '\u20ac', 'A' * 50]
          for b in ('',)] + [('', b) for b in [']', ':', ':80', '/', '.html', '.json', '.js', '.css', '.xml', '.', '?', '#', '&', '=', '%', ';', ',', ' ', '@h', '(', '~', '\\']] + [
    ('[', ']'), ('"', '"'), ('(', ')'), ('{', '}'), ('&', ';'), ('a=1&' * 9, '&b=2' * 9), ('/a' * 40, '/b' * 40), ('&' * 20, ''), ('=' * 20, ''), ('x=', '&y=1;z=2'), ('.' * 30, ''),
    ('x' * 300, ''), ('x' * 1100, 'y' * 1100), ('x' * 5000, ''), ('', 'x' * 70000), ('%41', '%42'), ('%2e%2e/', ''), ('../', '/..'), ('//h/', ''), ('\r\n', '\r\n')]


def page(kind, places, payload, accept, method, debug, ctx, where, frame=('', '')):
    app, code = app_of(kind, debug)
    r = call(app, env_of(kind, places, frame[0] + S + payload + Z + frame[1], accept, method))
    if r.escaped or r.iter_error:
        raise Violation('%s: exception %r reaches the server' % (where, r.escaped or r.iter_error))
    if r.code != code and not (kind == '400path' and r.code in (400, 404)) and not (kind.startswith('b-') and r.code < 500):
        # another error than planned would make the case empty
        if 'method' in places and r.code in (404, 405) or kind in ('static', '404hook') and r.code in (403, 404):
            pass
        elif 'ctype' in places or 'body' in places or kind == 'b-mpbnd':
            pass
        elif 'path' in places or 'path2' in places or 'nohost' in places:
            pass
        else:
            raise Violation('%s: status %r, expected %s' % (where, r.status, code))
    if r.code >= 500 and code < 500 and not (kind.startswith('b-') or kind == 'static'):
        raise Violation('%s: status %r, expected %s' % (where, r.status, code))
    if r.code < 400:
        ctx.outcome('no error')
        return
    ctx.outcome(r.code)
    text = r.body.decode('utf8')
    ctype = r.header('Content-Type') or ''
    if accept and accept.startswith('application/json'):
        try:
            doc = json.loads(text)
        except ValueError:
            raise Violation('%s: no valid JSON: %r' % (where, text[:200]))
        if not ctype.startswith('application/json'):
            raise Violation('%s: JSON error page is served as %r' % (where, ctype))

        def walk(o):
            if isinstance(o, str):
                check_text(o, payload, where)
                if re.search('%s[<>"\'&](?!amp;|lt;|gt;|quot;|#)' % S, o):
                    raise Violation('%s: JSON page holds %r' % (where, o))
            elif isinstance(o, dict):
                for k, v in o.items():
                    walk(k)
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        walk(doc)
    else:
        n = check_text(text, payload, where)
        if n:
            ctx.count('pages that reflect the marked text')
        bk = (kind, tuple(places), accept, method, frame)
        if bk not in _base:
            b = call(app, env_of(kind, places, frame[0] + S + 'harmless' + Z + frame[1], accept, method))
            bt = b.body.decode('utf8')
            _base[bk] = (_span.sub('', bt), tags(bt))
        if text and _span.sub('', text) != _base[bk][0]:
            # (with nothing but checked spans in the place of the harmless ones the page is harmless)
            ctx.count('pages compared by their tags')
            t = tags(text)
            if t != _base[bk][1] and t not in standard():
                raise Violation('%s: the page has other tags than the page of a harmless request: %r / %r' % (where, [x for x in t if x not in _base[bk][1]] or t, _base[bk][1]))
    ctx.trans()


TEXTS = ([chr(c) for c in range(0x250)] + [a + b for a in '"\\\n\'{}/<\x00\x1f\u2028\ud800é%' for b in '"\\\n\'{}/u\ud800\udc00b'] +
         ['\\u0022', '"}', '","x":"', 'a\nb \\ c', '{e}', 'x' * 5000, '😀', '\ud800', '</script>', '', None, 5, 0, b'x', b'', ['x'], {'a': ValueError}, ValueError('"'), 1.5, object, True])
_text = {}


def json_text(how, code, text, ctx):
    """An error whose text is the application's: as JSON it is valid, whatever the text."""
    import ombott
    if not _text:
        app = _text['app'] = ombott.Ombott()
        E = ombott.HTTPError

        def raised():
            raise E(_text['code'], _text['text'])

        def gen():
            yield ''
            raise E(_text['code'], _text['text'])
        app.route('/abort', 'GET', lambda: ombott.abort(_text['code'], _text['text']))
        app.route('/raised', 'GET', raised)
        app.route('/returned', 'GET', lambda: E(_text['code'], _text['text']))
        app.route('/wrapped', 'GET', lambda: ombott.HTTPResponse(E(_text['code'], _text['text'])))
        app.route('/gen', 'GET', gen)
        app.route('/line', 'GET', lambda: E('%d %s' % (_text['code'], _text['text']), 'x'))
    _text.update(code=code, text=text)
    for accept in ACCEPTS[1:3]:
        r = call(_text['app'], environ('/' + how, headers={'Accept': accept}))
        where = 'error %d with text %.40r, %s, Accept %s' % (code, text, how, accept)
        if r.escaped or r.iter_error:
            raise Violation('%s: exception %r reaches the server' % (where, r.escaped or r.iter_error))
        if r.code < 400:
            raise Violation('%s: status %r' % (where, r.status))
        try:
            json.loads(r.body.decode('utf8'))
        except ValueError:
            raise Violation('%s: no valid JSON: %r' % (where, r.body[:200]))
        if not (r.header('Content-Type') or '').startswith('application/json'):
            raise Violation('%s: JSON error page is served as %r' % (where, r.header('Content-Type')))
        ctx.trans()
        ctx.outcome(('json text', r.code))


def run_case(case, ctx):
    if case[0] == 'json text':
        for i in range(case[3], len(TEXTS), 8):
            json_text(case[1], case[2], TEXTS[i], ctx)
            ctx.state(case[:3] + (i,))
        return
    if case[0] == 'frame':
        _, kind, places, accept, method, payloads, frames = case
        for f in frames:
            for payload in payloads:
                where = '%s, %r between %.40r and %.40r in %s, Accept %s, %s' % (kind, payload, f[0], f[1], '+'.join(places), accept, method)
                page(kind, places, payload, accept, method, False, ctx, where, tuple(f))
                ctx.state((kind, places, accept, method, payload, f))
        _base.clear()
        return
    kind, places, accept, method, debug = case[:5]
    for payload in case[5] if len(case) > 5 else PAY:
        where = '%s, %r in %s, Accept %s, %s' % (kind, payload, '+'.join(places), accept, method)
        page(kind, places, payload, accept, method, debug, ctx, where)
        ctx.state((kind, places, accept, method, payload))


FALSY = [False, None, 0, '']


def cases(tier):
    th = tier == 'thorough'
    for how in ('abort', 'raised', 'returned', 'wrapped', 'gen', 'line'):
        for code in (400, 404, 418, 500) if th else (400, 500):
            for i in range(8):
                yield ('json text', how, code, i)
    for k in KINDS:
        for p in PLACES:
            for a in ACCEPTS:
                for m in ('POST', 'GET') if k[:2] != 'b-' else ('POST',):
                    if m == 'GET' and a in ACCEPTS[2:]:
                        continue
                    yield (k, (p,), a, m, False)
        if k in CHAINED and not th:
            continue
        main = PLACES[:13] if not th else PLACES
        for p in itertools.combinations(main, 2):
            for a in ACCEPTS[:2]:
                yield (k, p, a, 'POST', False, FEW if not th else PAY)
        for d in FALSY[1:]:
            for a in ACCEPTS[:2]:
                yield (k, ('path', 'qs', 'host'), a, 'POST', d)
        for p in [(x,) for x in PLACES[:13] + ['server', 'scheme', 'port', 'nohost']] + [('path', 'qs'), ('host', 'qs'), ('script', 'path')]:
            for a in ACCEPTS[:2]:
                for i in range(0, len(FRAMES), 20):
                    yield ('frame', k, p, a, 'POST' if a else 'GET', ['<b>', '&lt;"', "'>{e}"] if not th else FEW, FRAMES[i:i + 20])
        chars = [chr(c) for c in range(0x250)] + ['<' + chr(c) for c in range(0x100)] + [chr(c) + '>' for c in range(0x100)]
        for p in ('path', 'qs', 'host', 'xfh'):
            for a in ACCEPTS[:2]:
                if th or k in ('404', '405', '400path', 'raise', 'crit-eh', 'crit-hdr', 'b-chunk'):
                    for i in range(0, len(chars), 120):
                        yield (k, (p,), a, 'POST', False, chars[i:i + 120])
        if th:
            for i in range(0, len(PAY), 4):
                yield (k, ('path', 'qs', 'host'), None, 'POST', False, [a + b for a in PAY[i:i + 4] for b in PAY])
                yield (k, ('path', 'qs', 'host'), 'application/json', 'POST', False, [a + b for a in PAY[i:i + 4] for b in PAY])


NSHARD = 48


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
