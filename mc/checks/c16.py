"""C16  static_file never serves a file outside its root."""
import itertools
import mimetypes
import os
import shutil
import sys
import tempfile

from ..core import Violation
from ..wsgi import environ, call

ID = 'C16'
TECHNIQUE = ('exhaustive enumeration of requested names (all strings over a small alphabet, all sequences of path segments and separators) x spellings of '
             'the root on the real static_file in a scratch tree of decoys, with an audit hook that sees every file that is opened')
LEVEL_NOTE = ('all names up to length 7 over 5 characters and all sequences of up to 4 of 13 segments with 3 separators, '
              '8 spellings of the root, names with variables and escapes, the same names under 16 roots in turn (all ordered pairs), 37 roots that some unquoting or normalisation conflates; every file carries its own location as content')
RULE = ('an answer other than 403/404 carries the content of the regular file at the normalised location inside the root; '
        'nothing outside the root is opened')
ASSUMPTIONS = ['POSIX paths', 'symbolic links inside the root are the business of who made them (the location is normalised as text)']
BOUNDS = dict(quick='names up to length 6 over {. / \\ r a}, segment sequences up to 3 (4 for one root)', thorough='names up to length 8, segment sequences up to 5')

ALPHA = './\\ra'
SEGS = ['', '.', '..', 'a', 'r', 'ra', 'sub', '...', '..r', 'r.', 'a.txt', '~', 'r\\a']
SEPS = ['/', '//', '\\']
# inside the scratch directory; the root is the one called r
FILES = ['a', 'ra/a', 'ra/sub/a', 'r.', 'rr/a', 'a.txt', 'sub/a', '...', '..r', 'r/a', 'r/ra', 'r/r/a', 'r/sub/a', 'r/sub/r', 'r/...', 'r/..r', 'r/a.txt', 'r/sub/sub/a',
         'r/~', 'r/r\\a', 'r/..a', 'r/.a', 'r/a..', 'r/\\', 'r/é', 'ré/a', 'r/sub/a.txt', 'r-x', 'r../a', 'r /a', 'r/ a', 'r/%2e%2e', 'R/a',
         # locations that some unquoting or normalisation takes for one another
         'p+q/a', 'p q/a', 'p%20q/a', 'p+q/x y', 'p q/x+y', 'P+Q/a', 'pq/a', 'e\u0301/a', '\xe9/a', '\ufb01/a', 'fi/a', 'p.q/a', 'p_q/a', 'p-q/a', 'p;q/a', 'p/a', 'p#q/a', 'p?q/a', 'p&q/a', 'p&amp;q/a',
         'p\\q/a', 'p/q/a', '$p/a', '%p/a', '{p}/a', '[p]/a', 'p*/a', '~p/a', ' p/a', 'p /a', 'p\t/a', 'p\xa0/a', 'p./a', 'p./+', 'p+q/ ', 'p q/+', 'p%2bq/a', 'p%2Bq/a', '%65/a', 'p\u200b/a', '\uff50/a']
TWINS = [['p+q', 'p q', 'p%20q', 'p%2bq', 'p%2Bq', 'P+Q', 'pq', 'p.q', 'p_q', 'p-q', 'p;q', 'p#q', 'p?q', 'p&q', 'p&amp;q', 'p\\q', 'p/q'], ['e\u0301', '\xe9', '%65', 'E'], ['\ufb01', 'fi'],
         ['p', '$p', '%p', '{p}', '[p]', 'p*', '~p', ' p', 'p ', 'p\t', 'p\xa0', 'p.', 'p\u200b', '\uff50']]
# and one file that only this one has
FILES += ['%s/o%d' % (d, n) for t in TWINS for n, d in enumerate(t)]

_scratch = []
EVENTS = []
_armed = [False]


def _audit(ev, args):
    if _armed[0] and ev == 'open':
        EVENTS.append(args[0])


_hooked = []


def prepare():
    _scratch.append(os.path.realpath(tempfile.mkdtemp(prefix='vp-c16-')))


def cleanup():
    os.chdir('/')
    shutil.rmtree(_scratch[0], ignore_errors=True)


_mine = []


def tree():
    """Scratch tree of this process (the parent removes it)."""
    if not _mine or _mine[0] != os.getpid():
        base = os.path.join(_scratch[0], 'p%d' % os.getpid(), 'top')
        for f in FILES:
            p = os.path.join(base, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fp:
                fp.write('content of ' + p)
        _mine[:] = [os.getpid(), base]
        mimetypes.init()
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked.append(1)
        os.chdir(base)
    return _mine[1]


def roots(base):
    # (spelling, cwd)
    return [(base + '/r', None), (base + '/r/', None), ('r', base), ('./r//', base), ('../r', base + '/ra'), (base + '/ra/../r', None), ('.', base + '/r'),
            (base + '//r/sub/..', None), ('', base + '/r')]


def lexical_abs(root, name):
    """Normalised location of root/name as absolute path (it may leave the root and come back)."""
    stack = [s for s in root.split('/') if s]
    for seg in name.split('/'):
        if seg in ('', '.'):
            continue
        if seg == '..':
            if stack:
                stack.pop()
        else:
            stack.append(seg)
    return '/' + '/'.join(stack)


def serve(name, root, env):
    """-> (code, body)"""
    import ombott
    app = ombott.default_app()
    app.request.__init__(env)
    res = ombott.static_file(name, root)
    code = res.status_code
    body = res.body
    if isinstance(res, ombott.HTTPError):
        return code, None
    if hasattr(body, 'read'):
        data = body.read()
        body.close()
    elif isinstance(body, str):
        data = body.encode()
    else:
        data = b''.join(body)
    return code, data


def judge(name, root, cwd, hdr, ctx, rootdir=None):
    base = tree()
    if cwd:
        os.chdir(cwd)
    rootdir = rootdir or base + '/r'
    env = dict(REQUEST_METHOD='GET', PATH_INFO='/')
    env.update(hdr)
    del EVENTS[:]
    _armed[0] = True
    try:
        code, data = serve(name, root, env)
    finally:
        _armed[0] = False
    where = 'name %r, root %r (cwd %r), %r' % (name, root.replace(base, '<top>'), (cwd or '').replace(base, '<top>'), hdr)
    for p in EVENTS:
        p = os.fsdecode(p) if isinstance(p, (str, bytes)) else repr(p)
        full = lexical_abs(os.getcwd(), p) if not p.startswith('/') else lexical_abs('', p)
        if not full.startswith(rootdir + '/'):
            raise Violation('%s: opens %r' % (where, full.replace(base, '<top>')))
    loc = lexical_abs(rootdir, name.strip('/\\'))
    inside = loc.startswith(rootdir + '/')
    exists = inside and '\0' not in loc and os.path.isfile(loc)
    ctx.outcome('%s%s' % (code, '' if inside else ' outside'))
    if code in (403, 404):
        plain = not name.startswith(('/', '\\')) and not name.endswith(('/', '\\'))
        if exists and plain:
            raise Violation('%s: %s for a file in the root' % (where, code))
        return
    if code == 416 and exists:
        return
    if not exists:
        raise Violation('%s: answer %s for %r' % (where, code, loc.replace(base, '<top>')))
    want = ('content of ' + loc).encode()
    if code == 200 and hdr.get('REQUEST_METHOD') == 'HEAD' or code == 304:
        if data:
            raise Violation('%s: body %r' % (where, data[:80]))
    elif code == 200 and data != want or code == 206 and data not in want:
        raise Violation('%s: delivers %r' % (where, data[:120]))
    elif code not in (200, 206):
        raise Violation('%s: answer %s' % (where, code))


# directories that serve as root one after the other; '@x' is the relative spelling 'r' or '.' in the working directory x
DIRS = ['', 'r', 'ra', 'rr', 'sub', 'r/sub', 'R', 'r ', 'r/sub/sub', '@/r', '@r/r', '@r/.', '@ra/.', '@/.', '@ra/../r', '@r/sub']
MANY = ['a', 'r/a', '../a', '../r/a', '../ra/a', 'sub/a', '../sub/a', '../r/sub/a', 'r/sub/a', '../../a', '../../r/a', 'a.txt', './a', '/a', 'sub/../a', '../R/a', '../../r/sub/a', 'r/ra', 'r/r/a', '/r/a', 'nope', '..', '']


def run_many(arg, ctx):
    """The same names under several roots: what was found out under one root says nothing about the next."""
    base = tree()

    def one(d, name, h):
        if d.startswith('@'):
            cwd, _, root = d[1:].partition('/')
            cwd = (base + '/' + cwd).rstrip('/')
            rootdir = lexical_abs(cwd, root)
        else:
            cwd, root = base, (base + '/' + d).rstrip('/')
            rootdir = root
        judge(name, root, cwd, h, ctx, rootdir)
        ctx.trans()
    twins = [t for t in TWINS if arg[0] in t]
    names = [n for t in twins for d in t for n in ('a', 'x y', 'x+y', 'x%20y', '+', ' ', '../' + d + '/a', '../' + d + '/x y', d + '/a', './a', 'b/../a')] + ['o%d' % i for t in twins for i in range(len(t))] or MANY + [base + '/a', base + '/r/a', base + '/ra/a', '/' + base + '/r/a', base[1:] + '/r/a']
    for name in names:
        for h in HDR:
            for d in arg:
                one(d, name, h)
                ctx.state((tuple(arg), name))
    for d in arg:
        for name in names:
            one(d, name, HDR[0])


HDR = [{}, dict(REQUEST_METHOD='HEAD'), dict(HTTP_RANGE='bytes=0-3'), dict(HTTP_IF_MODIFIED_SINCE='Fri, 01 Jan 2100 00:00:00 GMT')]


def run_case(case, ctx):
    base = tree()
    kind, ri, arg = case
    if kind == 'many':
        return run_many(arg, ctx)
    rt = roots(base)
    root, cwd = rt[ri]
    if kind == 'chars':
        prefix, n = arg
        for rest in itertools.product(ALPHA, repeat=n - len(prefix)):
            name = prefix + ''.join(rest)
            judge(name, root, cwd, HDR[0], ctx)
            ctx.trans()
            ctx.state((ri, name))
    elif kind == 'segs':
        first, n, pre = arg
        for segs in itertools.product(SEGS, repeat=n - 1):
            for seps in itertools.product(SEPS, repeat=n - 1):
                name = pre + first + ''.join(a + b for a, b in zip(seps, segs))
                judge(name, root, cwd, HDR[0], ctx)
                ctx.trans()
                ctx.state((ri, name))
    elif kind == 'special':
        tops = [base, base + '/r', base + '/ra', base + '/a', base + '/ra/a', '/etc/passwd', '/etc/hostname', '/proc/self/environ', base.replace('/', '\\') + '\\a']
        up = ['/'.join(['..'] * k) for k in range(1, 12)]
        names = list(tops)
        for t in tops:
            names += ['/' + t, '//' + t, '\\' + t, './' + t, '/./' + t, 'file://' + t, t + '\0', t + '\0.txt', t + '/', t + '/.', ' ' + t, t + ' ']
            for u in up:
                names += [u + t, u + '/' + t, u.replace('/', '\\') + t, 'sub/' + u + t, 'nope/' + u + t, 'a/' + u + t, '/' + u + t, '\\' + u + t, './' + u + t,
                          u.replace('/', '//') + t, u.replace('/', '/./') + t, '\0/' + u + t, 'é/' + u + t, 'sub/' * 3 + u + t]
        for f in FILES:
            for u in ['', '../', '../../', 'sub/../', 'sub/../../', '..//', './../', '..\\', '%2e%2e/', '..%2f', '..\0/', '../r/../', '../ra/../', '....//', '..;/', '.. /', '..\t/',
                      '\u2024\u2024/', '\uff0e\uff0e/', '..\u2215', '..\uff0f', '../r/', '../top/', '../../top/r/', '../../top/', '../r/../r/', 'a/../', 'a/../../', '~/', '$HOME/']:
                names += [u + f, '/' + u + f, u + f + '/', u + f + '\0', '\\' + u + f, u + f + '/.', u + f + '/..', u + f + '/../a', u + f.upper(), u + f.replace('/', '\\')]
        names += ['', '/', '\\', '.', '..', '/..', '../', '\0', 'x' * 300, 'a/' * 3000, '../' * 3000 + 'a', '\ud800', '\udcff/a', '?', '*', 'a*', '[a]', '-', '\n', 'a\n', ' a', 'a ']
        for name in names:
            for h in HDR:
                judge(name, root, cwd, h, ctx)
                ctx.trans()
                ctx.state((ri, name))
    elif kind == 'expand':
        # text that something may substitute: variables, home directories, patterns, escapes
        vals = dict(VPUP='..', VPA='../a', VPABS=base + '/a', VPTOP=base, VPSEP='/', VPDOT='.', VPE='', VPSUB='sub', VPEV='$VPUP', VPUSER='x', HOME=base, PWD=base, OLDPWD=base, USER='..', TMPDIR=base)
        old = {k: os.environ.get(k) for k in vals}
        os.environ.update(vals)
        try:
            forms = ['$%s', '${%s}', '%%%s%%', '$(%s)', '%%(%s)s', '{%s}', '`%s`', '{0.%s}', '$%s$', '~%s']
            bits = [f % v for f in forms for v in vals] + ['~', '~root', '~/', '$$', '%2e%2e', '%2E%2E', '%252e%252e', '&#46;&#46;', '\\x2e\\x2e', '\\056\\056', '{a,../a}', '{..,sub}', '[.][.]', '?', '??', '*', '..*', 'x:..', '..:x',
                                                               '\uff0e\uff0e', '\u2025', '\u2024.', '.\u0307.', '.\u200b.', '.\xad.', '\ufe52\ufe52', '..\x7f', '\x1f..', '..%00', '.\x00.', '%c0%ae%c0%ae', '.\t.', '. .']
            names = []
            for b in bits:
                for c in ('a', 'ra/a', 'r/a', 'sub/a', 'top/a'):
                    names += [b, b + '/' + c, b + c, 'sub/' + b + '/' + c, 'sub/' + b + '/' + b + '/' + c, b + '\\' + c, b + '%2f' + c, b + '%2F' + c, b + '$VPSEP' + c, './' + b + '/' + c, 'nope/../' + b + '/' + c, b + '/../' + c]
            for name in names:
                for h in HDR[:3:2]:
                    judge(name, root, cwd, h, ctx)
                    ctx.trans()
                    ctx.state((ri, name))
        finally:
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
    elif kind == 'wsgi':
        import ombott
        app = ombott.default_app()

        @app.route('/s/<f:re((?s:.*))>', ['GET'], overwrite=True)
        def h(f):
            return ombott.static_file(f, root)

        @app.route('/q', ['GET'], overwrite=True)
        def q():
            return ombott.static_file(app.request.query['f'], root)
        if cwd:
            os.chdir(cwd)
        import urllib.parse
        ups = ['', '../', '../../', '/', '//', '/../', '\\..\\', 'sub/../../', '../ra/', '/../ra/', '..//..//', base + '/', '/' + base + '/ra/', './../', '../r/../', 'sub/./../']
        for u in ups:
            for f in FILES + ['etc/passwd', '', '..', 'ra', 'r']:
                for method in ('GET', 'HEAD'):
                    for hdr in ({}, {'Range': 'bytes=0-'}, {'If-Modified-Since': 'Fri, 01 Jan 2100 00:00:00 GMT'}):
                        for e in (environ('/s/' + u + f, method, headers=hdr),
                                  environ('/q', method, 'f=' + urllib.parse.quote(u + f, safe=''), headers=hdr),
                                  environ('/q', method, 'f=' + urllib.parse.quote(u + f), headers=hdr)):
                            del EVENTS[:]
                            _armed[0] = True
                            try:
                                r = call(app, e)
                            finally:
                                _armed[0] = False
                            ctx.trans()
                            ctx.state((ri, u, f, method, str(hdr)))
                            where = 'path %r?%s, root %r, %s %r' % (e['PATH_INFO'], e['QUERY_STRING'], root.replace(base, '<top>'), method, hdr)
                            opened = [os.path.abspath(os.fsdecode(p)) for p in EVENTS if isinstance(p, (str, bytes))]
                            for p in opened:
                                if not p.startswith(base + '/r/') and not p.endswith('/error.html') and not p.endswith('.py'):
                                    raise Violation('%s: opens %r' % (where, p.replace(base, '<top>')))
                            if r.escaped:
                                raise Violation('%s: %r' % (where, r.escaped))
                            ctx.outcome(r.code)
                            if r.code in (200, 206, 304):
                                if r.body.startswith(b'content of ') and not r.body.startswith(b'content of ' + base.encode() + b'/r/'):
                                    raise Violation('%s: delivers %r' % (where, r.body[:100]))
                                loc = lexical_abs(base + '/r', (u + f).strip('/\\'))
                                if not (loc.startswith(base + '/r/') and os.path.isfile(loc)):
                                    raise Violation('%s: %r' % (where, r.status))
                            elif r.code not in (403, 404):
                                raise Violation('%s: %r' % (where, r.status))


def cases(tier):
    th = tier == 'thorough'
    nr = 9
    for a, b in itertools.permutations(DIRS, 2):
        yield ('many', 0, [a, b, a])
    for ds in TWINS:
        for a in ds:
            yield ('many', 0, [a])
            yield ('many', 0, ['@/' + a])
            for b in ds:
                if a != b:
                    yield ('many', 0, [a, b, a])
    if th:
        for t in itertools.permutations(DIRS, 3):
            yield ('many', 0, list(t))
    for ri in range(nr):
        yield ('special', ri, None)
        yield ('wsgi', ri, None)
        yield ('expand', ri, None)
    for ri in range(nr):
        for n in range(0, 7 if not th else 9):
            if n == 0:
                yield ('chars', ri, ('', 0))
            elif n < 5:
                for c in ALPHA:
                    yield ('chars', ri, (c, n))
            else:
                if n == 8 and ri not in (0, 2):
                    continue
                for c in itertools.product(ALPHA, repeat=2):
                    yield ('chars', ri, (''.join(c), n))
        for n in (1, 2, 3):
            for s in SEGS:
                for pre in ('', '/', '\\', '../', '//') if n < 3 or th else ('', '/'):
                    yield ('segs', ri, (s, n, pre))
    for ri in (0,) if not th else range(nr):
        for s in SEGS:
            yield ('segs', ri, (s, 4, ''))


NSHARD = 48


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
