"""Handlers of the concurrency checks (C08, C10).  This file is traced: every line is a scheduling point."""
import ombott

from .conc import note, Boom


def build(app, tag, files):
    """Routes, hooks and error handlers on `app`; `tag` names the application."""
    rq, rs = app.request, app.response
    R, E = ombott.HTTPResponse, ombott.HTTPError

    def full(name):
        note('q', rq.query_string)
        rs.status = 203
        note('p', rq.path)
        rs.headers['X-Own'] = name
        rs.headers.append('X-Multi', name + '1')
        note('c', rq.get_cookie('c'))
        rs.set_cookie('k', name)
        rs.headers.append('X-Multi', name + '2')
        note('rs', rs.status, sorted(map(str, rs.headers.items())))
        rs.content_type = 'text/plain; charset=' + ('latin1' if name == 'A' else 'utf8')
        return name + ' \xe9 ' + tag

    def args(name, n, p):
        note('args', name, n, p, sorted(rq.url_args.items()))
        rq.mine = name
        note('rule', rq.route.handler is args, rq.method)
        note('mine', rq.mine, hasattr(rq, 'user'))
        rs.body = name
        note('body', rs.body, rs.status_code)
        return [rq.mine, ' ', rq.script_name]

    def hdr():
        note('h', rq.headers.get('X-In'), rq.content_length)
        note('q', rq.query.get('q'))
        rs.headers['X-Out'] = rq.headers.get('X-In')
        note('json', rq.is_json_requested, rq.auth)
        rs.headers.setdefault('X-Def', rq.query.get('q'))
        del rs.headers['X-Out']
        note('rs', sorted(map(str, rs.headers.items())))
        return rq.url

    def form():
        f = rq.forms
        note('form', sorted(f.items()))
        rs.headers['X-F'] = f.get('a') or ''
        note('post', sorted(rq.POST.items()), sorted(rq.params.items()))
        return rq.forms.get('a') or 'none'

    def upload():
        fl = rq.files
        f = fl.get('f')
        note('up', f.raw_filename, f.file.read())
        note('t', rq.forms.get('t'))
        rs.headers['X-Up'] = f.raw_filename
        return f.content_type

    def js():
        note('json', rq.json)
        d = rq.json
        rs.headers['X-J'] = d['a']
        note('again', rq.json['a'], rq.body.read())
        return d['a']

    def raw():
        b = rq.body.read()
        note('raw', b)
        rs.headers['X-L'] = str(len(b))
        return b

    def tried():
        try:
            rq.body
        except R as e:
            note('failed', e.status, e.body)
            rs.headers['X-T'] = rq.query_string
            raise
        return 'no'

    def raised():
        rs.headers['X-Lost'] = 'lost'
        r = R('raised ' + rq.query_string, 202)
        r.headers['X-R'] = rq.query_string
        r.set_cookie('r', rq.query_string)
        note('r', r.status, sorted(r.headers.items()))
        raise r

    shared = R('shared', 203, headers=[('X-L', 'a'), ('X-L', 'b')])
    shared.set_cookie('sh', 'x')
    sherr = E(418, 'tea', headers=[('X-L', 'a')])
    sherr.set_cookie('sh', 'x')

    def shd():
        rs.headers['X-Q'] = rq.query_string
        note('q', rq.query_string)
        raise shared

    def she():
        note('q', rq.query_string)
        raise sherr

    def eh(res):
        note('eh', res.status, res.body)
        rs.headers.append('X-L', rq.query_string)
        rs.set_cookie('sh', rq.query_string)
        note('rs', rs.status, sorted(map(str, rs.headers.items())))
        return 'eh ' + rq.query_string

    def ab():
        rs.headers['X-Lost'] = '1'
        rs.set_cookie('kept', rq.query_string)
        note('x')
        raise E(404, 'none ' + rq.query_string, X_Own=rq.query_string)

    def crash():
        rs.headers['X-Lost'] = '1'
        rs.set_cookie('kept', rq.query_string)
        note('q', rq.query_string)
        raise Boom(rq.query_string)

    def gen():
        note('g0', rq.path)
        rs.headers['X-G0'] = rq.query_string
        yield ''
        rs.headers['X-G1'] = rq.query_string
        rs.set_cookie('g', rq.query_string)
        yield 'one ' + rq.query_string
        note('g2', rq.query_string, sorted(map(str, rs.headers.items())))
        yield 'two ' + rq.query_string
        note('g3', rs.status, rq.get_cookie('c'))

    def genfail():
        yield ''
        rs.headers['X-G1'] = rq.query_string
        note('g', rq.query_string)
        raise Boom(rq.query_string)

    def wrapped():
        rs.status = 299
        r = R(R(E(409, 'deep ' + rq.query_string), 201), 202, X_N=rq.query_string)
        note('w', rq.query_string)
        return r

    def empty():
        rs.status = 204
        rs.headers['X-E'] = rq.query_string
        note('e', rs.status, rq.query_string)
        return 'ignored'

    def signed():
        v = rq.get_cookie('s', 'none', 'secret')
        note('s', v, sorted(rq.cookies.keys()))
        rs.set_cookie('s', [rq.query_string], 'secret')
        rs.delete_cookie('old')
        note('c', rq.cookies.get('c'))
        return repr(v)

    def copy():
        c = rq.copy()
        c['QUERY_STRING'] = 'q=copy'
        note('copy', c.query.get('q'), rq.query.get('q'))
        c.user = 'u' + rq.query_string
        note('user', c.user, hasattr(rq, 'user'))
        rs.headers['X-C'] = rq.query.get('q') + c.query.get('q')
        d = rs.copy(cls=R)
        d.headers['X-C'] = 'other'
        note('rs', sorted(map(str, rs.headers.items())))
        return c.path + rq.path

    def edit():
        note('q', rq.query.get('q'))
        rq['QUERY_STRING'] = 'q=new' + rq.query.get('q')
        note('q', rq.query.get('q'), rq.query_string)
        rq['PATH_INFO'] = '/else' + rq.query.get('q')
        note('p', rq.path, rq.fullpath)
        rq['HTTP_X_IN'] = 'in' + rq.query.get('q')
        return rq.headers.get('X-In')

    def fileobj():
        import io
        rs.headers['X-F'] = rq.query_string
        note('f', rq.query_string)
        return io.BytesIO(b'file ' + rq.query_string.encode())

    def badhdr():
        rs.headers['X-Q'] = rq.query_string
        rs.headers['X-Bad'] = '\ud800'
        note('b', rq.query_string)
        return 'x'

    app.route('/full/<name>', 'GET', full)
    app.route('/args/<name>/<n:int>/<p:path>', 'GET', args)
    app.route('/hdr', 'GET', hdr)
    app.route('/form', 'POST', form)
    app.route('/upload', 'POST', upload)
    app.route('/json', 'POST', js)
    app.route('/raw', 'POST', raw)
    app.route('/tried', 'POST', tried)
    app.route('/raised', 'GET', raised)
    app.route('/shared', 'GET', shd)
    app.route('/sherr', 'GET', she)
    app.error(418)(eh)
    app.route('/abort', 'GET', ab)
    app.route('/crash', 'GET', crash)
    app.route('/gen', 'GET', gen)
    app.route('/genfail', 'GET', genfail)
    app.route('/wrapped', 'GET', wrapped)
    app.route('/empty', 'GET', empty)
    app.route('/signed', 'GET', signed)
    app.route('/copy', 'GET', copy)
    app.route('/edit', 'GET', edit)
    app.route('/file', 'GET', fileobj)
    app.route('/badhdr', 'GET', badhdr)

    if app is ombott.default_app():
        def redir():
            rs.set_cookie('kept', rq.query_string)
            rs.headers['X-Kept'] = rq.query_string
            note('q', rq.query_string)
            ombott.redirect('/to?' + rq.query_string)

        def static():
            note('q', rq.query_string)
            rs.headers['X-Lost'] = rq.query_string
            return ombott.static_file(rq.query['q'] + '.txt', files)

        app.route('/redir', 'GET', redir)
        app.route('/static', 'GET', static)

    def rhook(path):
        note('rhook', path, rq.query_string)
        rs.headers['X-Hook'] = path

    def hooked(x):
        note('hooked', x)
        return x

    app.on_route('/hook', rhook)
    app.route('/hook/<x>', 'GET', hooked)

    def part(path, values):
        note('part', path, values, rq.query_string)
        rs.status = 404
        return 'part ' + path + rq.query_string

    app.error(404, '/part')(part)
    app.route('/part/<x:int>/y', 'GET', hooked)

    def before():
        note('before', rq.get('PATH_INFO'), rs.status, sorted(map(str, rs.headers.items())))
        if rq.path == '/stop':
            rs.headers['X-Lost'] = 'l'
            raise R('stopped ' + rq.query_string, 203)
        rs.headers['X-B'] = tag

    def after():
        note('after', rs.status, rq.query_string)
        rs.headers['X-After'] = rq.query_string

    app.add_hook('before_request', before)
    app.add_hook('after_request', after)
    return app


def plain(app):
    """An application without hooks and cookies: nothing is set up before the first request."""
    rq, rs = app.request, app.response

    def h(x):
        rs.headers['X-P'] = x
        note('x', x, rq.path)
        return x

    app.route('/p/<x>', 'GET', h)
    return app


def quiet(app):
    """No hooks, no error handlers, no configuration; each handler looks at or sets one thing only, at its very end or begin,
    so that nothing is set up by looking at something else before."""
    rq, rs = app.request, app.response
    R, E = ombott.HTTPResponse, ombott.HTTPError

    def nothing():
        note('x')
        return 'nothing'

    def argument(x):
        note('x')
        return x

    def raises():
        note('x')
        raise E(404, 'one')

    def answers():
        note('x')
        return R('two', 203)

    def crashes():
        note('x')
        raise Boom('x')

    def rawhdr():
        note('x')
        rs.headers['X-Q'] = 'only ' + rq.environ['QUERY_STRING']

    def status():
        note('x')
        rs.status = 200 + len(rq.environ['HTTP_X_IN'])

    def cookie():
        note('x')
        rs.set_cookie('k', rq.environ['QUERY_STRING'])

    def ctype():
        note('x')
        rs.content_type = 'text/' + rq.environ['QUERY_STRING']
        return 'x'

    def stream():
        note('x')
        yield rq.environ['QUERY_STRING']
        yield rq.environ['HTTP_X_IN']

    app.route('/q-nothing', ['GET', 'POST'], nothing)
    app.route('/q-arg/<x>', 'GET', argument)
    app.route('/q-raises', 'GET', raises)
    app.route('/q-answers', 'GET', answers)
    app.route('/q-crashes', 'GET', crashes)
    app.route('/q-rawhdr', 'GET', rawhdr)
    app.route('/q-status', 'GET', status)
    app.route('/q-cookie', 'GET', cookie)
    app.route('/q-ctype', 'GET', ctype)
    app.route('/q-stream', 'GET', stream)
    app.route('/q-path', 'GET', lambda: (note('x'), rq.path)[1])
    app.route('/q-query', 'GET', lambda: (note('x'), rq.query['q'])[1])
    app.route('/q-cookies', 'GET', lambda: (note('x'), rq.cookies['c'])[1])
    app.route('/q-headers', 'GET', lambda: (note('x'), rq.headers['X-In'])[1])
    app.route('/q-url', 'GET', lambda: (note('x'), rq.url)[1])
    app.route('/q-forms', 'POST', lambda: (note('x'), rq.forms['a'])[1])
    app.route('/q-body', 'POST', lambda: (note('x'), rq.body.read())[1])
    app.route('/q-json', 'POST', lambda: (note('x'), rq.json['a'])[1])
    app.route('/q-files', 'POST', lambda: (note('x'), rq.files['f'].file.read())[1])
    app.route('/q-qlists', 'GET', lambda: (note('x'), repr(sorted(rq.query.items())))[1])
    app.route('/q-flists', 'POST', lambda: (note('x'), repr(sorted(rq.forms.items())))[1])
    app.route('/q-mlists', 'POST', lambda: (note('x'), repr((rq.forms['t'], [(f.raw_filename, f.file.read(), f.content_type) for f in rq.files['f']])))[1])
    app.route('/q-chunks', 'POST', lambda: (note('x'), rq.body.read())[1])
    app.route('/q-morecookies', 'GET', lambda: (note('x'), repr(sorted(rq.cookies.items())))[1])
    app.route('/q-url2', 'GET', lambda: (note('x'), ' '.join([rq.url, rq.script_name, rq.fullpath] + rq.remote_route))[1])
    app.route('/q-attr', 'GET', lambda: (note('x'), setattr(rq, 'mine', rq.environ['QUERY_STRING']), rq.mine)[2])
    app.route('/q-noattr', 'GET', lambda: (note('x'), repr(getattr(rq, 'mine', None)))[1])
    return app


def domain(app):
    """Part of the path comes from the host."""
    rq = app.request

    def page(p):
        note('x', p, rq.path, rq.get('HTTP_X_APP'))
        return ' '.join([p, rq.fullpath, rq.url])

    app.route('/<p:path>', 'GET', page)
    return app


def define(app, tag):
    """Registration of rules with all kinds of filters."""
    def h(**kw):
        note('h', sorted(map(str, kw.items())))
        return repr(sorted(kw.items()))

    app.route('/a/<x:int>/' + tag, 'GET', h)
    app.route('/d/<x:re:[%sab]+>' % tag, 'GET', h)
    app.route('/b/{y:float()}/<z:path>', 'GET', h, name='b' + tag)
    app.route('/c/:w/<v:re:\\d{2}>', ['GET', 'POST'], h)
    return app
