"""C10  Application objects in one process are independent of each other."""
import gc
import itertools
import threading

from .. import conc, sched
from ..core import Violation
from .c08 import in_child

ID = 'C10'
TECHNIQUE = ('explicit enumeration on the real code: every operation on other applications (serving every request kind, copying, constructing) nested at every observation point of '
             'every request kind, all merges of streamed bodies, and controlled-scheduler exploration (1 preemption, every line) of applications on several threads; '
             'each answer compared with the one of the request served alone')
LEVEL_NOTE = '39 + 26 request kinds x every observation point x 90 operations on 7 other applications, nesting depth 3; applications of 10 configurations made and dropped in all pairs and triples; thread schedules with 1 preemption'
RULE = 'status, headers, cookies, body and everything the handlers of an application saw are those of the request served alone on a fresh application'
ASSUMPTIONS = ['operations of the statement: serving, copying, constructing (and the registration that goes with it)', 'a call of an application out of its own handler on the same thread '
               'is outside the property']
BOUNDS = dict(quick='nesting at every observation point: depth 2 for all pairs of kinds, depth 3 for 8 kinds; all merges of 2 streamed bodies; threads: line granularity for equal kinds '
                    'and construction, call granularity for 6 partners',
              thorough='+ every pair of applications, depth 3 for 14 kinds, merges of 3 bodies, threads at line granularity for 8 partners, 2 preemptions for 4 pairs')
HANG_S = 60.0

K1 = conc.KINDS
_apps = {}
_base = {}


def prepare():
    conc.make_files()
    gc.collect()
    gc.freeze()
    for k in K1 + conc.DEFAULT_ONLY:
        for t in 'ABC':
            alone('default', k, t)      # before anybody uses it


def cleanup():
    conc.drop_files()


VARIANTS = ['app', 'app2', 'default', 'debug', 'threadmade', 'sub']


def make(variant):
    import ombott
    from .. import conc_app
    if variant == 'app2':
        return conc_app.build(ombott.Ombott(dict(max_body_size=20, max_memfile_size=10)), 'two', conc.FILES)
    if variant == 'threadmade':
        return conc.on_thread(lambda: conc.new_app('app', 'thr'))
    if variant == 'sub':
        class App(ombott.Ombott):
            pass
        return conc_app.build(App(), 'sub', conc.FILES)
    return conc.new_app(variant, variant)


def app_of(variant):
    if variant not in _apps:
        _apps[variant] = make(variant)
    return _apps[variant]


class Input:
    """wsgi.input whose reads are observation points"""

    def __init__(self, f):
        self.f = f

    def read(self, *a):
        conc.note('read')
        return self.f.read(*a)

    def readline(self, *a):
        conc.note('readline')
        return self.f.readline(*a)


def env_of(kind, tag):
    e = conc.request(kind, tag)
    e['wsgi.input'] = Input(e['wsgi.input'])
    return e


def alone(variant, kind, tag):
    key = variant, kind, tag
    if key not in _base:
        _base[key] = in_child(lambda: conc.serve(make(variant), env_of(kind, tag)))
    return _base[key]


def masked(r):
    return [(s, [h for h in hs if h[0] != 'Content-Length'], x) for s, hs, x in r[0]], len(r[1]) > 0, r[2], r[3], r[4]


def check(got, variant, kind, tag, what):
    want = alone(variant, kind, tag)
    if variant == 'debug' and kind.startswith(('crash', 'genfail', 'copy', 'badhdr')):
        # the traceback of a call inside an exception handler shows that exception as well
        got, want = masked(got), masked(want)
    if got != want:
        raise Violation('application %r, request %r: %s -- while %s' % (variant, (kind, tag), conc.diff(got, want), what))


PENDING = []


# ---- operations on other applications
def op_run(op, outer, ctx):
    try:
        op_run_(op, outer, ctx)
    except Violation as v:
        # the application around would turn it into an error page
        PENDING.append(v)
    except Exception as e:
        PENDING.append(Violation('%r during a request of %r: %s: %s' % (op, outer, type(e).__name__, e)))


def op_run_(op, outer, ctx):
    """outer: variant of the application whose handler is running"""
    import ombott
    name = op[0]
    if name == 'serve':
        _, variant, kind, tag = op
        check(conc.serve(app_of(variant), env_of(kind, tag)), variant, kind, tag, 'nested in %r' % outer)
        ctx.trans()
    elif name == 'deep':
        # at every observation point of the second application a third one serves
        _, variant, kind, tag, third = op
        check(conc.serve(app_of(variant), env_of(kind, tag), lambda i: op_run(third, variant, ctx)), variant, kind, tag, 'nested in %r' % outer)
    elif name == 'thread':
        _, variant, kind, tag = op
        check(conc.on_thread(lambda: conc.serve(app_of(variant), env_of(kind, tag))), variant, kind, tag, 'on a thread during %r' % outer)
    elif name == 'start':
        # a streamed answer that is begun here and never finished
        _, variant, kind, tag = op
        g = conc.serve_steps(app_of(variant), env_of(kind, tag))
        old = conc.LOCAL.log, conc.LOCAL.hook
        conc.LOCAL.log, conc.LOCAL.hook = [], None
        try:
            next(g, None)
            next(g, None)
            if op[-1] == 'B':
                g.close()
        finally:
            conc.LOCAL.log, conc.LOCAL.hook = old
    elif name == 'copy':
        rq = app_of(outer).request
        c = rq.copy()
        c['QUERY_STRING'] = 'q=Z'
        c['PATH_INFO'] = '/zz'
        c['HTTP_X_IN'] = 'zz'
        c['HTTP_COOKIE'] = 'c=Z'
        c.mine = 'Z'
        c.user = 'Z'
        if (c.query.get('q'), c.path, c.headers.get('X-In'), c.get_cookie('c'), c.mine) != ('Z', '/zz', 'zz', 'Z', 'Z'):
            raise Violation('a request copy does not show what was set: %r' % ((c.query.get('q'), c.path, c.headers.get('X-In'), c.get_cookie('c')),))
        d = c.copy()
        d['QUERY_STRING'] = 'q=Y'
        if c.query.get('q') != 'Z' or d.query.get('q') != 'Y':
            raise Violation('copies of a request are not independent')
    elif name == 'copykept':
        # copies made at different times, read later
        keep = [app_of(outer).request.copy() for _ in range(3)]
        for n, c in enumerate(keep):
            c['QUERY_STRING'] = 'q=%d' % n
        if [c.query.get('q') for c in keep] != ['0', '1', '2']:
            raise Violation('copies of a request show %r' % [c.query.get('q') for c in keep])
    elif name == 'new':
        a = ombott.Ombott()
        a.route('/', 'GET', lambda: 'x')
        a.setup(dict(max_body_size=1, max_memfile_size=1, debug=True))
    elif name == 'newserve':
        v = op[1]
        check(conc.serve(make(v), env_of(op[2], op[3])), v, op[2], op[3], 'constructed during %r' % outer)
    elif name == 'churn':
        # applications come and go
        for n in range(4):
            a = make(op[1])
            check(conc.serve(a, env_of(op[2], 'ABC'[n % 3])), op[1], op[2], 'ABC'[n % 3], 'constructed during %r' % outer)
            del a
        gc.collect()
    elif name == 'request':
        from ombott.request_pkg import Request
        r = Request(env_of('full', 'C'))
        s = Request({'QUERY_STRING': 'q=S', 'PATH_INFO': '/s'})
        t = Request()
        r['QUERY_STRING'] = 'q=R'
        if (r.query.get('q'), s.query.get('q'), s.path, r.path, dict(t.query)) != ('R', 'S', '/s', '/full/C', {}):
            raise Violation('request objects show %r' % ((r.query.get('q'), s.query.get('q'), s.path, r.path, dict(t.query)),))
        s.__init__({'QUERY_STRING': 'q=T'})
        if (r.query.get('q'), s.query.get('q')) != ('R', 'T'):
            raise Violation('request objects show %r' % ((r.query.get('q'), s.query.get('q')),))
    elif name == 'response':
        from ombott.response import Response, HTTPResponse, HTTPError
        r, s = Response(), Response()
        h, e = HTTPResponse('h', 201, X_H='h'), HTTPError(404, 'e')
        r.status = 299
        r.headers['X-Zz'] = 'zz'
        r.set_cookie('zz', 'zz')
        r.body = 'zz'
        h.headers['X-H2'] = '2'
        h.set_cookie('hh', 'h')
        s.__init__()
        got = r.status, sorted(r.headers.items()), r.body, s.status, sorted(s.headers.items()), h.status, sorted(h.headers.items()), sorted(e.headers.items()), e.status
        want = ('299 Unknown', [('X-Zz', 'zz')], 'zz', '200 OK', [], '201 Created', [('X-H', 'h'), ('X-H2', '2')], [], '404 Not Found')
        if got != want:
            raise Violation('response objects show %r' % (got,))
    elif name == 'rcopy':
        from ombott.response import HTTPResponse
        c = app_of(outer).response.copy(cls=HTTPResponse)
        c.headers['X-Zz'] = 'zz'
        c.headers.append('X-Multi', 'zz')
        c.status = 299
        c.set_cookie('zz', 'z')
        h = app_of(outer).response.headers.copy()
        h.append('X-B', 'zz')
    elif name == 'many':
        apps = [ombott.Ombott() for _ in range(20)]
        for a in apps:
            a.add_hook('before_request', lambda: 1 / 0)
            a.error(404)(lambda r: 'other')
            a.error(500)(lambda r: 'other')
    elif name == 'setup':
        app_of(op[1]).setup(dict(conc.CONF))
    else:
        raise KeyError(name)
    ctx.count('op ' + name)


def others(outer):
    """every operation there is, for an application of this variant"""
    out = [('copy',), ('copykept',), ('new',), ('request',), ('response',), ('rcopy',), ('many',), ('setup', 'app' if outer != 'app' else 'default')]
    for v in VARIANTS:
        if v != outer:
            out.append(('deep', v, 'full', 'B', ('copy',)))
            for k in ('full', 'crash', 'gen', 'triedbig', 'undec', 'signed'):
                out.append(('serve', v, k, 'B'))
    for v in ('app', 'sub'):
        out.append(('newserve', v, 'full', 'B'))
        out.append(('newserve', v, '404json', 'A'))
        out.append(('newserve', v, 'upload', 'C'))
    out.append(('churn', 'app', 'hdr'))
    v = 'app2' if outer != 'app2' else 'app'
    for k in ('full', 'gen', 'sherr'):
        out.append(('thread', v, k, 'B'))
        out.append(('start', v, k, 'A'))
        out.append(('start', v, k, 'B'))
    return out


def points_of(variant, kind, tag):
    return len(alone(variant, kind, tag)[3])


def nested(variant, kind, tag, op, ctx, at=None):
    n = points_of(variant, kind, tag)
    for i in ([0] if at == 'all' else range(1, n + 1)):
        def hook(j):
            if i in (0, j):
                op_run(op, variant, ctx)
        del PENDING[:]
        got = conc.serve(app_of(variant), env_of(kind, tag), hook)
        if PENDING:
            raise PENDING[0]
        check(got, variant, kind, tag, '%r at its observation point %s' % (op, i or 'each'))
        ctx.trans()


def merges(n, m):
    for c in itertools.combinations(range(n + m), n):
        c = set(c)
        yield [0 if i in c else 1 for i in range(n + m)]


def merges3(a, b, c):
    def rec(x, y, z):
        if not (x or y or z):
            yield []
            return
        for i, r in enumerate(((x - 1, y, z), (x, y - 1, z), (x, y, z - 1))):
            if min(r) >= 0:
                for t in rec(*r):
                    yield [i] + t
    return rec(a, b, c)


def steps(variant, kind, tag):
    g = conc.serve_steps(app_of(variant), env_of(kind, tag))
    return sum(1 for _ in g)


def run_merge(reqs, order):
    envs = [env_of(k, t) for v, k, t in reqs]
    gens = [conc.serve_steps(app_of(v), env) for (v, k, t), env in zip(reqs, envs)]
    logs = [[] for _ in reqs]
    out = [None] * len(reqs)
    for i in order:
        conc.LOCAL.log, conc.LOCAL.hook = logs[i], None
        try:
            next(gens[i])
        except StopIteration as s:
            out[i] = s.value + (logs[i], conc.left(envs[i]))
        finally:
            conc.LOCAL.log = None
    return out


_sched = {}


def scheduler(kind):
    if kind not in _sched:
        _sched[kind] = sched.Sched(conc.traced(kind))
    return _sched[kind]


# the last two share a position: their filters have to be one and the same
RULES = ['/a/<x:int>/%(t)s', '/c/{y:float()}/<z:re:[%(t)sab]+>', '/d/<w:re:[pq]+>/1', '/d/<w:re:[pq]+>/2']


# a filter nobody has used before, for each execution
FRESH = ['/<w:re:[pq]+|z%d>/1', '/<w:re:[pq]+|z%d>/2']
_fresh = [0]


def rule_answers(app, t):
    if t is FRESH:
        return [conc.serve(app, conc.environ(p)) for p in ('/pq/1', '/q/2', '/p/3', '/x/1')]
    return [conc.serve(app, conc.environ(p)) for p in ('/a/12/' + t, '/a/x/' + t, '/a/-3/' + t, '/c/1.5/%sa' % t, '/c/1/xy', '/c/1/x', '/c/x/x', '/d/pq/1', '/d/q/2', '/d/x/1')]


def job(j):
    """What one thread does -> (callable, what must come of it)"""
    import ombott
    if j[0] == 'req':
        _, v, k, t = j
        app = app_of(v)
        env = env_of(k, t)
        return lambda: conc.serve(app, env), alone(v, k, t)
    if j[0] == 'build':
        _, v, k, t = j
        env = env_of(k, t)
        return lambda: conc.serve(make(v), env), alone(v, k, t)
    if j[0] == 'define':
        from .. import conc_app
        t = j[1]

        def fn():
            app = conc_app.define(ombott.Ombott(), t)
            out = []
            for p in ('/a/12/' + t, '/d/' + t + 'ab', '/a/12/x', '/b/1.5/x/' + t, '/b/x/y', '/c/w/42', '/c/w/4'):
                e = conc.environ(p)
                out.append(conc.serve(app, e))
            out.append(sorted(str(r.rule) for r in app.routes.values()) if hasattr(app.routes, 'values') else '')
            return out
        key = ('define', t)
        if key not in _base:
            _base[key] = in_child(fn)
        return fn, _base[key]
    if j[0] == 'rule':
        # registration only: what it led to is looked at by one thread
        t = j[1]

        def fn():
            app = ombott.Ombott()
            for r in RULES:
                app.route(r % dict(t=t), 'GET', lambda **kw: repr(sorted(kw.items())))
            return app
        key = ('rule', t)
        if key not in _base:
            _base[key] = in_child(lambda: rule_answers(fn(), t))
        return fn, _base[key]
    if j[0] == 'fresh':
        specs = [r % _fresh[0] for r in FRESH]

        def fn():
            app = ombott.Ombott()
            for r in specs:
                app.route(r, 'GET', lambda **kw: repr(sorted(kw.items())))
            return app
        if 'fresh' not in _base:
            specs_now, specs = specs, [r.replace('%d', 'r') for r in FRESH]
            _base['fresh'] = in_child(lambda: rule_answers(fn(), FRESH))
            specs = specs_now
        return fn, _base['fresh']
    if j[0] == 'objects':
        class C:
            count = trans = staticmethod(lambda *a: None)
        return lambda: (op_run_(('request',), 'app', C), op_run_(('response',), 'app', C))[0], None
    raise KeyError(j)


def once(grain, jobs, segs):
    _fresh[0] += 1
    pairs = [job(j) for j in jobs]
    r = scheduler(grain).run([p[0] for p in pairs], segs)
    for i, (v, (_, want)) in enumerate(zip(r.values, pairs)):
        if v[0] != 'ok':
            raise Violation('thread %d of %r, schedule %r: %r' % (i, jobs, segs, v))
        got = v[1]
        if jobs[i][0] in ('rule', 'fresh'):
            got = rule_answers(got, jobs[i][1] if jobs[i][0] == 'rule' else FRESH)
        if got != want:
            a, b = got, want
            if isinstance(a, list):
                a, b = [(x, y) for x, y in zip(a, b) if x != y][0]
            raise Violation('%r on thread %d while %r, schedule %r: %s' % (jobs[i], i, [q for n, q in enumerate(jobs) if n != i], segs, conc.diff(a, b)))
    return r


def explore(grain, jobs, bound, ctx, cold=False, segs=(), first=None, lo=1, step=1):
    """-> False when an earlier segment was not used up"""
    for a in (range(len(jobs)) if first is None else (first,)):
        k = lo
        while True:
            ctx.rearm()
            cut = False
            for b in range(len(jobs)):
                if b == a:
                    continue
                s = list(segs) + [(a, k)]
                if bound > 1:
                    if not explore(grain, jobs, bound - 1, ctx, cold, s, b):
                        cut = True
                        break
                else:
                    def go():
                        r = once(grain, jobs, s + [(b, None)])
                        return r.early, sum(r.points), r.stalls
                    early, pts, stalls = in_child(go) if cold else go()
                    ctx.trans(pts)
                    ctx.count('schedules')
                    if stalls:
                        ctx.count('blocked')
                    if early and early <= len(segs):
                        return False
                    if early == len(segs) + 1:
                        cut = True
                        break
            if cut:
                break
            k += step
        if first is not None:
            return k > lo
    return True


def run_case(case, ctx):
    kind = case[0]
    if kind == 'nest':
        _, variant, k, op = case
        nested(variant, k, 'A', op, ctx)
    elif kind == 'nestall':
        _, variant, k, op = case
        nested(variant, k, 'A', op, ctx, 'all')
    elif kind == 'merge':
        reqs = case[1]
        ns = [steps(*r) + 1 for r in reqs]
        for order in (merges(*ns) if len(ns) == 2 else merges3(*ns)):
            ctx.rearm()
            out = run_merge(reqs, order)
            for o, (v, k, t) in zip(out, reqs):
                check(o, v, k, t, 'merged with %r, order %r' % (reqs, order))
            ctx.trans(len(order))
    elif kind == 'lives':
        _, seq, keep, where = case
        lives(seq, keep, where, ctx)
    elif kind == 'sched':
        _, grain, jobs, bound = case
        explore(grain, jobs, bound, ctx)
    elif kind == 'schedpart':
        _, grain, jobs, bound, lo, step = case
        explore(grain, jobs, bound, ctx, lo=lo, step=step)
    elif kind == 'coldpart':
        _, grain, jobs, bound, lo, step = case
        explore(grain, jobs, bound, ctx, True, lo=lo, step=step)
    ctx.state(case)
    ctx.outcome(kind)


# ---- applications that come and go, each with a configuration of its own
LIFE = ['none', 'empty', 'small', 'mem', 'debug', 'nocatch', 'map', 'name', 'errs', 'script']


def life_config(c):
    import ombott
    from ombott.request_pkg import errors
    return {
        'none': None, 'empty': {}, 'small': dict(max_body_size=4), 'mem': dict(max_memfile_size=4), 'debug': dict(debug=True), 'nocatch': dict(catchall=False),
        'map': dict(domain_map=lambda host: 'dom'), 'name': dict(domain_map=lambda host: host[0], app_name_header='HTTP_X_APP'),
        'errs': dict(max_body_size=5, errors_map={errors.RequestError: ombott.HTTPError(418, 'r'), errors.BodySizeError: ombott.HTTPError(419, 's')}),
        'script': dict(allow_x_script_name=True),
    }[c]


def life(c, late=False):
    """An application with this configuration and what it answers"""
    import ombott
    cf = life_config(c)
    if late:
        app = ombott.Ombott()
        app.setup(cf)
    else:
        app = ombott.Ombott(cf)
    rq = app.request

    def body():
        conc.note('b', type(rq.body).__name__, rq.body.read())
        return rq.body

    def where(x=''):
        # a code of one's own, with a phrase or without one
        app.response.status = '599 Of %s' % c if LIFE.index(c) % 2 else 599
        conc.note('w', rq.path, rq.script_name, rq.url, rq.get('HTTP_X_APP'), rq.environ.get('HTTP_X_APP'), app.response.status)
        return rq.fullpath
    app.route('/w', 'GET', where)
    app.route('/dom/w', 'GET', where)
    app.route('/A/w', 'GET', where)
    app.route('/b', ['POST'], body)
    app.route('/dom/b', 'POST', body)
    app.route('/c', 'GET', lambda: 1 // 0)
    h = {'Host': 'A.h', 'X-Script-Name': '/pre', 'X-App': 'own'}
    out = []
    for e in (conc.environ('/w', headers=h), conc.environ('/c'), conc.environ('/none', headers=h), conc.environ('/b', 'POST', body=b'123456'), conc.environ('/b', 'POST', body=b'12345'),
              conc.environ('/b', 'POST', body=b'zz', headers={'Transfer-Encoding': 'chunked'}), conc.environ('/w')):
        r = conc.serve(app, e)
        out.append(r if c != 'debug' or r[0][0][0][:3] != '500' else masked(r))
    return app, out


def lives(seq, keep, where, ctx):
    kept = []
    for n, (c, late) in enumerate(seq):
        if ('life', c) not in _base:
            _base['life', c] = in_child(lambda: life(c)[1])
        app, got = conc.on_thread(lambda: life(c, late)) if where == 'thread' else life(c, late)
        if got != _base['life', c]:
            a, b = [(x, y) for x, y in zip(got, _base['life', c]) if x != y][0]
            raise Violation('application %d of %r (%s, %s): %s' % (n + 1, seq, 'kept' if keep else 'each is dropped before the next', where, conc.diff(a, b)))
        if keep:
            kept.append((app, c))
        del app
        ctx.trans()
        if not keep:
            gc.collect()


DEEP = ['full', 'gen', 'crash', 'undec', 'signed', 'edit', 'sherr', '404json']


def cases(tier):
    th = tier == 'thorough'
    # nested: every operation at every observation point of every kind
    for v in VARIANTS if th else ('app', 'default'):
        for k in K1 + (conc.DEFAULT_ONLY if v == 'default' else []):
            for op in others(v):
                yield ('nest', v, k, op)
    # every pair of kinds
    for v, w in (itertools.permutations(VARIANTS, 2) if th else (('app', 'app2'), ('app2', 'app'), ('app', 'default'), ('default', 'sub'))):
        for k in K1:
            for m in K1:
                yield ('nestall', v, k, ('serve', w, m, 'B'))
    # applications with nothing set up and handlers that look at nothing, in all pairs; and with the others
    for a in conc.QUIET:
        for b in conc.QUIET:
            yield ('nestall', 'quiet', a, ('serve', 'quiet2', b, 'B'))
        for m in K1:
            yield ('nestall', 'app', m, ('serve', 'quiet', a, 'B'))
            yield ('nestall', 'quiet', a, ('serve', 'app', m, 'B'))
        for op in others('quiet'):
            yield ('nest', 'quiet', a, op)
        yield ('sched', 'line', (('req', 'quiet', a, 'A'), ('req', 'quiet2', a, 'B')), 1)
        for b in conc.QUIET if th else ('q-nothing', 'q-rawhdr', '404'):
            if a != b:
                yield ('sched', 'call', (('req', 'quiet', a, 'A'), ('req', 'quiet2', b, 'B')), 1)
    # applications one after another: all pairs taking turns, all triples
    letters = [(c, late) for c in LIFE for late in (False, True)]
    for a, b in itertools.product(letters, repeat=2):
        for where in ('main', 'thread'):
            for keep in (True, False):
                yield ('lives', (a, b) * 3, keep, where)
    for s in itertools.product(letters if th else [(c, False) for c in LIFE], repeat=3):
        for keep in (True, False):
            yield ('lives', s, keep, 'main')
    # depth 3
    deep = DEEP if not th else DEEP + ['form', 'upload', 'copy', 'wrapped', 'badhdr', 'big']
    for v, w, x in (('app', 'default', 'app2'), ('debug', 'app', 'sub'), ('default', 'threadmade', 'app')):
        for k in deep:
            for m in deep:
                for o in ('full', 'crash', 'gen', '404json'):
                    yield ('nest', v, k, ('deep', w, m, 'B', ('serve', x, o, 'C')))
                yield ('nest', v, k, ('deep', w, m, 'B', ('newserve', 'app', 'full', 'C')))
                yield ('nest', v, k, ('deep', w, m, 'B', ('copy',)))
    # streamed bodies on one thread
    stream = ['gen', 'genfail', 'file', 'wrapper', 'chunk', 'full']
    for v, w in (('app', 'app2'), ('app', 'default'), ('sub', 'app')):
        for k in stream:
            for m in K1:
                yield ('merge', ((v, k, 'A'), (w, m, 'B')))
    for k, m, o in itertools.product(stream[:3] + (['full'] if th else []), repeat=3):
        yield ('merge', (('app', k, 'A'), ('app2', m, 'B'), ('default', o, 'C')))
    # threads
    for k in K1:
        yield ('sched', 'line', (('req', 'app', k, 'A'), ('req', 'app2', k, 'B')), 1)
    partners = ['full', 'crash', 'gen', 'upload']
    for k in K1:
        for m in partners + (['undec', 'edit'] if th else []):
            yield ('sched', 'line' if th else 'call', (('req', 'default', k, 'A'), ('req', 'app', m, 'B')), 1)
    for k in ('full', 'crash', 'upload', 'gen', 'signed', '404'):
        yield ('sched', 'call', (('req', 'app', k, 'A'), ('build', 'bare', 'plain', 'B')), 1)
        if th:
            for lo in range(1, 17):
                yield ('schedpart', 'call', (('req', 'app', k, 'A'), ('build', 'app', 'full', 'B')), 1, lo, 16)
        yield ('sched', 'line', (('req', 'app', k, 'A'), ('objects',)), 1)
    yield ('sched', 'call', (('build', 'bare', 'plain', 'A'), ('build', 'bare', 'plain', 'B')), 1)
    if th:
        for lo in range(1, 17):
            yield ('schedpart', 'call', (('build', 'app', 'hdr', 'A'), ('build', 'sub', 'full', 'B')), 1, lo, 16)
    for lo in range(1, 9):
        yield ('coldpart', 'line', (('rule', 'x'), ('rule', 'x')), 1, lo, 8)
        yield ('coldpart', 'line', (('rule', 'x'), ('rule', 'y')), 1, lo, 8)
        yield ('schedpart', 'line', (('rule', 'x'), ('rule', 'y')), 1, lo, 8)
        for k in ('404', '404json', 'crash', 'upload', 'signed', 'form') + (('full', 'gen', 'badjson', 'hdr', 'args') if th else ()):
            yield ('coldpart', 'line', (('req', 'app', k, 'A'), ('req', 'app2', k, 'B')), 1, lo, 8)
        yield ('schedpart', 'line', (('rule', 'x'), ('req', 'app', 'args', 'B')), 1, lo, 8)
    for lo in range(1, 17):
        yield ('schedpart', 'call', (('fresh',), ('fresh',)), 2, lo, 16)
        yield ('schedpart', 'line', (('fresh',), ('fresh',)), 1, lo, 16)
    if th:
        for lo in range(1, 33):
            yield ('schedpart', 'call', (('fresh',), ('fresh',), ('fresh',)), 2, lo, 32)
        for lo in range(1, 65):
            yield ('schedpart', 'line', (('define', 'x'), ('define', 'y')), 1, lo, 64)
            yield ('schedpart', 'line', (('define', 'x'), ('req', 'app', 'args', 'B')), 1, lo, 64)
            yield ('coldpart', 'line', (('define', 'x'), ('define', 'x')), 1, lo, 64)
    yield ('sched', 'line', (('objects',), ('objects',)), 1)
    for t in (('full', 'full', 'full'), ('gen', 'crash', 'full')):
        yield ('sched', 'line' if th else 'call', (('req', 'app', t[0], 'A'), ('req', 'app2', t[1], 'B'), ('req', 'default', t[2], 'C')), 1)
    if th:
        for a, b in (('full', 'full'), ('gen', 'full'), ('sherr', 'crash'), ('copy', 'copy')):
            for lo in range(1, 33):
                yield ('schedpart', 'call', (('req', 'app', a, 'A'), ('req', 'app2', b, 'B')), 2, lo, 32)
        for lo in range(1, 33):
            yield ('schedpart', 'call', (('rule', 'x'), ('rule', 'y')), 2, lo, 32)
            yield ('coldpart', 'call', (('rule', 'x'), ('rule', 'x')), 2, lo, 32)


NSHARD = 96
NCOLD = 12


def shards(tier):
    # first use: in processes that have run nothing else
    return [dict(cold=i) for i in range(NCOLD)] + [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    cold = 'cold' in shard
    i, n = (shard['cold'], NCOLD) if cold else (shard['i'], NSHARD)
    mine = [c for c in cases(ctx.tier) if (c[0] == 'coldpart') == cold]
    for c in mine[i::n]:
        ctx.run(c)
