"""C02  Method dispatch: verb, HEAD->GET, ANY, 405 with exact Allow; 404 only if no route matches the path."""
import functools
import itertools

from ..core import Violation
from ..wsgi import app_for, environ, call

ID = 'C02'
TECHNIQUE = ('exhaustive enumeration of method-table edit histories on the real router/application (two overlapping routes plus '
             'one alias rule), every reached table probed with every request method and path over WSGI against a table model')
LEVEL_NOTE = ('all histories of up to 4 (quick) / 5 (thorough) of 24 operations, plus all pairs of the 64 method subsets of two '
              'overlapping routes; after each, 13 request methods x 6 paths (and 49 look-alike verbs over tables of look-alike verbs) through Ombott.__call__ and RadiRouter.resolve; tables of 1..300 methods on one route; six kinds of handler, 8 configurations')
RULE = 'handler = first registered of [verb, GET if HEAD, ANY] on the selected route; else 405 with the exact set in Allow'
ASSUMPTIONS = ['a route all of whose methods were removed is still registered and answers 405 with an empty method list']
BOUNDS = dict(quick='histories <= 4 operations out of 24 (depth 4 over the 15 main ones)', thorough='histories <= 4 out of 24, 5 over the 15 main ones')
HANG_S = 20.0

ALL = ['GET', 'HEAD', 'POST', 'PUT', 'ANY', 'PURGE']
REQ = ['GET', 'get', 'HEAD', 'head', 'HeAd', 'POST', 'post', 'PUT', 'OPTIONS', 'DELETE', 'PURGE', 'purge', 'ANY']
PATHS = ['/a', '/b', '/a/', '/a/b', '/', '/c/d']
# verbs that resemble the ones dispatch knows about
VERBS = ['GET', 'HEAD', 'ANY', 'EAD', 'HE', 'A', 'HEADS', 'GE', 'GETS', 'XGET', 'AN', 'ANYTHING', 'M-SEARCH', 'OPTIONS', 'HEAD-']
ODDREQ = VERBS + ['GET,HEAD', 'H', 'EA', 'D', 'ET', 'T', 'NY', 'Y', 'heads', 'eAd', 'AHEAD', 'HEA', 'HEADGET', 'GETHEAD', 'ANY ', ' GET', 'GET ', 'HEAD ', 'PATCH', 'CONNECT', 'TRACE', 'POST',
                  'PROXY', 'NONE', 'None', '*', '0', 'GET;HEAD', 'GET|ANY', 'G_E_T', '__GET__', 'm-search', 'POSTS', 'x' * 300]
MANY = ['DELETE', 'GET', 'OPTIONS', 'PATCH', 'POST', 'PUT', 'TRACE', 'CONNECT', 'LOCK', 'UNLOCK', 'PROPFIND', 'PROPPATCH', 'MKCOL', 'COPY', 'MOVE', 'SEARCH'] + [
    '%s%d' % ('XYM'[i % 3], i) for i in range(300)]
LIVE_REQ = ['GET', 'head', 'PUT', 'DELETE']
LIVE_PATHS = ['/a', '/b', '/c/d']
RULES = {'A': '/a', 'B': '/<x>', 'B2': '/<other>', 'C': '/c/<y>'}
PATTERN = {'A': 'A', 'B': 'B', 'B2': 'B', 'C': 'C'}

# (operation, rule, methods, how)
MAIN = [
    ('add', 'A', ['GET']), ('add', 'A', ['get', 'POST']), ('add', 'A', ['any']), ('add', 'A', ['HEAD']), ('ow', 'A', ['get']),
    ('rm', 'A', ['GET']), ('rm', 'A', ['get']), ('rm', 'A', ['ANY', 'head']),
    ('add', 'B', ['GET']), ('add', 'B', ['POST', 'ANY']), ('ow', 'B2', ['POST']), ('rm', 'B', ['post']),
    ('add', 'B2', ['head']), ('drop', 'A', []), ('rmo', 'A', ['GET']),
]
MORE = [
    ('add', 'A', ['purge']), ('set', 'A', ['Get', 'PUT']), ('addm', 'A', ['put']), ('addm', 'B', ['GET', 'PUT']), ('rmo', 'B', ['ANY']),
    ('drop', 'B', []), ('add', 'C', ['PUT']), ('ow', 'A', ['ANY', 'any', 'HEAD']), ('short', 'A', ['put']),
]
OPS = MAIN + MORE


class H:
    def __init__(self, tag, log):
        self.tag, self.log = tag, log
        self.__module__ = __name__
        self.__qualname__ = 'H%d' % tag

    def __call__(self, **kw):
        self.log.append((self.tag, kw))
        return 'x%d' % self.tag


class Falsy(H):
    """A callable whose truth value is false."""
    def __len__(self):
        return 0

    __hash__ = object.__hash__

    def __eq__(self, other):
        raise AssertionError('handlers have no equality')


class Method(H):
    def go(self, **kw):
        return H.__call__(self, **kw)


def make_handler(kind, tag, log):
    """The callables an application can register."""
    kind %= 6
    if kind == 0:
        return H(tag, log)
    if kind == 1:
        return Falsy(tag, log)
    if kind == 2:
        return Method(tag, log).go
    if kind == 3:
        h = H(tag, log)

        def fn(**kw):
            return h(**kw)
        return fn
    if kind == 4:
        h = H(tag, log)

        class Cls:
            """A class as handler: calling it makes the response."""
            def __new__(cls, **kw):
                return h(**kw)
        return Cls
    h = H(tag, log)
    f = functools.partial(h)
    return f


def select(path):
    p = path.strip('/')
    if p == 'a':
        return ['A', 'B']
    segs = p.split('/')
    if len(segs) == 2 and segs[0] == 'c':
        return ['C']
    return ['B'] if p and '/' not in p else []


def apply(app, model, op, tag, log, made, kind_of=0):
    """One operation on the application and on the model {pattern: {METHOD: (tag, rule)}}."""
    kind, rule, methods = op
    pat = PATTERN[rule]
    table = model.get(pat)
    ups = [m.upper() for m in methods]
    h = made[tag] = make_handler(kind_of + tag, tag, log)
    text = RULES[rule]
    exp_err = False
    if kind in ('add', 'short', 'addm'):
        if kind == 'addm' and table is None:
            return False
        exp_err = bool(table and set(ups) & set(table))
        if not exp_err:
            model.setdefault(pat, {}).update({m: (tag, rule if kind != 'addm' else None) for m in ups})
    elif kind in ('ow', 'set'):
        if kind == 'set' and table is None:
            return False
        model.setdefault(pat, {}).update({m: (tag, rule if kind != 'set' else None) for m in ups})
    elif kind in ('rm', 'rmo'):
        if table is None or kind == 'rmo' and ups[0] not in table:
            return False
        for m in ups:
            table.pop(m, None)
    elif kind == 'drop':
        if table is None:
            return False
        del model[pat]
    try:
        if kind == 'add':
            got = app.route(text, methods if len(methods) > 1 else methods[0])(h) if (tag + kind_of) % 2 else \
                app.route(text, methods if len(methods) > 1 else methods[0], h)
            if got is not h:
                raise Violation('route() as a decorator gives %r for %r' % (got, h))
        elif kind == 'short':
            getattr(app, methods[0].lower())(text)(h)
        elif kind == 'ow':
            app.add_route(text, methods, h, overwrite=True)
        elif kind == 'addm':
            app.router[{'rule': text}].add_method(methods if len(methods) > 1 else methods[0], h)
        elif kind == 'set':
            app.router[{'rule': text}].set_method(methods, h)
        elif kind == 'rm':
            app.router[{'rule': text}].remove_method(methods if len(methods) > 1 else methods[0])
        elif kind == 'rmo':
            app.router[{'rule': text}].methods[ups[0]].remove()
        elif kind == 'drop':
            app.remove_route(text)
    except Exception as e:   # noqa
        if not exp_err:
            raise Violation('%r raised %s: %s' % (op, type(e).__name__, e))
        return True
    if exp_err:
        raise Violation('%r was accepted although a method is registered already' % (op,))
    return True


def same_method(a, b):
    return hasattr(a, '__self__') and hasattr(b, '__self__') and a.__self__ is b.__self__ and a.__func__ is b.__func__


def probe(app, model, log, made, what, ctx, reqs=REQ, paths=PATHS):
    for path in paths:
        pats = [p for p in select(path) if p in model]
        for req in reqs:
            up = req.upper()
            cand = [up] + (['GET'] if up == 'HEAD' else []) + ['ANY']
            del log[:]
            r = call(app, environ(path, req))
            where = '%s %s after %s' % (req, path, what)
            if r.escaped or r.iter_error:
                raise Violation('%s raised %r' % (where, r.escaped or r.iter_error))
            ep, err = app.router.resolve(path, cand)
            if not pats:
                if r.code != 404 or log or r.header('Allow') is not None:
                    raise Violation('%s: no route matches, got %s Allow=%r called=%r' % (where, r.status, r.header('Allow'), log))
                if ep is not None or err[0] != 404:
                    raise Violation('%s: resolve gives %r %r for a path without route' % (where, ep, err[:2]))
                ctx.outcome('404')
                continue
            table = model[pats[0]]
            hit = next((m for m in cand if m in table), None)
            if hit is None:
                allow = r.header_all('Allow')
                got = {x.strip() for v in allow for x in v.split(',') if x.strip()}
                if r.code != 405 or log:
                    raise Violation('%s: expected 405, got %s called=%r (methods %s)' % (where, r.status, log, sorted(table)))
                if len(allow) != 1 and table or sorted(got) != sorted(table) or len([x for v in allow for x in v.split(',') if x.strip()]) != len(got):
                    raise Violation('%s: Allow is %r, registered are %s' % (where, allow, sorted(table)))
                if ep is not None or err[0] != 405:
                    raise Violation('%s: resolve gives %r %r instead of 405' % (where, ep, err[:2]))
                ctx.outcome('405')
                continue
            tag, rule = table[hit]
            if r.code != 200 or len(log) != 1 or log[0][0] != tag:
                raise Violation('%s: expected handler %d (%s), got %s called=%r' % (where, tag, hit, r.status, log))
            names = {'A': [], 'B': ['x'], 'B2': ['other'], 'C': ['y']}
            if rule is not None and sorted(log[0][1]) != names[rule]:
                raise Violation('%s: handler registered under %r called with %r' % (where, RULES[rule], log[0][1]))
            if r.body != (b'' if up == 'HEAD' else b'x%d' % tag):
                raise Violation('%s: body %r' % (where, r.body))
            if ep is None or ep[0].handler is not made[tag] and not same_method(ep[0].handler, made[tag]):
                raise Violation('%s: resolve gives %r %r' % (where, ep, err))
            ctx.outcome('verb' if hit == up else 'head-as-get' if hit == 'GET' else 'any')


def run_case(case, ctx):
    import ombott
    kind, arg = case[0], case[1]
    app = app_for(case)
    log = []
    model, made = {}, {}
    kind_of = sum(arg) if kind in ('hist', 'live') else arg[0] + arg[1] if kind == 'many' else len(arg[0]) + len(arg[1])
    if kind in ('hist', 'live'):
        for n, i in enumerate(arg):
            apply(app, model, OPS[i], n, log, made, kind_of)
            if kind == 'live':
                # requests between the edits: nothing may be remembered
                probe(app, model, log, made, [OPS[i] for i in arg[:n + 1]], ctx, LIVE_REQ, LIVE_PATHS)
                ctx.trans(len(LIVE_REQ) * len(LIVE_PATHS))
        what = [OPS[i] for i in arg]
    elif kind == 'many':
        n, step = arg
        names = [m.upper() for m in MANY[:n]]
        if step == 0:
            apply(app, model, ('add', 'A', names), 0, log, made, kind_of)
        else:
            for k in range(0, n, step):
                apply(app, model, ('add', 'A', names[k:k + step]), k, log, made, kind_of)
        apply(app, model, ('add', 'B', names[::-2]), n, log, made, kind_of)
        if step == 3 and n > 1:
            apply(app, model, ('rm', 'A', names[1::4]), n + 1, log, made, kind_of)
            apply(app, model, ('ow', 'B', names[::5]), n + 2, log, made, kind_of)
        ctx.state(('many', n, step))
        ctx.trans((n + 8) * 3)
        probe(app, model, log, made, '%d methods on A and half of them on B' % n, ctx, [names[0], names[-1], names[n // 2].lower(), 'GET', 'HEAD', 'NOPE', 'M-1', 'PUT'] + (names if n < 30 else []),
              ['/a', '/b', '/c/d'])
        return
    elif kind == 'verbs':
        a, b = arg
        for n, (rule, m) in enumerate([('A', m) for m in a] + [('B', m) for m in b]):
            apply(app, model, ('add', rule, [m if n % 2 else m.lower()]), n, log, made, kind_of)
        what = 'A=%s B=%s' % (a, b)
        ctx.state(('verbs', tuple(a), tuple(b)))
        ctx.trans(len(ODDREQ) * 3)
        probe(app, model, log, made, what, ctx, ODDREQ, ['/a', '/b', '/c/d'])
        return
    else:
        a, b, order = arg
        todo = [('A', a), ('B', b)]
        n = 0
        for rule, ms in (todo[::-1] if order else todo):
            for k, m in enumerate(ms[::-1] if order else ms):
                apply(app, model, ('add', rule if k % 2 == 0 or rule != 'B' else 'B2', [m.lower() if (n + order) % 2 else m]), n, log, made, kind_of)
                n += 1
        what = 'A=%s B=%s' % (a, b)
    key = tuple(sorted((p, tuple(sorted(t.items()))) for p, t in model.items()))
    ctx.state(key)
    ctx.trans(len(REQ) * len(PATHS))
    probe(app, model, log, made, what, ctx)


def cases(tier):
    subs = [list(c) for n in range(len(ALL) + 1) for c in itertools.combinations(ALL, n)]
    for a in subs:
        for b in subs:
            yield ('table', [a, b, (len(a) + len(b)) % 2])
    for n in list(range(1, 36)) + [64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 300]:
        for step in (0, 1, 3):
            yield ('many', [n, step])
    for n in (0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2):
        for a in itertools.combinations(VERBS, n):
            for b in ([], ['GET'], ['ANY'], ['EAD', 'HEAD']):
                yield ('verbs', [list(a), b])
    nm, n = len(MAIN), len(OPS)
    for d in range(1, 4):
        for h in itertools.product(range(n), repeat=d):
            if enabled(h):
                yield ('hist', list(h))
    for h in itertools.product(range(nm if tier != 'thorough' else n), repeat=4):
        if enabled(h):
            yield ('hist', list(h))
    if tier == 'thorough':
        for h in itertools.product(range(nm), repeat=5):
            if enabled(h):
                yield ('hist', list(h))
    for d in range(2, 4):
        for h in itertools.product(range(n), repeat=d):
            if enabled(h):
                yield ('live', list(h))
    for h in itertools.product(range(nm if tier != 'thorough' else n), repeat=4):
        if enabled(h):
            yield ('live', list(h))


def enabled(h):
    """Skip histories with an operation that applies to nothing (same as a shorter history)."""
    have = {}
    for i in h:
        kind, rule, ms = OPS[i]
        p = PATTERN[rule]
        ups = {m.upper() for m in ms}
        if kind in ('add', 'short'):
            t = have.setdefault(p, set())
            if not ups & t:
                t |= ups
        elif kind == 'ow':
            have.setdefault(p, set()).update(ups)
        elif p not in have:
            return False
        elif kind == 'addm':
            if not ups & have[p]:
                have[p] |= ups
        elif kind == 'set':
            have[p] |= ups
        elif kind == 'drop':
            del have[p]
        else:
            if not ups & have[p]:
                return False
            have[p] -= ups
    return True


NSHARD = 64


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.run(c)
