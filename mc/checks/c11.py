"""C11  The router after any edit history equals a freshly built router.

Explicit-state search: the states are real RadiRouter objects (merged on a canonical form of their whole object graph plus
the model state), the transitions are public edit operations.  Small universes are searched to the fixpoint, i.e. for edit
histories of every length."""
import itertools

from ..canon import canon
from ..core import Violation, h64
from ..router_model import L, W, spell, pattern_key, shape, match, named, best, conflict
from ..wsgi import environ, call

ID = 'C11'
TECHNIQUE = ('explicit-state model checking of the real router: breadth-first search over edit operations with merging of equal '
             'object graphs, to the fixpoint; every reached state compared with a reference model and with a freshly built router')
LEVEL_NOTE = ('every 3-rule universe out of 16 rules (quick; 4-rule universes in thorough) x hook sets x names, the universes again in 15 other alphabets (characters that mean something to a pattern language or that normalisation conflates), all edit '
              'histories of any length (fixpoint), each state probed on ~60 paths, names, rules and through WSGI')
RULE = 'resolve/hooks/lookups after a history = those of a router built from the survivors'
ASSUMPTIONS = [
    'hooks under a prefix removed by wildcard survive (prefix removal is specified for routes only)',
    'a removal names the rule with the filters it was registered with',
    'the insertion counter (WEIGHT) of a tree node is ignored when states are merged: nothing reads it',
    'rule texts do not end with "/" (hook rules may) and contain no literal CR',
]
HANG_S = 120.0
BOUNDS = dict(quick='560 three-rule universes + 8 larger ones, each to the fixpoint (or 6000 states)',
              thorough='1820 four-rule universes + larger ones, each to the fixpoint (or 30000 states)')


def T(*ts):
    return tuple(L(t) if isinstance(t, str) else t for t in ts)


X, Y, Z, XI = W('x'), W('y'), W('z'), W('x', 'int')
POOL = [
    T(), T('a'), T('ab'), T('abc'), T('abd'), T('a/b'), T(X), T('a', X), T('a/', X), T('a/', X, '/c'), T('a/', XI), T(X, '/b'),
    T(X, '/', Y), T('ab', X, 'c'), T(Y), T('ab*'),
]
HOOKS = [T(), T('a'), T('ab'), T('a/'), T('a/', X), T(X), T('ab', X), T('a/', XI), T('abc'), T(X, '/')]
HOOKSETS = [(1, 2), (4, 1), (5, 0), (2, 8), (3, 4), (7, 1), (6, 2), (9, 5)]
PREFIXES = [T(), T('a'), T('ab'), T('a/'), T('a/', X), T(X)]

PATHS = ['', 'a', 'ab', 'abc', 'abd', 'abe', 'abcd', 'b', 'a/b', 'a/c', 'a/1', 'a/1/c', 'a/b/c', 'a/b/d', 'b/b', 'b/c', 'ac',
         'abxc', 'abc/b', 'ab/b', 'ab/c', 'a/', 'ab*', 'ab*/b', '1', '1/b', 'abbc', 'abcc', 'a/bb', 'a//b', 'ab1c', 'a/1/b',
         'a1', 'abx', 'c/b/d', 'x']
_m = {}
# the same universes spelled with other letters: characters that mean something to some pattern language, that some
# normalisation, case folding or quoting conflates, or that need more than one byte
LETTERS = [{}, {'a': '?', 'b': '[', 'c': ']'}, {'a': '.', 'b': '+', 'c': '('}, {'a': '$', 'b': '^', 'c': '|'}, {'a': 'é', 'b': 'e\u0301', 'c': 'E'},
           {'a': 'A', 'b': 'a', 'c': 'B'}, {'a': '%', 'b': 's', 'c': '('}, {'a': '~', 'b': '!', 'c': '#'}, {'a': '-', 'b': ']', 'c': '['},
           {'a': ' ', 'b': '+', 'c': '%20'}, {'a': '\\', 'b': 'd', 'c': '\n'}, {'a': '\U0001f600', 'b': '\ufb01', 'c': 'fi'}, {'a': '1', 'b': '0', 'c': '-1'},
           {'a': 'ab', 'b': 'a', 'c': 'b'}, {'a': '*b', 'b': 'b*b', 'c': '*c'}, {'a': '.', 'b': '..', 'c': '\x00'}]


def spelled(rule, m):
    return tuple(('L', translate(t[1], m)) if t[0] == 'L' else t for t in rule)


def translate(text, m):
    return ''.join(m.get(c, c) for c in text)


def matches(rule, path):
    k = (rule, path)
    if k not in _m:
        _m[k] = match(rule, path)
    return _m[k]


class H:
    def __init__(self, tag):
        self.tag = tag
        self.__module__ = __name__
        self.__qualname__ = 'H_%s' % (tag,)
        self.calls = None

    def __call__(self, *a, **kw):
        CALLS.append((self.tag, a, kw))
        return 'h'


CALLS = []
_handlers = {}


def handler(tag):
    return _handlers.setdefault(tag, H(tag))


def label(o):
    return o.tag if isinstance(o, H) else None


def skip(o):
    # a tree node carries a counter of insertions that nothing reads (WEIGHT) and that would keep states apart for ever
    return (2,) if len(o) >= 8 and isinstance(o[0], str) and type(o[2]) is int else ()


# --------------------------------------------------------------------------- model
class Model:
    """routes: key -> (key, first rule, {method: (tag, rule)}); names: name -> key; hooks: key -> (key, rule, [s, p])

    A key is the pattern with the filters: rules that differ in a filter are different rules."""
    def __init__(self, routes=None, names=None, hooks=None):
        self.routes = routes or {}
        self.names = names or {}
        self.hooks = hooks or {}

    def copy(self):
        return Model({k: (a, b, dict(c)) for k, (a, b, c) in self.routes.items()}, dict(self.names),
                     {k: (a, b, list(c)) for k, (a, b, c) in self.hooks.items()})

    def key(self):
        return repr((sorted(repr((k, b, sorted(c.items()))) for k, (a, b, c) in self.routes.items()), sorted(self.names.items()),
                     sorted(repr((k, b, c)) for k, (a, b, c) in self.hooks.items())))

    def enabled(self, op):
        k = op[0]
        if k == 'rmname':
            return op[1] in self.names
        if k == 'rm':
            return not self.rival(self.routes, op[1]) and not spell(op[1]).endswith('*')
        if k == 'unhook':
            return not self.rival(self.hooks, op[1])
        return True

    @staticmethod
    def rival(table, rule):
        """Is there an entry that differs from this rule in the filters only?"""
        k, s = pattern_key(rule), shape(rule)
        return k not in table and any(shape(r) == s for _, r, _ in table.values())

    def apply(self, op):
        """The effect of an accepted operation."""
        k = op[0]
        if k == 'add':
            _, rule, meth, name, ow, tag = op
            s = pattern_key(rule)
            if s not in self.routes:
                self.routes[s] = (pattern_key(rule), rule, {})
            self.routes[s][2][meth] = (tag, rule)
            if name:
                self.names[name] = s
        elif k == 'rm':
            self._drop({pattern_key(op[1])})
        elif k == 'rmname':
            self._drop({self.names[op[1]]})
        elif k == 'rmpre':
            p = shape(op[1])
            self._drop({k for k, (_, r, _) in self.routes.items() if shape(r)[:len(p)] == p})
        elif k == 'hook':
            _, rule, typ, tag = op
            s = pattern_key(rule)
            if s not in self.hooks:
                self.hooks[s] = (pattern_key(rule), rule, [None, None])
            self.hooks[s][2][typ] = tag
        elif k == 'unhook':
            self.hooks.pop(pattern_key(op[1]), None)

    def _drop(self, keys):
        for s in keys:
            self.routes.pop(s, None)
        for n in [n for n, s in self.names.items() if s in keys]:
            del self.names[n]

    # what the router has to say
    def answer(self, path):
        """-> None or (shape, {method: (tag, kwargs)}, [(pos, [simple, partial])])"""
        hits = []
        for s, (key, first, ms) in self.routes.items():
            v = matches(first, path.strip('/'))
            if v is not None:
                hits.append((key, s, v))
        if not hits:
            return None
        w = best([h[0] for h in hits])
        key, s, v = next(h for h in hits if h[0] == w[0])
        ms = {m: (tag, named(matches(rule, path.strip('/')))) for m, (tag, rule) in self.routes[s][2].items()}
        pos = positions(key, v)
        hooks = []
        for hs, (hk, hr, pair) in self.hooks.items():
            if key[:len(hk)] == hk:
                hooks.append((pos[len(hk)], len(hk), list(pair)))
        hooks.sort(key=lambda h: (h[1]))
        return s, ms, [(p, pair) for p, _, pair in hooks]


def positions(key, vals):
    """Path position after each prefix of the pattern."""
    out = [0]
    it = iter(vals)
    for c in key:
        out.append(next(it)[2] if not isinstance(c, str) else out[-1] + 1)
    return out


# --------------------------------------------------------------------------- the real thing
def apply_real(router, op):
    k = op[0]
    if k == 'add':
        _, rule, meth, name, ow, tag = op
        router.add(spell(rule), meth, handler(tag), name, overwrite=ow)
    elif k == 'rm':
        router.remove(spell(op[1]))
    elif k == 'rmname':
        router.remove(name=op[1])
    elif k == 'rmpre':
        router.remove(spell(op[1]) + '*')
    elif k == 'hook':
        from ombott.router import HookTypes
        router.add_hook(spell(op[1]), handler(op[3]), hook_type=HookTypes(op[2]))
    elif k == 'unhook':
        router.remove_hook(spell(op[1]))


def replay(hist):
    from ombott.router import RadiRouter
    r = RadiRouter()
    for op in hist:
        try:
            apply_real(r, op)
        except Exception:   # noqa  rejected (acceptance was judged when it was the last operation)
            pass
    return r


def fresh(model, order=0):
    from ombott.router import RadiRouter, HookTypes
    r = RadiRouter()
    items = sorted(model.routes.items(), key=repr)
    for s, (key, first, ms) in items[::-1] if order else items:
        names = sorted(n for n, x in model.names.items() if x == s)
        # the rule that made the route comes first
        done = []
        for m, (tag, rule) in sorted(ms.items(), key=lambda kv: kv[1][1] != first):
            r.add(spell(rule), m, handler(tag), names[0] if names and not done else None)
            done.append((m, tag, rule))
        for n in names[1:]:
            m, tag, rule = done[0]
            r.add(spell(rule), m, handler(tag), n, overwrite=True)
    hs = sorted(model.hooks.items(), key=repr)
    for s, (key, rule, pair) in hs[::-1] if order else hs:
        for t, tag in enumerate(pair):
            if tag is not None:
                r.add_hook(spell(rule), handler(tag), hook_type=HookTypes(t))
    return r


def tags(pair):
    return [None if h is None else h.tag for h in pair]


def accepts(model, op, cache):
    k = (model.key(), op)
    v = cache.get(k)
    if v is None:
        r = fresh(model)
        try:
            apply_real(r, op)
            v = True
        except Exception:   # noqa
            v = False
        cache[k] = v
    return v


def probe(router, model, rules, names, hookrules, wsgi=True):
    fr = fresh(model)
    shapes = {}
    for path in PATHS:
        exp = model.answer(path)
        full = '/' + path
        got = router.resolve(full)
        if exp is None:
            if got is not None:
                raise Violation('path %r: no surviving route, resolve gives %r' % (full, got))
            ep, err = router.resolve(full, ['GET', 'ANY'])
            if ep is not None or err[0] != 404:
                raise Violation('path %r: no surviving route, resolve gives %r %r' % (full, ep, err and err[:2]))
            fep, ferr = fr.resolve(full, ['GET', 'ANY'])
            a = ([(p, tags(h)) for p, h in err[2]['hooks']], err[2]['param_values'])
            b = ([(p, tags(h)) for p, h in ferr[2]['hooks']], ferr[2]['param_values'])
            if a != b:
                raise Violation('path %r is not found with hooks/values %r, a fresh router gives %r' % (full, a, b))
            continue
        s, ms, hooks = exp
        if got is None:
            raise Violation('path %r: route %r survives but is not found' % (full, spell(model.routes[s][1])))
        if shapes.setdefault(s, got) is not got:
            raise Violation('path %r: two Route objects for one rule' % full)
        if sorted(got.methods) != sorted(ms):
            raise Violation('path %r: methods %s, expected %s' % (full, sorted(got.methods), sorted(ms)))
        for m, (tag, kw) in ms.items():
            ep, err = router.resolve(full, [m])
            if ep is None:
                raise Violation('path %r %s: %r' % (full, m, err[:2]))
            if ep[0].handler.tag != tag or ep[1] != kw:
                raise Violation('path %r %s: handler %r with %r, expected %r with %r' % (full, m, ep[0].handler.tag, ep[1], tag, kw))
            h = [(p, tags(pair)) for p, pair in ep[2]]
            if h != hooks:
                raise Violation('path %r %s: hooks %r, expected %r' % (full, m, h, hooks))
            fep, ferr = fr.resolve(full, [m])
            if fep is None or fep[0].handler.tag != tag or fep[1] != kw or [(p, tags(q)) for p, q in fep[2]] != h:
                raise Violation('path %r %s: a fresh router gives %r %r' % (full, m, fep, ferr))
    for rule in rules:
        s = pattern_key(rule)
        reg = model.routes.get(s)
        got = router[{'rule': spell(rule)}]
        if spell(rule) != '/' and router[{spell(rule)}] is not got:
            raise Violation('router[{%r}] differs from router[{rule: ...}]' % spell(rule))
        if reg is None:
            if got is not None:
                raise Violation('lookup by rule %r finds %r, which was removed' % (spell(rule), got))
        else:
            if got is None or s in shapes and shapes[s] is not got:
                raise Violation('lookup by rule %r gives %r' % (spell(rule), got))
            shapes[s] = got
    for n in names:
        got = router[n]
        s = model.names.get(n)
        if (s is None) != (got is None) or s is not None and shapes.get(s, got) is not got:
            raise Violation('lookup by name %r gives %r, expected the route of %r' % (n, got, s and spell(model.routes[s][1])))
        if s is not None and sorted(got.methods) != sorted(model.routes[s][2]):
            raise Violation('lookup by name %r gives a route with methods %s' % (n, sorted(got.methods)))
    if sorted(router.routes, key=repr) != sorted(fr.routes, key=repr):
        raise Violation('router.routes has %r, a fresh router %r' % (sorted(router.routes), sorted(fr.routes)))
    for p, r in router.routes.items():
        if not any(r is q for q in shapes.values()):
            raise Violation('router.routes holds a Route for %r that no lookup gives' % p)
    for hr in hookrules:
        if model.rival(model.hooks, hr):
            continue        # the lookup does not name filters
        e = model.hooks.get(pattern_key(hr))
        try:
            g = tags(router.get_hook(spell(hr)))
        except KeyError:
            g = None
        if g != (e and e[2]):
            raise Violation('get_hook(%r) gives %r, expected %r' % (spell(hr), g, e and e[2]))
    if wsgi:
        probe_wsgi(router, model)


def probe_wsgi(router, model):
    import ombott
    app = ombott.Ombott()
    app.router = router
    for path in PATHS:
        exp = model.answer(path)
        if exp is None or 'GET' not in exp[1]:
            continue
        del CALLS[:]
        full = '/' + path
        r = call(app, environ(full, 'GET'))
        if r.escaped or r.code != 200:
            raise Violation('request %r: %r %r' % (full, r.status, r.escaped))
        want = [(pair[0], (full[:1 + p],), {}) for p, pair in exp[2] if pair[0] is not None]
        want.append((exp[1]['GET'][0], (), exp[1]['GET'][1]))
        if CALLS != want:
            raise Violation('request %r: calls %r, expected %r' % (full, CALLS, want))


# --------------------------------------------------------------------------- search
def operations(rules, hooks, names, extra):
    ops = []
    for i, r in enumerate(rules):
        n = names[i % len(names)] if names and i < len(names) + 1 else None
        ops.append(('add', r, 'GET', n, False, 'g%d' % i))
        if extra and i < extra:
            ops.append(('add', r, 'POST', names[-1] if names else None, False, 'p%d' % i))
            ops.append(('add', r, 'GET', names[0] if names else None, True, 'o%d' % i))
        ops.append(('rm', r))
    for n in names:
        ops.append(('rmname', n))
    for i, h in enumerate(hooks):
        ops.append(('hook', h, i % 2, 'H%d' % i))
        if extra > 1 or i == 0:
            ops.append(('hook', h, 1 - i % 2, 'K%d' % i))
        ops.append(('unhook', h))
    shapes = {shape(r) for r in rules}
    for p in PREFIXES:
        k = shape(p)
        if sum(s[:len(k)] == k for s in shapes) >= (1 if k else 2) or extra:
            ops.append(('rmpre', p))
    if extra:
        ops.append(('add', T(X, '/d/', X), 'GET', None, False, 'dup'))
    return ops


def search(rules, hooks, names, extra, limit, ctx, on_fail, letters=0):
    global PATHS, PREFIXES
    base = PATHS, PREFIXES
    m = LETTERS[letters]
    if m:
        rules, hooks = tuple(spelled(r, m) for r in rules), tuple(spelled(r, m) for r in hooks)
        if len({shape(r) for r in rules}) < len(rules):
            return
        PREFIXES = [spelled(r, m) for r in PREFIXES]
        PATHS = sorted({translate(q, m).replace('\r', '') for q in PATHS} | {translate(q, m) + 'x' for q in PATHS[:5]} | set(base[0]))
    try:
        search_in(rules, hooks, names, extra, limit, ctx, on_fail)
    finally:
        PATHS, PREFIXES = base


def search_in(rules, hooks, names, extra, limit, ctx, on_fail):
    ops = operations(rules, hooks, names, extra)
    m0 = Model()
    r0 = replay(())
    seen = {h64((canon(r0, label, skip), m0.key()))}
    frontier = [((), m0)]
    acc = {}
    depth = 0
    n = 0
    while frontier:
        nxt = []
        depth += 1
        for hist, model in frontier:
            ctx.tick()
            for op in ops:
                if not model.enabled(op):
                    continue
                h2 = hist + (op,)
                try:
                    router = replay(hist)
                    m2 = model.copy()
                    try:
                        apply_real(router, op)
                        ok, err = True, None
                    except Exception as e:   # noqa
                        ok, err = False, e
                    ctx.trans()
                    if op[0] in ('add', 'hook'):
                        want = accepts(model, op, acc)
                        if ok != want:
                            raise Violation('%s %s, a fresh router with the survivors %s it (%r)' % (
                                show(op), 'is accepted' if ok else 'is rejected', 'accepts' if want else 'rejects', err))
                    elif not ok:
                        raise Violation('%s raised %r' % (show(op), err))
                    ctx.outcome(op[0] + (' ok' if ok else ' rejected'))
                    if ok:
                        m2.apply(op)
                    else:
                        ctx.count('rejected_operations')
                    k = h64((canon(router, label, skip), m2.key()))
                    if k in seen:
                        continue
                    seen.add(k)
                    n += 1
                    ctx.state((rules, hooks, k))
                    probe(router, m2, rules, names, hooks, wsgi=(n % 4 == 0 or depth <= 3))
                    nxt.append((h2, m2))
                except Violation as v:
                    on_fail('after %s: %s' % ([show(o) for o in h2], v), h2)
                    return
                if len(seen) >= limit:
                    ctx.count('universes_cut_by_the_state_limit')
                    return
        frontier = nxt
    ctx.count('universes_to_fixpoint')
    ctx.count('max_depth_sum', depth)


def show(op):
    k = op[0]
    if k == 'add':
        return 'add(%r, %s%s%s)' % (spell(op[1]), op[2], ', name=%s' % op[3] if op[3] else '', ', overwrite' if op[4] else '')
    if k == 'hook':
        return 'add_hook(%r, %s)' % (spell(op[1]), 'simple' if op[2] == 0 else 'partial')
    if k == 'rmname':
        return 'remove(name=%s)' % op[1]
    return '%s(%r)' % ({'rm': 'remove', 'rmpre': 'remove*', 'unhook': 'remove_hook'}[k], spell(op[1]))


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def run_case(case, ctx):
    if case[0] == 'search':
        _, ri, hi, names, extra, limit = case[:6]
        bad = []
        search(tuple(POOL[i] for i in ri), tuple(HOOKS[i] for i in hi), tuple(names), extra, limit, ctx,
               lambda msg, hist: bad.append(msg), *case[6:])
        if bad:
            raise Violation(bad[0])


def cases(tier):
    big = [
        ((1, 2, 3, 4, 5), (1, 2), ('n1', 'n2')),
        ((6, 8, 9, 11, 12), (4, 5), ('n1', 'n2')),
        ((1, 7, 8, 10, 6), (4, 7, 1), ('n1',)),
        ((0, 1, 2, 6, 13), (0, 2, 6), ('n1',)),
        ((2, 3, 15, 4), (2, 8, 1), ('n1', 'n2')),
        ((6, 14, 12, 11), (5, 9), ('n1', 'n2')),
        ((8, 9, 10), (4, 7, 3, 1), ('n1', 'n2')),
        ((1, 5, 8, 9), (1, 3, 4), ('n1', 'n2')),
    ]
    for b in big:
        yield ('search',) + b + (2, 30000) if tier == 'thorough' else ('search',) + b + (1, 1200)
    for n, c in enumerate(itertools.combinations(range(len(POOL)), 3)):
        yield ('search', c, HOOKSETS[n % len(HOOKSETS)], ('n1',), 1 if n % 80 == 7 else 0, 3000)
    three = list(itertools.combinations(range(len(POOL) - 1), 3))
    for k in range(1, len(LETTERS)):
        for n, c in enumerate(three[k % 5::23 if tier != 'thorough' else 5]):
            yield ('search', c, HOOKSETS[(n + k) % len(HOOKSETS)], ('n1',), 1 if n % 10 == k % 10 else 0, 2500, k)
    if tier == 'thorough':
        for n, c in enumerate(itertools.combinations(range(len(POOL)), 4)):
            yield ('search', c, HOOKSETS[n % len(HOOKSETS)], ('n1', 'n2')[:1 + n % 2], 1 if n % 7 == 0 else 0, 4000)
        for n, c in enumerate(itertools.combinations(range(len(POOL)), 3)):
            for k in (3, 5):
                yield ('search', c, HOOKSETS[(n + k) % len(HOOKSETS)], ('n1', 'n2'), 2 if n % 5 == 0 else 1, 6000)


def shards(tier):
    cs = list(cases(tier))
    out = [dict(c=[i]) for i in range(8)]
    k = 64
    for i in range(k):
        out.append(dict(c=list(range(8 + i, len(cs), k))))
    return out


def run_shard(shard, ctx):
    cs = list(cases(ctx.tier))
    for i in shard['c']:
        ctx.run(cs[i])
