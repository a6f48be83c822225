"""C01  Route resolution equals the plain rule-by-rule semantics.

Small-scope enumeration of rule sets x paths on the real router (and through the real WSGI application), against a
reference matcher that looks at one rule at a time and never builds a tree (mc/router_model.py)."""
import itertools

from ..core import Violation
from ..router_model import L, W, spell, all_spellings, pattern_key, shape, conflict, match, named, best, install_custom
from ..wsgi import app_for, environ, call

ID = 'C01'
TECHNIQUE = ('explicit enumeration of ordered rule sets x request paths on the real RadiRouter and through the real WSGI '
             'application (bounded, exhaustive), each answer compared with a per-rule reference matcher')
LEVEL_NOTE = ('all ordered pairs over 157 rules, all ordered triples over 22 rules, 4-rule sets over 16 and 14 rules (quick; thorough: '
              'triples over 62 rules, longer paths), every spelling of every wildcard kind, against all paths up to length 5 over '
              '{a,b,1,/,CR} plus longer ones with non-ASCII text, NUL, LF, digits and percent-like text; ladders of 2..5 (6) segments (all combinations of literal and wildcard); nodes with '
              '17..260 (520) children, literals of up to 4096 (65536) characters, rules of up to 200 (257) segments, trees up to 120 (300) deep')
RULE = 'a registered route is selected for a path if the rule matches the whole path and wins the literal-before-wildcard order'
ASSUMPTIONS = [
    'rules are non-empty below the leading slash or "/", without a trailing slash and without a literal CR',
    'a wildcard at the very end of the path matches nothing (the router ignores trailing slashes)',
    'a rule set the router rejects because of contradictory filters on one wildcard position is not a registered rule set',
]
HANG_S = 20.0
BOUNDS = dict(
    quick='|universe|: 157 single rules (all spellings) and ordered pairs of them, 22 for ordered triples, 16 and 14 for 4-sets; paths: all of '
          'length <=5 over 5 symbols (pairs: <=4 or 3) + 112 longer ones',
    thorough='62 rules for ordered triples of which two share a first symbol, 16 for ordered 4-sets; paths <=5/6')

METHODS = ['GET', 'POST', 'PUT', 'PATCH', 'DELETE']


# --------------------------------------------------------------------------- universes
def T(*ts):
    return tuple(L(t) if isinstance(t, str) else t for t in ts)


X, Y, Z = W('x'), W('y'), W('zz')
XI, YI = W('x', 'int'), W('y', 'int', '')
XF = W('x', 'float')
XP, YP = W('x', 'path', ''), W('y', 'path')
XR, YR = W('x', 're', 'a.'), W('y', 're', '[ab]*')
AN = W(None)
ANI = W(None, 'int')
ANR = W(None, 're', 'a+')

SMALL = [   # ordered triples
    T(), T('a'), T('ab'), T('a/b'), T(X), T(X, 'b'), T('a', X), T(X, '/b'), T('a/', X), T(X, '/', Y),
    T(X, '/', Z), T('a/', X, '/b'), T(X, '/b/', Y), T('a', X, 'b'), T(X, 'b/', Y), T('a/', XI), T('a/b', XI),
    T('a/', XP), T(XR), T(XR, '/b'), T('aa'), T(X, '/a/', Y),
]
MEDIUM = SMALL + [
    T('b'), T('1'), T('a1'), T('a/1'), T('ab/a'), T('a/b/a'), T('aab'), T('abb'), T('b/b'),
    T(Y), T(AN), T(Y, '/b'), T('a/', Y), T(Y, 'b'), T(X, '/', Y, '/', Z), T('a/', X, '/', Y), T(X, 'a'), T(X, '/a'),
    T(X, Y), T(X, 'b', Y), T(XI), T(YI), T(XI, '/b'), T(XI, 'b'), T('a', XI), T(XI, X[:1] + ('y',) + X[2:]),
    T(XF), T('a/', XF, '/b'), T(XP), T(XP, '/b'), T(YP, 'b'), T('a', XP, '/', Y), T(YR, '/b'), T('a/', YR, 'b'),
    T('a/', XR), T(X, '/', XR[:1] + ('y',) + XR[2:]), T(X, '/', W('y', 'int')), T('a/', AN, '/b'), T('a/', ANI, '/b'),
    T(ANR, 'b'),
]
SINGLE = MEDIUM + [
    T('a-b'), T('a.b'), T('é'), T('é/', X), T(X, 'é'), T('a b'), T('a\x00'), T('a\n', X), T('a*'), T('a*/', X), T('a//b'),
    T(X, '//', Y), T('a>b'), T('a}', X), T(')('), T('%41'), T(X, '-', Y), T(X, '.', Y), T('a', X, '-', YI, '-', Z),
    T(W('n', 're', r'\d*'), 'b'), T('a/', W('n', 're', r'(a|b)+'), '/', Y), T(W('n', 're', r'a\)b?')),
    T(W('n', 're', '[^/]+'), '/', W('m', 're', '[^/]+')), T(W('n', 're', 'a/b'), X), T(W('n', 're', 'a(?=b)'), 'b'),
    T(W('n', 're', '(?P<q>a)b'), '/', X), T(W('n', 're', '')), T(W('n', 're', 'b{1}|a{2}')), T('b', W('n', 're', '<?a')),
    T(W('n', 'hex', '')), T(W('n', 'hex'), '/', X), T(W('n', 'rej', '')), T(W('n', 'rej'), '/', W('m', 'rej')),
    T(W('n', 'two', 'q'), 'b'), T(W('n', 'two'), X), T(W('n', 'zero', ''), '/', X), T('a', W('n', 'zero'), 'a'),
    T(AN, '/', AN), T(AN, '/', X, '/', AN), T(ANI, 'a', ANR), T(W(None, 'path', ''), '/', X), T(W(None, 'float', ''), 'a'),
    T(W('int')), T(W('re')), T(W('path', 'path')), T(W('_a1', 'int')), T('a/', W('x', 'path'), 'b/', Y),
    T(XP, 'a', Y), T(W('x', 'path', ''), '+', Y), T(W('x', 'float'), 'a', W('y', 'float', '')),
    T(W('p', 'rex', '(a)|(b)'), '/', X), T(W('p', 'rex', '(a)|(b)', '1'), '/', X), T(W('p', 'rex', '(aa)|(a)|(b)', '2')),
    T(W(None, 'rex', '(a)|(b)', '2'), '1', X), T(W('p', 'rex', '(a)|(b)'), '1'), T(W('p', 'rex', 'a(b)?')),
    T(W('p', 'rex', 'a(b?)')), T(W('p', 'rex', 'a(b?)', '1'), '1'), T(W('p', 'rex', 'a(b*)|b(a*)')), T(W('p', 'rex', '(b*)(a)'), '/', X),
    T(W('p', 'rex', 'a(b*)|b(a*)', '2'), '/', X), T(W(None, 'rex', '(a?)b')), T(W('p', 'rex', '(b*)')), T(W('p', 'rex', '(b*)'), 'a'),
] + [T('a/', W(n), '/b/', W('x', 'int')) for n in ('self', 'cls', 'anon', 'anonymous', 'anon_0', 'args', 'kw', 'method', 'handler', 'route', 'path', 'rule', 'xé1', '__x__')] + [
    T(W('self', 'int')), T(AN, '/', W('anon', 'int', ''), '/', W('anonb'))] + [
    # filters that are easily taken for one another
    T(W('n', 're', r'\D*'), 'b'), T('a/', W('n', 're', r'\D*')), T(W('n', 're', 'A.')), T('a/', W('x', 're', ' a.')), T('b/', W('x', 're', 'a. ')),
    T('b/', W('x', 're', 'a?.')), T('1', W('x', 're', '(a.)')), T('ab/', W('x', 'rex', 'a.')), T('b', W('x', 're', '(a)|(b)')), T('1/b', W('x', 'rex', '(A)|(B)')),
    T('b/', W('n', 're', 'int')), T('1/', W('n', 're', 'path')), T('b', W('x', 'path', ''), '.x', Y), T('1', W('x', 'path', ''), '.X', Y), T(W('x', 'path', ''), 'b?', Y)]
QUAD = [T('a'), T('ab'), T(X), T('a', X), T(X, '/b'), T('a/', X), T(X, '/', Y), T('a/b'), T(X, 'b'), T('a/', X, '/b'),
        T(X, '/b/', Y), T('a', X, 'b'), T('a/', XI), T(XR, '/b'), T('a/b/', X), T('aa')]
DEEP = [   # nested backtracking: three segments, literal or wildcard each
    T('a/b/a'), T('a/b/', Z), T('a/', Y, '/b'), T('a/', Y, '/', Z), T(X, '/b/a'), T(X, '/b/', Z), T(X, '/', Y, '/b'),
    T(X, '/', Y, '/', Z), T('a', X, '/b/b'), T('a/b', Y, '/a'), T(X, '/a/b/', Y), T('a/', XP), T(X, '/b/b/b'), T(X, 'b/b/a')]
REXS = [T(W('p', 'rex', '(a)|(b)')), T(W('p', 'rex', '(a)|(b)', '1')), T(W('q', 'rex', '(a)|(b)', '2')),
        T(W('p', 'rex', '(a)|(b)', '1'), 'b'), T(W('p', 'rex', '(a)|(b)', '2'), '/', X), T(W('p', 'rex', '(a)|(b)'), '1'),
        T(W('q', 'rex', '(a)|(b)'), 'b'), T(W('q', 'rex', '(a)|(b)'), '/', Y), T('a'), T('a1'), T('b/', X)]


def words(alpha, n):
    return [''.join(p) for k in range(n + 1) for p in itertools.product(alpha, repeat=k)]


SPECIAL = [
    'é', 'é/a', 'aé', 'é/é', 'a é', 'a\x00', '\x00', 'a\n', 'a\nb', 'a\n/b', '\n', 'a/\n', 'a b', 'a-b', 'a.b', '-1', '-1/b',
    'a/-1', '1.5', 'a/1.5/b', '-1.5', '1.', '.5', '1.5a1.5', '-', '--1', '١', 'a/١', '²', 'a*', 'a*/b', 'a>b', 'a}b', ')(',
    '%41', '%2F', 'a%2Fb', 'a-1-b', 'a-b-c', 'aa-12-b', 'a:b', '<x>', ':x', '{x}', '<x>b', 'a/<x>', 'a/b/a/b', 'a/a/b/a/b',
    'b/a/b/a/b/b', 'a//b//a', 'aaaaaa', 'abababab', 'ababab/b', 'a/b/b/b', 'ff', 'ff/a', 'fg', 'FF', 'A', 'GET', '\r', 'a\r',
    '\r/b', 'a/\r', 'a/\r/b', '\r\r', '\r/\r', '\ra', '\udc001', 'a' * 300, '1' * 400, '1' * 5000, 'a/' + '1' * 5000,
    'a/' * 60 + 'b', '1e5', '0x1', '+1', '1_0', ' 1', '007', 'a+b', 'a+b/c', 'a)b', 'a)', 'a{2}', 'aa/bb/aa', '1a1', '1a11aa',
    'Ab', 'AB', 'a/ ab', 'b/ab ', 'b/ab', 'b/a', 'b/b', 'b/int', '1/path', '1ab', 'ab/ab', 'bA', 'bb', '1/bA', '1/ba', 'ba.xb', 'ba.Xb', '1a.Xb', '1a.xb',
    'baqxb.xbqxb', 'ab?b', 'aabb', 'b', '/b?a/b',
] + [v % n for n in ('9007199254740993', '12345678901234567890', '123456789012345678901234567890.5', '0.1234567890123456789',
                     '00000000000000000001', '000', '-0', '-0.0', '0.30000000000000004', '1.7976931348623157e', '9' * 308, '1' + '0' * 308,
                     '1' + '0' * 309, '2147483648', '-2147483649', '18446744073709551616', '0.' + '0' * 330 + '1', '00.10')
     for v in ('%s', '%s/b', 'a/%s', 'a%s', 'a/%s/b', '%sb')]


def stripped(ps):
    seen = {}
    for p in ps:
        seen.setdefault(p.strip('/'), None)
    return list(seen)


PATHS5 = stripped(words('ab1/\r', 5) + SPECIAL)
PATHS4 = stripped(words('ab1/\r', 4) + words('a/b', 5) + SPECIAL)
PATHS3 = stripped(words('ab/', 5) + words('ab1/', 4) + words('a/\r', 4) + SPECIAL[:30])
PATHS6 = stripped(words('ab1/\r', 4) + words('ab/', 6) + SPECIAL)
PATHSD = stripped('/'.join(p) for n in (1, 2, 3, 4) for p in itertools.product(['a', 'b', 'ab', ''] if n < 4 else ['a', 'b'], repeat=n))
# text that some normalisation, case folding or stripping would change
ODD = ['e\u0301', '\u212b', '\ufb01', 'fi', '\u1100\u1161', '\uac00', '\u0130', 'i\u0307', '\xdf', 'ss', 'SS', '\u200b', 'a\u200bb', '\ufeff', '\ufeffa', 'a\xadb',
       '\xa0', 'a\xa0', '\u3000', '\u2028', 'a\x85', '\x1c', 'a\x0b', '\x0ca', ' ', ' a', 'a ', '\t', 'a\t/b', '\uff11', '\uff41', '\uff0f', 'a\uff0fb', '\u2215', '\u0660',
       '\u0967', '\xb9', '\xbd', '\u2460', '\U0001d7d9', '\U0001f600', '\ud800', 'a\udcff', '\u0345', '\u03c2', '\u03c3', '\u03a3', '\u2126', '\u03a9', '\u017f', '\u212a',
       'e\u0301/b', '\u212b/b', 'a/\ufb01', 'a/e\u0301/b', '\xe9/b', 'a/\u0130', '.', '..', 'a/.', 'a/..', './a', '../a', 'a/./b', 'a/../b', '~', '\\', 'a\\b', ';', 'a;b',
       'a;b/b', 'a/b;c', '?', 'a?b', '#', 'a#b', 'a&b', '=', '%', '%2', '%zz', '%c3%a9', '%00', '+', 'a+', '%20', 'a%20b', "'", '"', 'a"b', '|', '^', '$', 'a$', '^a', '*', '**',
       '\x7f', '\x01', '\x1b', 'a//b', 'a///b', 'a//', 'a/b//', '\r\n', 'a\r\nb', '\n\n', 'a\n\n']
PATHSU = stripped(ODD)
SETS = dict(pd=PATHSD, p5=PATHS5, p4=PATHS4, p3=PATHS3, p6=PATHS6, pu=PATHSU)

# deep backtracking: n segments, each a literal or a wildcard, in every combination, each combination with a tail of its own
LSEG = ['a', 'b', 'a', 'ab', 'a', 'b', 'a']


def ladder(n, kind, only=None, infix=False):
    out = []
    for mask in range(2 ** n):
        if only is not None and not only(mask):
            continue
        t = []
        for i in range(n):
            if i:
                t.append(L('/'))
            if mask >> i & 1:
                if infix:
                    t.append(L('a'))
                if kind == 'plain':
                    t.append(W('w%d' % i))
                elif kind == 're':
                    t.append(W('w%d' % i, 're', '[abx]*1?'))
                elif kind == 'mixed':
                    t.append((W('w%d' % i), W('w%d' % i, 're', '[abx]*1?'), W('w%d' % i, 'int'), W('w%d' % i, 'rex', '([abx]*)1?'))[i % 4])
            else:
                t.append(L(LSEG[i]))
        t.append(L('/t%d' % mask))
        out.append(merge(t))
    return out


def merge(ts):
    out = []
    for t in ts:
        if out and t[0] == 'L' == out[-1][0]:
            out[-1] = L(out[-1][1] + t[1])
        else:
            out.append(t)
    return tuple(out)


def ladder_paths(n, other):
    tails = ['t%d' % m for m in range(2 ** n)] + ['u', '']
    return ['/'.join(list(p) + [t]).strip('/') for p in itertools.product(*[(LSEG[i], other) for i in range(n)]) for t in tails]


for _n in (2, 3, 4, 5, 6):
    SETS['l%d' % _n] = ladder_paths(_n, 'x')
    SETS['l%di' % _n] = ladder_paths(_n, 'ax')
    SETS['l%dm' % _n] = ladder_paths(_n, '1')



# --------------------------------------------------------------------------- sizes: many siblings, long literals, many segments, deep trees
def wide(n, kind):
    """n literals that differ in their first symbol (from n alphabets), below one node; -> rules, paths"""
    cs = ([chr(0x4e00 + 7 * i) for i in range(n // 2)] + [chr(0x1f300 + 3 * i) for i in range(n - n // 2)]
          if kind != 'ascii' else [c for c in map(chr, range(33, 127)) if c not in '/<>{}:?#;'][:n])
    if kind == 'mid':
        rules = [T('p' + c + 'q') for c in cs] + [T('p' + c + '/', X) for c in cs[::3]] + [T('p', X, 'q/', Y)]
        paths = ['p' + c + t for c in cs + ['z', '\xff'] for t in ('q', '', '/v', 'q/w')]
    else:
        rules = [T(c) for c in cs] + [T(c + '/', X) for c in cs[::4]] + [T(X, '/k/', Y)]
        paths = [c + t for c in cs + ['~~', '\xff', '\u4e01'] for t in ('', 'z', '/v', '/k/w')]
    return rules, paths


def long_(n):
    a = 'x' * n
    rules = [T(a + 'a'), T(a + 'b'), T(a), T(a + '/', X), T(a[:-1] + 'b'), T(a + 'b/', X, '/' + a), T(X, '/' + a), T(a + 'a' + a)]
    paths = [a + 'a', a + 'b', a, a + '/v', a[:-1] + 'b', a + 'b/v/' + a, 'v/' + a, a + 'a' + a, a + 'c', a[:-1], a + 'x', a + 'b/v/' + a + 'x', a + 'a' + a[:-1], a[:-1] + 'b/' + a,
             a + 'b/' + a + '/' + a, a + '/' + a]
    return rules, paths


def segs(n):
    w = [W('w%d' % i) for i in range(n)]
    j = lambda ts: merge([x for i, t in enumerate(ts) for x in (([L('/')] if i else []) + [t])])
    rules = [j(w), j([L('a')] * n), j([L('a')] * (n - 1) + [w[0]]), j([w[0]] + [L('a')] * (n - 1)), j(w[:-1] + [L('z')]), j([L('a')] * n + [L('z'), w[0]]),
             j([t for i in range(n // 2) for t in (L('a'), w[i])])]
    paths = ['/'.join(p) for k in (n - 1, n, n + 1, n + 2) for p in (['a'] * k, ['b'] * k, ['a'] * (k - 1) + ['b'], ['b'] + ['a'] * (k - 1), ['a'] * (k - 1) + ['z'],
                                                                    ['b'] * (k - 1) + ['z'], ['a'] * (k - 2) + ['z', 'q'], ['a', 'b'] * (k // 2), ['%d' % i for i in range(k)])]
    return rules, paths


def chain(n):
    rules = [T('a' * (i + 1)) for i in range(n)] + [T('a' * (i + 1) + '/', X) for i in range(0, n, 5)] + [T('a' * (i + 1), X, 'c') for i in range(0, n, 9)]
    paths = ['a' * i + t for i in range(n + 2) for t in ('', '/v', 'c', 'bc', '/v/v')]
    return rules, paths


SIZES = (dict(wide=wide, long=long_, segs=segs, chain=chain))


def sized(name):
    k, *a = name.split('-')
    return SIZES[k](*[int(x) if x.isdigit() else x for x in a])


def size_cases(thorough):
    for kind in ('uni', 'ascii', 'mid'):
        for n in (17, 33, 65, 85) if kind == 'ascii' else (33, 65, 129, 260) + ((520,) if thorough else ()):
            yield 'wide-%d-%s' % (n, kind)
    for n in (7, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096) + ((16384, 65536) if thorough else ()):
        yield 'long-%d' % n
    for n in (8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200) + ((255, 256, 257) if thorough else ()):
        yield 'segs-%d' % n
    for n in (20, 50, 120) + ((300,) if thorough else ()):
        yield 'chain-%d' % n


_cache = {}


def matches(rule, path):
    k = (rule, path)
    try:
        return _cache[k]
    except KeyError:
        if len(_cache) > 900000:
            _cache.clear()
        v = _cache[k] = match(rule, path)
        return v


# --------------------------------------------------------------------------- one case
class H:
    """Handler that reports who was called with what."""
    def __init__(self, log, tag):
        self.log = log
        self.tag = tag
        self.__module__ = __name__
        self.__qualname__ = 'H%s' % tag

    def __call__(*a, **kw):     # a wildcard may be named self
        self, *a = a
        a = tuple(a)
        self.log.append((self.tag, a, kw))
        return 'h%s' % self.tag


def build(router_add, rules, texts, log):
    """Registers the rules in order. -> list of (rule index, tokens, method) accepted."""
    reg = []
    for n, (r, text) in enumerate(zip(rules, texts)):
        same = [q for q in reg if shape(q[1]) == shape(r)]
        meth = METHODS[len(same)]
        try:
            router_add(text, meth, H(log, n))
        except Exception as e:   # noqa
            if any(conflict(pattern_key(r), pattern_key(q[1])) for q in reg):
                continue
            raise Violation('rule %r was rejected after %r: %s: %s' % (text, [t for t in texts[:n]], type(e).__name__, e))
        reg.append((n, r, meth))
    return reg


def expectation(reg, path):
    """-> None (404) or {method: [(index, values)...]} of the winning route(s)."""
    hits = [(pattern_key(r), n, m, v) for n, r, m in reg for v in [matches(r, path)] if v is not None]
    if not hits:
        return None
    win = set(best([h[0] for h in hits]))
    out = {}
    for k, n, m, v in hits:
        if k in win:
            out.setdefault(m, []).append((n, named(v)))
    return out


def same_kwargs(a, b):
    return a == b and all(type(a[k]) is type(b[k]) for k in a)


def run_case(case, ctx):
    kind, rules, texts, pset = case[:4]
    install_custom()
    if kind == 'size':
        name, order, how = rules, texts, pset
        rs, ps = sized(name)
        rs = dict(up=rs, down=rs[::-1], mix=rs[::2] + rs[1::2][::-1])[order]
        rs = [r for i, r in enumerate(rs) if r not in rs[:i]]
        (run_resolve if how == 'resolve' else run_wsgi)(rs, [spell(r) for r in rs], stripped(ps), ctx)
        return
    rules = [untup(r) for r in rules]
    if kind == 'resolve':
        run_resolve(rules, texts, SETS[pset], ctx)
    else:
        run_wsgi(rules, texts, SETS[pset], ctx)


def untup(x):
    return tuple(untup(y) for y in x) if isinstance(x, (list, tuple)) else x


def run_resolve(rules, texts, paths, ctx):
    from ombott.router import RadiRouter
    log = []
    router = RadiRouter()
    reg = build(router.add, rules, texts, log)
    ctx.count('rules_registered', len(reg))
    pre = [(n, r, m, pattern_key(r)) for n, r, m in reg]
    n404 = 0
    for path in paths:
        hits = [(k, n, m, v) for n, r, m, k in pre for v in [matches(r, path)] if v is not None]
        for meth in ('GET',) if len(pre) < 2 or not hits else sorted({h[2] for h in hits} | {'GET'}):
            ep, err = router.resolve(path, [meth, 'ANY'])
            if not hits:
                n404 += 1
                if ep is not None or err[0] != 404:
                    raise Violation('path %r matches no rule of %r, but resolve gives %r / %r' % (path, texts, ep, err and err[:2]))
                continue
            if len(hits) == 1:
                exp = [h for h in hits if h[2] == meth]
            else:
                win = best([h[0] for h in hits])
                exp = [h for h in hits if h[0] in win and h[2] == meth]
            if not exp:
                if ep is not None or err[0] != 405:
                    raise Violation('path %r method %s of %r: expected 405, got %r / %r' % (path, meth, texts, ep, err and err[:2]))
                continue
            if ep is None:
                raise Violation('path %r method %s matches rule %r of %r, but resolve gives %r' % (
                    path, meth, texts[exp[0][1]], texts, err[:2]))
            rm, kw, hooks = ep
            if not any(rm.handler.tag == h[1] and same_kwargs(kw, named(h[3])) for h in exp):
                raise Violation('path %r method %s of %r: expected handler of %r with %r, got the one of %r with %r' % (
                    path, meth, texts, texts[exp[0][1]], named(exp[0][3]), texts[rm.handler.tag], kw))
            if hooks:
                raise Violation('route hooks out of nowhere: %r' % (hooks,))
    ctx.trans(len(paths))
    ctx.outcome('not-found' if n404 == len(paths) else 'some-found')


def run_wsgi(rules, texts, paths, ctx):
    import ombott
    app = app_for((rules, texts))
    log = []
    reg = build(lambda t, m, h: app.route(t, m, h), rules, texts, log)
    for path in paths:
        try:
            path.encode('utf8')
        except UnicodeError:
            continue
        exp = expectation(reg, path)
        for meth in ['GET'] if not exp else sorted(exp):
            for full in ('/' + path,) if len(path) > 3 else ('/' + path, '/' + path + '/', '//' + path):
                del log[:]
                r = call(app, environ(full, meth))
                where = 'request %s %r to rules %r' % (meth, full, texts)
                if r.escaped or r.iter_error:
                    raise Violation('%s raised %r' % (where, r.escaped or r.iter_error))
                if exp is None:
                    if r.code != 404 or log:
                        raise Violation('%s: no rule matches, got %r, handlers called %r' % (where, r.status, log))
                    ctx.outcome('404')
                    continue
                ok = [(n, kw) for n, kw in exp[meth]]
                if r.code != 200 or len(log) != 1:
                    raise Violation('%s: expected the handler of %r, got %r, called %r' % (where, texts[ok[0][0]], r.status, log))
                tag, a, kw = log[0]
                if a or not any(tag == n and same_kwargs(kw, k) for n, k in ok):
                    raise Violation('%s: expected handler of %r with %r, called %r' % (where, texts[ok[0][0]], ok[0][1], log))
                if r.body != b'h%d' % tag:
                    raise Violation('%s: body %r' % (where, r.body))
                ctx.outcome('200')
    ctx.trans(len(paths))


# --------------------------------------------------------------------------- enumeration
def cases(tier):
    thorough = tier == 'thorough'
    # every spelling of every single rule
    for r in SINGLE:
        sp = all_spellings(r)
        for n, t in enumerate(sp):
            yield ('resolve', [r], [t], 'p5' if n == 0 or thorough else 'p4')
        yield ('wsgi', [r], [sp[-1]], 'p4' if thorough else 'p3')
        yield ('resolve', [r], [sp[0]], 'pu')
        yield ('wsgi', [r], [sp[0]], 'pu')
    for n in (2, 3, 4, 5, 6) if thorough else (2, 3, 4, 5):
        for kind, tag in (('plain', ''), ('re', ''), ('mixed', 'm'), ('plain', 'i')):
            rs = ladder(n, kind, infix=tag == 'i')
            ps = 'l%d%s' % (n, tag)
            for o in (rs, rs[::-1], rs[::2] + rs[1::2], sorted(rs, key=lambda r: (len(r), repr(r)))):
                yield ('resolve', o, [spell(r) for r in o], ps)
            if n <= 4:
                for i in range(len(rs)):
                    o = rs[:i] + rs[i + 1:]
                    yield ('resolve', o, [spell(r) for r in o], ps)
                for a, b in itertools.combinations(rs, 2):
                    for o in ([a, b], [b, a], [rs[0], a, b]) if n < 4 or kind != 're' else ([b, a],):
                        if len(set(o)) == len(o):
                            yield ('resolve', o, [spell(r) for r in o], ps)
            if n == 4:
                yield ('wsgi', rs, [spell(r) for r in rs], ps)
            if n == 5:
                for i in range(n):
                    o = [r for m, r in enumerate(rs) if bin(m).count('1') <= 1 or m == 31 - (1 << i)]
                    yield ('resolve', o, [spell(r) for r in o], ps)
    for name in size_cases(thorough):
        for order in ('up', 'down', 'mix'):
            yield ('size', name, order, 'resolve')
        if not name.startswith('chain') and int(name.split('-')[1]) in (33, 65, 100, 101, 257, 300):
            yield ('size', name, 'mix', 'wsgi')
    # duplicates and further methods of one pattern, other names, other spellings
    for r in MEDIUM:
        for q in MEDIUM:
            if r is not q and shape(r) == shape(q):
                for t in all_spellings(r):
                    for u in all_spellings(q):
                        yield ('resolve', [r, q], [t, u], 'p3')
                yield ('wsgi', [r, q], [spell(r), spell(q)], 'p3')
        yield ('resolve', [r, r], [spell(r), spell(r)], 'p3')
    for a in REXS:
        for b in REXS:
            if a is not b:
                yield ('resolve', [a, b], [spell(a), spell(b)], 'p3')
                for c in REXS:
                    if c is not a and c is not b:
                        yield ('resolve', [a, b, c], [spell(a), spell(b), spell(c)], 'p3')
    for i, (a, b) in enumerate(itertools.permutations(MEDIUM, 2)):
        fa, fb = [i % 7] * 4, [(i // 3) % 7] * 4
        yield ('resolve', [a, b], [spell(a, fa), spell(b, fb)], 'p4')
        if thorough or i % 8 == 0:
            yield ('wsgi', [a, b], [spell(a), spell(b)], 'p3')
    for t in itertools.permutations(SMALL, 3):
        yield ('resolve', list(t), [spell(r) for r in t], 'p3')
    for n, t in enumerate(itertools.combinations(DEEP, 4)):
        for o in (t, t[::-1], (t[2], t[0], t[3], t[1])):
            yield ('resolve', list(o), [spell(r) for r in o], 'pd')
    for i, (a, b) in enumerate(itertools.permutations(SINGLE, 2)):
        yield ('resolve', [a, b], [spell(a, [i % 3] * 4), spell(b, [i % 5] * 4)], 'p3')
    for t in itertools.combinations(QUAD, 4):
        for o in (t, t[::-1], (t[1], t[3], t[0], t[2])):
            yield ('resolve', list(o), [spell(r) for r in o], 'p3')
    if thorough:
        for i, (a, b) in enumerate(itertools.permutations(SINGLE, 2)):
            yield ('resolve', [a, b], [spell(a), spell(b, [i % 5] * 4)], 'p4')
        for t in itertools.permutations(QUAD, 4):
            yield ('resolve', list(t), [spell(r) for r in t], 'p3')
        for t in itertools.combinations(MEDIUM, 3):
            # both orders of insertion that matter for splitting: ascending, descending, middle first
            for o in (t, t[::-1], (t[1], t[0], t[2])):
                yield ('resolve', list(o), [spell(r) for r in o], 'p3')


NSHARD = 64


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD != shard['i']:
            continue
        ctx.state((c[0], c[1] if c[0] == 'size' else '', tuple(c[2]), c[3]))
        ctx.run(c)
