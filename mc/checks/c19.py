"""C19  Building a URL from matched parameters leads back to the same match."""
import itertools

from ..core import Violation
from ..router_model import L, W, spell, all_spellings, match, install_custom
from . import c01

ID = 'C19'
TECHNIQUE = ('explicit enumeration of rules (token sequences up to 5 tokens, all spellings) x all short paths on the real Route/'
             'RadiRouter: match -> url -> match must be the identity on the parameters; literals checked by a reference matcher')
LEVEL_NOTE = ('all token sequences of up to 4 (quick) / 5 (thorough) tokens over 5 literals and 11 wildcard kinds subject to the '
              'stated shape, plus a list of special rules and rules of 1..129 wildcards of 7 make-ups; all parameter assignments obtained from ~1500 paths per rule')
RULE = 'resolve(url(resolve(path).params)).params == resolve(path).params on a router holding only that rule'
ASSUMPTIONS = [
    'a converted number next to another wildcard, or after a greedy wildcard that may also take its text, is left out of the '
    'enumeration, and so is one whose digits may complete the literal after such a wildcard (the text cannot be split again in general); three such cases are listed as known findings',
    'custom filters are expected to format what they parse',
]
HANG_S = 30.0
BOUNDS = dict(quick='1 + ~3400 token sequences (<= 4 tokens) x 400-1500 paths', thorough='~80000 token sequences (<= 5 tokens)')

KNOWN = [  # inherently ambiguous texts
    ((W('x', 'int'), W('y', 'int')), '/<x:int><y:int>', '1-0', 'url-1-0'),
    ((W('p', 'path', ''), L('.'), W('x', 'float')), '/<p.path()>.<x.float>', 'a.5', 'url-a.5'),
    ((W('x', 'path', ''), L('/a1'), W('y', 're', 'a+'), L('b/a'), W('zz', 'int')), '/<x:path()>/a1<y.re(a+)>b/a<zz.int>', 'a/a1ab/a\u0661\u0662', 'url-a1-again'),
]

LITS = ['a', '/', 'b/a', '-', '/a1']
WILDS = [W('x'), W('x', 'int'), W('x', 'float', ''), W('x', 're', 'a+'), W('x', 're', r'[ab]*'), W('x', 're', 'a(?=/|b)'),
         W('x', 'path', ''), W(None, 'int', ''), W(None, 're', '[a-z0-9]'), W(None), W('x', 'hex')]
NUM = ('int', 'float', 'hex', 'zero')


def rename(ts):
    """Distinct names, longest first letter variety, in positional order."""
    out = []
    n = 0
    for t in ts:
        if t[0] == 'W' and t[1] is not None:
            t = ('W', ('x', 'y', 'zz', 'w_1', 'v')[n]) + t[2:]
            n += 1
        out.append(t)
    return tuple(out)


def completes(ts, k):
    """The literal after the greedy wildcard ts[k] can arise once more from a later literal and the number after it."""
    m = ts[k + 1][1]
    return any(a[0] == 'L' and b[0] == 'W' and b[2] in NUM and a[1].endswith(m[:i]) and set(m[i:]) <= set('0123456789abcdef.-')
               for a, b in zip(ts[k + 2:], ts[k + 3:]) for i in range(1, len(m)))


def usable(ts):
    prev = None
    for k, t in enumerate(ts):
        nxt = ts[k + 1] if k + 1 < len(ts) else None
        if t[0] == 'L':
            if prev is not None and prev[0] == 'L':
                return False
            if nxt is None and t[1].endswith('/'):
                return False
            if k == 0 and t[1].startswith('/'):
                return False
        else:
            if t[2] is None and t[1] is None and not (nxt is None or nxt[0] == 'L' and nxt[1].startswith('/')):
                return False
            if prev is not None and prev[0] == 'W':
                # adjacent wildcards: of fixed text only
                if t[2] in NUM or prev[2] in NUM or prev[2] == 'path' or prev[2] is None:
                    return False
            if t[2] == 'path' and nxt is not None:
                if nxt[0] == 'W':
                    return False
                if any(q[0] == 'W' and q[2] in NUM for q in ts[k + 1:]) and not nxt[1].startswith('/'):
                    return False
                if completes(ts, k):
                    return False
        prev = t
    return any(t[0] == 'W' for t in ts)


def sequences(n):
    alpha = [L(x) for x in LITS] + WILDS
    for d in range(1, n + 1):
        for ts in itertools.product(alpha, repeat=d):
            if usable(ts):
                yield rename(ts)


SPECIAL = [r for r in c01.SINGLE if not any(t[0] == 'W' and t[2] in ('rex', 'two', 'rej') for t in r)] + [
    c01.T('a', W('x', 'int'), '-', W('y', 'int'), '-', W('z', 'int')),
    c01.T('a/', W('x', 'float'), ',', W('y', 'float', '')),
    c01.T(W(None, 'int'), '/', W('x'), '/', W(None, 're', 'a+'), 'b', W('y', 'int')),
    c01.T('é', W('x'), 'é/', W('y'), '/é'),
    c01.T('a\n', W('x', 're', 'b'), ' c'),
    c01.T(W('x', 'path'), '/é/', W('y', 'int')),
    c01.T('aa', W('x', 're', 'a(?=aa)'), 'aa'),
    c01.T(W('x', 're', '(?:a|b)(?=/)'), '/', W('y', 're', '(?=a)')),
    c01.T('a', W('x', 're', ''), 'b'),
    c01.T('%', W('x'), '%/?#', W('y')),
    c01.T(W('x', 'float'), '/', W('y', 'int'), 'a', W('q', 'float')),
]
SKIP = {'/<x><y>'}
NUMS = ['0', '1', '007', '-0', '-1', '-10', '12', '1.5', '-1.50', '0.00001', '123456789012345678901234567890', '0.1', '1.0', '-0.0',
        '5.000', '100000000000000000000000.5', '0.1234567890123456789', '1' * 200, '3' * 310, '9007199254740993', '١٢', '1' * 4000]


def paths_for(ts, thorough):
    """All short words plus words made of candidate texts for each token (product, bounded)."""
    out = dict.fromkeys(c01.PATHS4 if len(ts) < 3 or thorough else PATHS_SMALL)
    cand = []
    for k, t in enumerate(ts):
        if t[0] == 'L':
            cand.append([t[1]])
        elif t[2] in ('int', 'float', 'hex'):
            cand.append(NUMS)
        elif t[2] == 'path':
            cand.append(['a', 'a/b', '/a', 'a//', 'é/b a', '1/a1', 'a\n'])
        elif t[2] is None:
            cand.append(['a', 'b1', '-', 'é ', '', '.', 'a\x00', '\r', '%2F', '{x}', '0' * 3, '<y>'])
        else:
            cand.append(['a', 'aa', '', 'b', 'ab', 'aabb', 'z', '7', 'a/b'])
    n = 1
    for c in cand:
        n *= len(c)
    if n <= 3000:
        prod = itertools.product(*cand)
    else:   # vary two positions at a time
        def gen():
            idx = [i for i, c in enumerate(cand) if len(c) > 1]
            for i, j in itertools.combinations(idx, 2):
                for a in cand[i]:
                    for b in cand[j]:
                        row = [c[0] for c in cand]
                        row[i], row[j] = a, b
                        yield row
        prod = gen()
    for row in prod:
        out.setdefault(''.join(row).strip('/'), None)
    return out


PATHS_SMALL = c01.stripped(c01.words('ab/', 4) + c01.words('a1/-', 4))


def handler(**kw):
    return kw


def short(v):
    try:
        return repr(v)[:60]
    except ValueError:
        return '<huge>'


def check(ts, text, paths, ctx):
    from ombott.router import RadiRouter
    install_custom()
    router = RadiRouter()
    route = router.add(text, 'GET', handler, 'the-name')
    n = 0
    for path in paths:
        ref = match(ts, path)
        ep, err = router.resolve('/' + path, ['GET'])
        if (ref is None) != (ep is None):
            raise Violation('rule %r path %r: matches=%r but resolve gives %r %r' % (text, path, ref is not None, ep, err and err[:2]))
        if ref is None:
            continue
        n += 1
        kw = dict(ep[1])
        anon = [v for nm, v, _ in ref if nm is None]
        where = 'rule %r path %r: url(%s)' % (text, path[:80], ', '.join([short(a) for a in anon] + ['%s=%s' % (k, short(v)) for k, v in kw.items()]))
        try:
            url = route.url(*anon, **kw)
        except Exception as e:   # noqa
            raise Violation('%s raised %s: %s' % (where, type(e).__name__, e))
        if not isinstance(url, str):
            raise Violation('%s gives %r' % (where, url))
        back, err = router.resolve('/' + url.lstrip('/'), ['GET'])
        if back is None:
            raise Violation('%s gives %r, which the rule does not match: %r' % (where, url[:200], err[:2]))
        if back[1] != kw or any(type(back[1][k]) is not type(kw[k]) for k in kw):
            raise Violation('%s gives %r, which yields %r' % (where, url[:200], back[1]))
        again = match(ts, url.strip('/'))
        if again is None or [(a, b) for a, b, _ in again] != [(a, b) for a, b, _ in ref]:
            raise Violation('%s gives %r: literals or wildcard texts are not those of the rule: %r' % (where, url[:200], again))
        if router['the-name'].url(*anon, **kw) != url or router[{'rule': text}].url(*anon, **kw) != url:
            raise Violation('%s: the route looked up by name or rule builds another URL' % where)
    ctx.trans(len(paths))
    ctx.count('assignments', n)
    ctx.outcome('matched' if n else 'never matches')


COUNTS = list(range(1, 34)) + [40, 50, 63, 64, 65, 99, 100, 101, 128, 129]
LONG = dict(
    anon=lambda i: W(None), named=lambda i: W('p%d' % i), anonint=lambda i: W(None, 'int'), namedint=lambda i: W('p%d' % i, 'int'), anonre=lambda i: W(None, 're', '[0-9a-z]+'),
    mix=lambda i: (W('n%d' % i, 'int'), W(None, 're', '[a-z0-9]+'), W('m%d' % i), W(None), W(None, 'float', ''), L('lit%d' % i))[i % 6],
    infix=lambda i: W('p%d' % i, 're', '[0-9]+'))


def long_rule(kind, n):
    """n wildcards, one after the other"""
    sep = '-' if kind == 'infix' else '/'
    ts = c01.merge([x for i in range(n) for x in (([L(sep)] if i else []) + [LONG[kind](i)])])
    paths = [sep.join(f(i) for i in range(n)) for f in (
        lambda i: str(i), lambda i: str(7 * i % 10), lambda i: '1' * (i % 5 + 1), lambda i: str(10 ** (i % 30) + i),
        lambda i: 'lit%d' % i if i % 6 == 5 and kind == 'mix' else '%03d' % i,
        lambda i: 'lit%d' % i if i % 6 == 5 and kind == 'mix' else '\xe9\u20ac%d' % i if kind in ('anon', 'named') or kind == 'mix' and i % 6 in (2, 3) else str(i))]
    return ts, paths


def run_case(case, ctx):
    if case[0] == 'long':
        ts, paths = long_rule(case[1], case[3])
        for text in all_spellings(ts, 3):
            check(ts, text, paths, ctx)
        return
    ts = c01.untup(case[1])
    if case[0] == 'known':
        try:
            check(ts, case[2], [case[3]], ctx)
        except Violation as v:
            raise Violation(str(v), case[4])
        return
    check(ts, case[2], paths_for(ts, ctx.thorough), ctx)


def cases(tier):
    for k in KNOWN:
        yield ('known',) + k
    for kind in LONG:
        for n in COUNTS:
            yield ('long', kind, '%s %d' % (kind, n), n)
    for r in SPECIAL:
        for t in all_spellings(r, 40):
            if t not in SKIP:
                yield ('rule', r, t)
    for n, ts in enumerate(sequences(4 if tier != 'thorough' else 5)):
        yield ('rule', ts, spell(ts, [n % 5, n % 3, n % 7, n % 2, 0]))


NSHARD = 64


def shards(tier):
    return [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    for n, c in enumerate(cases(ctx.tier)):
        if n % NSHARD == shard['i']:
            ctx.state(c[2])
            ctx.run(c)
