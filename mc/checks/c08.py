"""C08  Concurrent requests on one application never see each other."""
import itertools
import os
import pickle
import threading

from .. import conc, sched
from ..core import Violation

ID = 'C08'
TECHNIQUE = ('stateless model checking of the real code: request threads run under a controlled scheduler (hand-off at every line of the framework and the handlers); '
             'all schedules up to a preemption bound are enumerated for every pair of request kinds, each answer compared with the one of the request served alone')
LEVEL_NOTE = 'all schedules with 1 preemption for all ordered pairs of 39 request kinds at line granularity (26 more on an application with nothing set up, 6 more with repeated keys, parts, chunks and cookies with themselves); 2 preemptions and 3 threads for selected kinds'
RULE = 'status line, headers, cookies, body, escaped exception, everything the handlers saw and what is left in the environ are those of the request served alone on a fresh application'
ASSUMPTIONS = ['a line is atomic (thorough: also per opcode for some kinds); code outside the framework and the handlers is atomic', 'handlers keep no state of their own']
BOUNDS = dict(quick='all pairs of 39 kinds, and of 26 quiet ones, 1 preemption: at every line for equal kinds and 2 partners, at every function entry and handler line for the others; first use of an application in a fresh process for every kind (both threads); 2 preemptions for 2 pairs '
                    'at function entries; 3 threads for 2 triples; threads serving two requests each',
              thorough='+ all pairs at lines; 2 preemptions at function entries for 12 pairs, at lines for 1; opcode granularity with 1 preemption for 14 kinds; 3 threads for 8 triples (1 of them 2 preemptions)')
HANG_S = 60.0

K1 = conc.KINDS
KD = conc.DEFAULT_ONLY
_apps = {}
_base = {}
_sched = {}


def prepare():
    conc.make_files()
    for k in K1 + KD:
        for t in 'ABC':
            alone('default', k, t)      # before anybody uses it


def cleanup():
    conc.drop_files()


def app_of(variant):
    if variant not in _apps:
        _apps[variant] = conc.new_app(variant)
    return _apps[variant]


def in_child(fn):
    """fn() in a forked process (nothing of it stays here)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:      # noqa
                data = pickle.dumps(('err', '%s: %s' % (type(e).__name__, e)))
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Violation('process died')
    st, v = pickle.loads(buf)
    if st != 'ok':
        raise Violation(v)
    return v


def alone(variant, kind, tag):
    """The request served alone: on a thread of a process that has served nothing."""
    key = variant, kind, tag
    if key not in _base:
        def fn():
            app = conc.new_app(variant)
            return conc.on_thread(lambda: conc.serve(app, conc.request(kind, tag)))
        _base[key] = in_child(fn)
    return _base[key]


def scheduler(kind):
    if kind not in _sched:
        _sched[kind] = sched.Sched(conc.traced(kind))
    return _sched[kind]


def tasks(variant, reqs):
    app = app_of(variant)
    out = []
    for r in reqs:
        # r: tuple of (kind, tag): what one thread serves, one after the other
        envs = [conc.request(k, t) for k, t in r]
        out.append(lambda envs=envs: [conc.serve(app, e) for e in envs])
    return out


def want(variant, reqs):
    return [[alone(variant, k, t) for k, t in r] for r in reqs]


def once(variant, grain, reqs, segs, expect):
    r = scheduler(grain).run(tasks(variant, reqs), segs)
    for i, (v, x) in enumerate(zip(r.values, expect)):
        if v[0] != 'ok':
            raise Violation('thread %d of %r, schedule %r: %r' % (i, reqs, segs, v))
        for j, (a, b) in enumerate(zip(v[1], x)):
            if a != b:
                raise Violation('request %r on thread %d while %r, schedule %r: %s' % (reqs[i][j], i, [q for n, q in enumerate(reqs) if n != i], segs, conc.diff(a, b)))
    return r


def finished(r, seg):
    """the segment with this index was not used up: its thread ended before"""
    return r.early and r.early <= seg + 1


def explore(variant, grain, reqs, prefix, bound, ctx, lo=1, step=1):
    """All schedules prefix + up to `bound` more preemptions."""
    n = len(reqs)
    expect = want(variant, reqs)
    for a in range(n):
        explore_from(variant, grain, reqs, expect, [], a, bound, ctx, lo, step)


def explore_from(variant, grain, reqs, expect, segs, a, bound, ctx, lo=1, step=1):
    k = lo
    n = len(reqs)
    while True:
        ctx.rearm()
        cut = False
        for b in range(n):
            if b == a:
                continue
            s = segs + [(a, k)]
            if bound > 1:
                # deeper: b gets preempted as well
                if not explore_from(variant, grain, reqs, expect, s, b, bound - 1, ctx):
                    cut = True
                    break
            else:
                r = once(variant, grain, reqs, s + [(b, None)], expect)
                ctx.trans(sum(r.points))
                ctx.count('schedules')
                if r.stalls:
                    ctx.count('blocked')
                if r.early and r.early <= len(segs):
                    return False        # an earlier segment was not used up: nothing new
                if r.early == len(segs) + 1:
                    cut = True
                    break
        if cut:
            return k > lo or not segs
        k += step


def run_case(case, ctx):
    kind = case[0]
    if kind == 'pre':
        _, variant, grain, reqs, bound = case
        explore(variant, grain, reqs, [], bound, ctx)
        ctx.state(case)
    elif kind == 'prepart':
        # a part of the space: the first preemption is after lo, lo+step, ... points
        _, variant, grain, reqs, bound, lo, step = case
        explore(variant, grain, reqs, [], bound, ctx, lo, step)
        ctx.state(case)
    elif kind == 'cold':
        # first use: every schedule in a process of its own, on an application that has served nothing
        _, variant, reqs = case
        expect = want(variant, reqs)
        pts = in_child(lambda: once(variant, 'line', reqs, [(0, None)], expect).points)
        for k in range(1, pts[0] + 1):
            ctx.rearm()
            in_child(lambda: once(variant, 'line', reqs, [(0, k), (1, None)], expect).points)
            ctx.count('schedules')
            ctx.trans(sum(pts))
        ctx.state(case)
    ctx.outcome(kind)


def cases(tier):
    th = tier == 'thorough'
    hard = ('full', 'sherr') if not th else K1
    for i, a in enumerate(K1):
        for j, b in enumerate(K1):
            if a == b or b in hard and (a not in hard or i < j):
                yield ('pre', 'app', 'line', (((a, 'A'),), ((b, 'B'),)), 1)
            elif i < j and a not in hard:
                yield ('pre', 'app', 'call', (((a, 'A'),), ((b, 'B'),)), 1)
    for a in KD:
        for b in KD + ['full', 'crash', 'form', 'gen']:
            yield ('pre', 'default', 'line', (((a, 'A'),), ((b, 'B'),)), 1)
    for a in ('crash', 'abort', 'triedbig', 'genfail', '405', 'badhdr'):
        yield ('pre', 'debug', 'line', (((a, 'A'),), ((a, 'B'),)), 1)
    for lo in range(1, 17):
        yield ('prepart', 'bare', 'call' if not th else 'line', ((('plain', 'A'),), (('plain', 'B'),)), 2, lo, 16)
    # nothing set up by anybody
    Q = conc.QUIET
    hq = ('q-nothing', 'q-arg', 'q-rawhdr') if not th else Q
    for i, a in enumerate(Q):
        for j, b in enumerate(Q):
            if a == b or b in hq and (a not in hq or i < j):
                yield ('pre', 'quiet', 'line', (((a, 'A'),), ((b, 'B'),)), 1)
            elif i < j and a not in hq:
                yield ('pre', 'quiet', 'call', (((a, 'A'),), ((b, 'B'),)), 1)
    LS = conc.LISTS
    for a, b in zip(LS, LS[1:] + LS[:1]):
        yield ('pre', 'quiet', 'line', (((a, 'A'),), ((a, 'B'),)), 1)
        yield ('pre', 'quiet', 'line', (((a, 'A'),), ((b, 'B'),)), 1)
    for a in Q:
        yield ('cold', 'quiet', (((a, 'A'),), ((a, 'B'),)))
    for a, b in itertools.product(('d-page', 'd-405'), repeat=2):
        yield ('pre', 'domain', 'line', (((a, 'A'),), ((b, 'B'),)), 1)
        yield ('pre', 'domain', 'line', (((a, 'A'),), ((b, 'C'),)), 1)
    # first use
    for a in K1:
        yield ('cold', 'app', (((a, 'A'),), ((a, 'B'),)))
    for a, b in (('404', 'crash.json'), ('full', '405'), ('args', 'signed'), ('undec', 'full')):
        yield ('cold', 'app', (((a, 'A'),), ((b, 'B'),)))
    yield ('cold', 'bare', ((('plain', 'A'),), (('plain', 'B'),)))
    for a in KD:
        yield ('cold', 'default', (((a, 'A'),), ((a, 'B'),)))
    # reused threads
    seqs = ['full', 'crash', 'gen', 'undec', 'shared', 'form']
    for a, b in zip(seqs, seqs[1:] + seqs[:1]):
        yield ('pre', 'app', 'line', (((a, 'A'), (b, 'C')), ((b, 'B'), (a, 'B'))), 1)
    # two preemptions
    two = [('full', 'full'), ('sherr', 'crash')]
    if th:
        two += [(a, 'full') for a in ('hdr', 'form', 'big', '404', 'undec', 'raised', 'shared', 'signed', 'edit', 'gen')]
    for a, b in two:
        for lo in range(1, 17):
            yield ('prepart', 'app', 'call', (((a, 'A'),), ((b, 'B'),)), 2, lo, 16)
    # three threads
    three = [('full', 'gen', 'crash'), ('full', 'full', 'full')]
    if th:
        three += [('sherr', 'shared', 'sherr'), ('form', 'upload', 'json'), ('404', 'abort', '405'), ('signed', 'full', 'edit'), ('big', 'triedbig', 'badchunk'), ('gen', 'genfail', 'wrapper')]
    for t in three:
        for lo in range(1, 17):
            yield ('prepart', 'app', 'call', tuple(((k, g),) for k, g in zip(t, 'ABC')), 2 if th and t in three[1:2] else 1, lo, 16)
    if th:
        for a in ('full', 'hdr', 'form', 'big', '404', 'shared', 'sherr', 'crash', 'gen', 'signed', 'edit', 'args', 'raised', 'wrapped'):
            yield ('pre', 'app', 'op', (((a, 'A'),), ((a, 'B'),)), 1)
        for a, b in (('hook', 'raised'),):
            for lo in range(1, 129):
                yield ('prepart', 'app', 'line', (((a, 'A'),), ((b, 'B'),)), 2, lo, 128)


NSHARD = 96
NCOLD = 12


def shards(tier):
    # first use: in processes that have run nothing else
    return [dict(cold=i) for i in range(NCOLD)] + [dict(i=i) for i in range(NSHARD)]


def run_shard(shard, ctx):
    cold = 'cold' in shard
    i, n = (shard['cold'], NCOLD) if cold else (shard['i'], NSHARD)
    mine = [c for c in cases(ctx.tier) if (c[0] == 'cold') == cold]
    for c in mine[i::n]:
        ctx.run(c)
