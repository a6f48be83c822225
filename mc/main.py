import importlib
import json
import os
import sys
import time

from . import core

BUDGET = {'quick': 420.0, 'thorough': 700.0}


def known_findings(pid):
    out = {}
    p = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            f = dict(w.split('=', 1) for w in line.split() if '=' in w and w.split('=', 1)[0] in ('property', 'sig'))
            if f.get('property') == pid and f.get('sig'):
                out[f['sig']] = line[len('finding:'):].strip()
    return out


def main(argv):
    module = importlib.import_module('mc.checks.' + argv[0].lower()) if core.import_target() else None
    # scratch files of a check: made before the first fork, removed whatever happens to the children
    getattr(module, 'prepare', lambda: None)()
    try:
        return main_(argv, module)
    finally:
        getattr(module, 'cleanup', lambda: None)()


def main_(argv, module):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in BUDGET:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 0)
    except ValueError:
        seed = 0
    known = known_findings(pid)

    if '--replay' in argv:
        rec = json.load(open(argv[argv.index('--replay') + 1]))
        if rec['kind'] == 'case':
            r = core.once(module, core.dec(rec['case']), rec['tier'], rec['seed'])
        else:
            f = core.shard_again(module, core.dec(rec['shard']), rec['tier'], rec['seed'], set(known),
                                 rec['case_no'], 800)
            r = (f['msg'], f['sig']) if f else None
        if r:
            print('REPRODUCED property=%s\n%s' % (pid, r[0]))
            return 1
        print('not reproduced')
        return 0

    t0 = time.monotonic()
    budget = float(os.environ.get('VERIF_BUDGET') or BUDGET[tier])
    deadline = t0 + budget
    shards = module.shards(tier)
    if seed and shards:
        k = seed % len(shards)
        shards = shards[k:] + shards[:k]
    nproc = int(os.environ.get('VERIF_NPROC') or min(8, os.cpu_count() or 8))

    agg = dict(states=set(), transitions=0, traces=0, outcomes={}, extra={}, samples=[], notes=[])
    failures, harness, truncated, known_hits = [], [], [], {}
    times = []
    done = [0]

    def mk(shard):
        def fn(beat):
            ts = time.monotonic()
            ctx = core.Ctx(module, tier, seed, shard, deadline, set(known), beat)
            try:
                module.run_shard(shard, ctx)
            except core.Stop:
                pass
            except Exception:   # noqa   exploration code died on what the code under test gave back
                import traceback
                ctx.failures.append(dict(case=None, msg='exploration failed:\n' + traceback.format_exc(limit=-10),
                                         sig=None, case_no=ctx.case_no))
            res = ctx.result()
            res['wall'] = time.monotonic() - ts
            return res, ctx.states
        return fn

    def on_result(i, res, st, status, killed):
        shard = shards[i]
        if res is None:
            if stop():
                return
            failures.append(dict(shard=shard, msg='shard process died or hung (status %r, killed=%s)' % (status, killed),
                                 case=None, case_no=None, sig='hang'))
            return
        if 'harness_error' in res:
            harness.append((shard, res['harness_error']))
            return
        done[0] += 1
        times.append((time.monotonic() - t0, shard, res['traces'], res.get('wall')))
        import array
        a = array.array('Q')
        a.frombytes(st)
        agg['states'].update(a)
        agg['transitions'] += res['transitions']
        agg['traces'] += res['traces']
        for k in ('outcomes', 'extra'):
            for kk, v in res[k].items():
                agg[k][kk] = agg[k].get(kk, 0) + v
        if len(agg['samples']) < 6:
            agg['samples'] += res['samples'][:1]
        for n in res['notes']:
            if n not in agg['notes']:
                agg['notes'].append(n)
        if res['truncated']:
            truncated.append(shard)
        for k, v in res['known'].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for f in res['failures']:
            f['shard'] = shard
            failures.append(f)

    stopflag = [False]

    def stop():
        if stopflag[0]:
            return True
        if time.monotonic() > deadline + 30:
            stopflag[0] = True
        # enough failures to report
        if len(failures) >= 3 or (failures and time.monotonic() - t0 > 60):
            stopflag[0] = True
        return stopflag[0]

    core.run_children([(i, mk(s)) for i, s in enumerate(shards)], nproc, 120, on_result, stop)

    # ---- confirm
    confirmed, unconfirmed = [], []
    failures.sort(key=lambda f: (len(json.dumps(f['case'])) if f['case'] is not None else 10 ** 9))
    for f in failures:
        if confirmed:
            break
        left = 840 - (time.monotonic() - t0)
        if f['case'] is not None:
            r = core.once(module, core.dec(f['case']), tier, seed)
            if r:
                f['confirm'] = r[0]
                confirmed.append(('case', f))
                continue
            if left > 20:
                g = core.shard_again(module, f['shard'], tier, seed, set(known), f['case_no'], left - 10)
                if g:
                    confirmed.append(('shard', f))
                    continue
            unconfirmed.append(f)
        else:
            confirmed.append(('shard', f))

    outd = os.path.join(core.VERIF, 'out')
    os.makedirs(outd, exist_ok=True)
    rc = 0
    for sig, n in sorted(known_hits.items()):
        print('KNOWN-FINDING: %s' % known[sig])
    for kind, f in confirmed[:1]:
        name = os.path.join(outd, '%s-%s.json' % (pid, tier))
        json.dump(dict(property=pid, kind=kind, tier=tier, seed=seed, case=f['case'], shard=core.enc(f['shard']),
                       case_no=f['case_no'], message=f['msg'],
                       how='./check %s --replay %s' % (pid, name)), open(name, 'w'), indent=1)
        print(f['msg'])
        print('case: %s' % json.dumps(f['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, name))
        rc = 1
    for f in unconfirmed:
        print('note: a failure did not reproduce and is not reported: %s' % f['msg'][:500])

    wall = time.monotonic() - t0
    complete = done[0] == len(shards) and not truncated and not failures and not harness
    cov = dict(
        states=len(agg['states']), transitions=agg['transitions'],
        traces_validated_against_impl=agg['traces'],
        samples=agg['samples'] or [core.enc(s) for s in shards[:1]],
        rule=module.RULE, shards=len(shards), shards_completed=done[0],
        truncated_shards=[core.enc(s) for s in truncated][:20],
        exhaustive=complete, distinct_outcomes=len(agg['outcomes']),
        outcomes=dict(sorted(agg['outcomes'].items(), key=lambda kv: -kv[1])[:30]),
        bounds=getattr(module, 'BOUNDS', {}).get(tier, {}),
    )
    if agg['extra']:
        cov['counters'] = agg['extra']
    if agg['notes']:
        cov['notes'] = agg['notes']
    if unconfirmed:
        cov['unreproduced'] = [f['msg'][:300] for f in unconfirmed]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(module, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=len(confirmed))
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    print('%s %s: states=%d transitions=%d executions=%d outcomes=%d shards=%d/%d wall=%.1fs%s' % (
        pid, tier, cov['states'], cov['transitions'], agg['traces'], len(agg['outcomes']), done[0], len(shards), wall,
        '' if complete else ' (not exhaustive)'))
    if os.environ.get('VERIF_TIMES'):
        for t in sorted(times, key=lambda t: -t[3])[:12]:
            print('  shard %r: %d executions %.1fs (ended at %.1fs)' % (t[1], t[2], t[3], t[0]))
    if harness:
        for s, e in harness[:3]:
            sys.stderr.write('harness error in shard %r:\n%s\n' % (s, e))
        if rc == 0:
            rc = 2
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
