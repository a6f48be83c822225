"""Shared engine of the model checkers.

A check module (mc/checks/cNN.py) gives
    ID, TECHNIQUE, RULE       - strings
    shards(tier)              - list of JSON-able shard descriptors (the partition of the bounded space)
    run_shard(shard, ctx)     - enumerates the shard; every execution goes through ctx.run(case)
    run_case(case, ctx)       - executes one case on the real code, raises Violation when the property fails
Every shard runs in a process of its own, forked from a parent that has only imported
the code under test, so a shard is deterministic whatever ran before it.
"""
import array
import hashlib
import io
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HangError(BaseException):
    pass


class Stop(BaseException):
    """raised inside a shard when it has to stop (violation recorded or deadline)"""


def import_target():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import ombott
    got = os.path.realpath(os.path.dirname(os.path.dirname(ombott.__file__)))
    if got != os.path.realpath(REPO):
        raise SystemExit('ombott imported from %s instead of %s' % (got, REPO))
    return ombott


def h64(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode('utf8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'little')


def enc(o):
    """JSON-able form of a case (bytes and tuples survive)."""
    if isinstance(o, (bytes, bytearray)):
        return {'$b': bytes(o).decode('latin1')}
    if isinstance(o, tuple):
        return {'$t': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {'$d': [[enc(k), enc(v)] for k, v in o.items()]}
    return o


def dec(o):
    if isinstance(o, dict):
        if '$b' in o:
            return o['$b'].encode('latin1')
        if '$t' in o:
            return tuple(dec(x) for x in o['$t'])
        return {dec(k): dec(v) for k, v in o['$d']}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def case_key(case):
    return json.dumps(enc(case), sort_keys=False)


class Ctx:
    """Per-shard context: counters, watchdog, failure record."""

    def __init__(self, module, tier, seed, shard=None, deadline=None, known=(), beat=None,
                 hang_s=30.0, max_failures=1):
        self.module = module
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.deadline = deadline
        self.known = known
        self.beat = beat
        self.hang_s = getattr(module, 'HANG_S', hang_s)
        self.max_failures = max_failures
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.extra = {}
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.case_no = 0
        self.truncated = False
        self._last_beat = 0.0
        self.note_ = []
        self.keep_going = False

    thorough = property(lambda s: s.tier == 'thorough')

    # ---- counters
    def state(self, key):
        h = h64(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, text):
        if text not in self.note_:
            self.note_.append(text)

    # ---- execution
    def tick(self):
        now = time.monotonic()
        if now - self._last_beat > 0.5:
            self._last_beat = now
            if self.beat:
                self.beat()
            if self.deadline and now > self.deadline:
                self.truncated = True
                raise Stop('deadline')

    def rearm(self):
        """inside a case that consists of many executions: the watchdog starts again"""
        self.tick()
        signal.setitimer(signal.ITIMER_REAL, self.hang_s, 1.0)

    def run(self, case):
        """Execute one case; records a violation. True when the case passed."""
        self.case_no += 1
        self.tick()
        msg = guarded(self.module, case, self, self.hang_s)
        self.traces += 1
        if msg is None:
            if self.case_no in (1, 7):
                self.sample(repr(case)[:400])
            return True
        text, sig = msg
        if sig is not None and sig in self.known:
            self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
            return False
        self.failures.append(dict(case=enc(case), msg=text, sig=sig, case_no=self.case_no))
        if not self.keep_going and len(self.failures) >= self.max_failures:
            raise Stop('violation')
        return False

    def fail(self, msg, case, sig=None):
        """Violation found outside run_case (history/search level)."""
        if sig is not None and sig in self.known:
            self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
            return
        self.failures.append(dict(case=enc(case), msg=msg, sig=sig, case_no=self.case_no))
        if not self.keep_going and len(self.failures) >= self.max_failures:
            raise Stop('violation')

    def result(self):
        return dict(
            states=len(self.states), transitions=self.transitions, traces=self.traces,
            outcomes=self.outcomes, extra=self.extra, samples=self.samples,
            failures=self.failures, known=self.known_hits, truncated=self.truncated,
            notes=self.note_, cases=self.case_no)


def _on_alarm(signum, frame):
    raise HangError()


def guarded(module, case, ctx, hang_s):
    """Runs module.run_case under the watchdog -> None or (message, signature)."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, hang_s, 1.0)
    try:
        module.run_case(case, ctx)
        return None
    except Violation as v:
        return (str(v), v.sig)
    except HangError:
        return ('no answer within %gs (hang)' % hang_s, 'hang')
    except Stop:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:   # noqa
        return ('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)), None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def _quiet_child():
    # nothing the code under test prints may look like a report of the check
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    sys.stdout = open(1, 'w', closefd=False)


class Child:
    def __init__(self, fn, tag):
        self.tag = tag
        r, w = os.pipe()
        self.r = r
        self.buf = bytearray()
        self.last = time.monotonic()
        self.started = self.last
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                os.setsid()
                _limit()
                _quiet_child()
                beat = lambda: os.write(w, b'.')
                res, states = fn(beat)
                payload = json.dumps(res).encode()
                st = array.array('Q', states).tobytes() if states is not None else b''
                data = b'R' + len(payload).to_bytes(8, 'big') + payload + st
                mv = memoryview(data)
                while mv:
                    n = os.write(w, mv[:65536])
                    mv = mv[n:]
                code = 0
            except BaseException:   # noqa
                try:
                    payload = json.dumps(dict(harness_error=traceback.format_exc())).encode()
                    os.write(w, b'R' + len(payload).to_bytes(8, 'big') + payload)
                except BaseException:  # noqa
                    pass
            finally:
                os._exit(code)
        os.close(w)

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def finish(self):
        os.close(self.r)
        try:
            _, status = os.waitpid(self.pid, 0)
        except ChildProcessError:
            status = -1
        # leftovers of the child (its own session)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        i = self.buf.find(b'R')
        if i < 0:
            return None, b'', status
        n = int.from_bytes(self.buf[i + 1:i + 9], 'big')
        payload = bytes(self.buf[i + 9:i + 9 + n])
        try:
            st = bytes(self.buf[i + 9 + n:])     # cut short when the child was ended while it wrote
            return json.loads(payload), st[:len(st) // 8 * 8], status
        except ValueError:
            return None, b'', status


def run_children(jobs, nproc, silent_kill_s, on_result, stop_check):
    """jobs: iterable of (tag, fn). on_result(tag, res, states_bytes, status, killed)."""
    jobs = list(jobs)[::-1]
    live = {}
    while jobs or live:
        while jobs and len(live) < nproc and not stop_check():
            tag, fn = jobs.pop()
            ch = Child(fn, tag)
            live[ch.r] = ch
        if stop_check():
            jobs = []
            for ch in live.values():
                ch.kill()
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 0.5)
        now = time.monotonic()
        for r in ready:
            ch = live[r]
            data = os.read(r, 1 << 20)
            ch.last = now
            if data:
                ch.buf += data
            else:
                del live[r]
                res, st, status = ch.finish()
                on_result(ch.tag, res, st, status, getattr(ch, 'killed', False))
        for ch in list(live.values()):
            if now - ch.last > silent_kill_s:
                ch.killed = True
                ch.kill()


def once(module, case, tier, seed, hang_s=None):
    """Run one case in a fresh process -> (msg, sig) or None; 'killed' for C-level hangs."""
    out = {}

    def fn(beat):
        ctx = Ctx(module, tier, seed, beat=beat)
        return dict(r=guarded(module, case, ctx, hang_s or ctx.hang_s)), None

    def on_result(tag, res, st, status, killed):
        if res is None:
            out['r'] = ('process died or hung (status %r)' % (status,), 'hang')
        elif 'harness_error' in res:
            out['r'] = (res['harness_error'], None)
        else:
            out['r'] = res['r']

    run_children([(0, fn)], 1, 90, on_result, lambda: False)
    return out.get('r')


def shard_again(module, shard, tier, seed, known, want, tmo):
    """Re-run a shard from scratch; the failure it comes to, or None.  What depends on earlier cases may show at
    another case the second time (object addresses, say): any unlisted failure will do, the wanted one is preferred."""
    out = {}

    def fn(beat):
        ctx = Ctx(module, tier, seed, shard, time.monotonic() + tmo, known, beat)
        try:
            module.run_shard(shard, ctx)
        except Stop:
            pass
        return ctx.result(), None

    def on_result(tag, res, st, status, killed):
        out['r'] = res

    run_children([(0, fn)], 1, 90, on_result, lambda: False)
    res = out.get('r') or {}
    fs = sorted(res.get('failures', ()), key=lambda f: f['case_no'] != want)
    return fs[0] if fs else None
