"""Controlled scheduler: runs the real code on real threads, one thread at a time.

A schedule is a list of segments (thread, points): the thread runs until it has passed that many
scheduling points (None: until it ends), then the next segment's thread runs.  After the last
segment the unfinished threads run to their end, lowest number first.  A scheduling point is a
line about to be executed in a traced file (granularity 'line'), a function being entered ('call') or an
opcode ('op').  Code in other files is atomic.  A thread that blocks (a lock held by
a suspended thread) is noticed by a time-out and another one runs until it can go on.
"""
import os
import sys
import threading
from _thread import allocate_lock, start_new_thread

STALL_S = 0.25


class Deadlock(Exception):
    pass


class Result:
    __slots__ = ('values', 'points', 'early', 'stalls', 'used')


class Sched:
    def __init__(self, grain):
        """grain: filename -> 'line' | 'call' | 'op' | None"""
        self.grain = grain
        self.codes = {}

    def _kind(self, code):
        k = self.codes.get(code, 0)
        if k == 0:
            k = self.codes[code] = self.grain(code.co_filename)
        return k

    def run(self, tasks, segs, stall=STALL_S, dead=20.0):
        n = len(tasks)
        go = [allocate_lock() for _ in range(n)]
        for g in go:
            g.acquire()
        done = allocate_lock()
        done.acquire()
        finished = [False] * n
        stalled = [False] * n
        counts = [0] * n
        values = [None] * n
        st = dict(cur=-1, budget=0, pos=-1, early=False, moves=0)
        mutex = allocate_lock()

        def advance(ended=None):
            """choose what runs next -> thread or None; called by the running thread (or the main one)"""
            st['moves'] += 1
            while st['pos'] + 1 < len(segs):
                st['pos'] += 1
                t, b = segs[st['pos']]
                if finished[t] or stalled[t] or b == 0:
                    continue
                st['cur'], st['budget'] = t, (1 << 60) if b is None else b
                return t
            st['budget'] = 1 << 60
            for t in range(n):
                if not finished[t] and not stalled[t]:
                    st['cur'] = t
                    return t
            for t in range(n):
                if not finished[t]:
                    st['cur'] = t       # still blocked: goes on by itself
                    return t
            return None

        def hand(me, t):
            if t is not None and t != me and not stalled[t]:
                go[t].release()

        def make(i):
            mygo = go[i]
            kind = self._kind

            def point():
                if st['cur'] != i:
                    # was blocked or slow, another thread runs now
                    with mutex:
                        if st['cur'] != i:
                            stalled[i] = False
                            park = True
                        else:
                            park = False
                    if park:
                        mygo.acquire()
                stalled[i] = False
                counts[i] += 1
                st['budget'] -= 1
                if st['budget'] <= 0:
                    t = advance()
                    if t != i:
                        hand(i, t)
                        mygo.acquire()

            def local_line(frame, event, arg):
                if event == 'line':
                    point()
                return local_line

            def local_op(frame, event, arg):
                if event == 'opcode':
                    point()
                return local_op

            def tracer(frame, event, arg):
                k = kind(frame.f_code)
                if k is None:
                    return None
                if k == 'line':
                    return local_line
                if k == 'op':
                    frame.f_trace_opcodes = True
                    return local_op
                point()
                return None

            def body():
                mygo.acquire()
                sys.settrace(tracer)
                try:
                    values[i] = ('ok', tasks[i]())
                except BaseException as e:      # noqa
                    sys.settrace(None)
                    values[i] = ('exc', type(e).__name__, str(e))
                finally:
                    sys.settrace(None)
                    if st['cur'] == i and 0 < st['budget'] < (1 << 59):
                        st['early'] = st['early'] or st['pos'] + 1
                    finished[i] = True
                    if st['cur'] == i or st['cur'] == -1:
                        t = advance()
                        if t is None:
                            done.release()
                        else:
                            hand(i, t)
                    elif all(finished):
                        try:
                            done.release()
                        except RuntimeError:
                            pass
            return body
        for i in range(n):
            start_new_thread(make(i), ())
        t = advance()
        hand(-1, t)
        stalls = 0
        idle = 0.0
        seen = None
        while not done.acquire(True, stall):
            now = (sum(counts), st['moves'], sum(finished))
            if now != seen:
                seen = now
                idle = 0.0
                continue
            idle += stall
            if idle > dead:
                raise Deadlock('threads do not finish: %r points passed, finished %r' % (counts, finished))
            with mutex:
                c = st['cur']
                if finished[c]:
                    if all(finished):
                        break
                stalled[c] = True
                nxt = None
                for t in range(n):
                    if not finished[t] and not stalled[t]:
                        nxt = t
                        break
                if nxt is None:
                    continue
                st['cur'], st['budget'] = nxt, 1 << 60
                st['moves'] += 1
                stalls += 1
                go[nxt].release()
        r = Result()
        r.values, r.points, r.early, r.stalls, r.used = values, counts, st['early'], stalls, st['pos']
        return r


def files_grain(paths, kind='line', extra=()):
    """grain for every file below the directories `paths`; extra: (filename, kind)"""
    paths = [os.path.realpath(p) + os.sep for p in paths]
    ex = dict((os.path.realpath(f), k) for f, k in extra)

    def grain(fn):
        if fn[:1] == '<':
            return None
        fn = os.path.realpath(fn)
        if fn in ex:
            return ex[fn]
        return kind if any(fn.startswith(p) for p in paths) else None
    return grain
