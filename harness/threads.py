"""Run calls in several threads under a chosen schedule.

Exactly one thread runs at a time.  A thread can be switched at every line of serde's own code and
of the code serde generates (sys.settrace), and when it waits for a lock serde created (such locks
are replaced by ones that tell the scheduler).  A plan is a list of [thread, until]: the thread runs
until the condition holds, it finishes, or it can not go on; afterwards the threads run to their end
one after the other.  Conditions:
  n                      n lines
  ["scope", class]       the class got a scope
  ["ready", class, dir]  the class got its functions of the direction
  ["use", class]         a generated function of the class is called by the thread
  ["locked"]             the thread holds a lock
  ["stored"]             something was added to the cache of wrapper classes
"""
from __future__ import annotations

import _thread
import os
import sys
import threading
import time

SCOPE = "__serde__"
FUNC = {"se": "to_dict", "de": "from_dict"}
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
ACTIVE = None


class Deadlock(BaseException):
    pass


class CoopLock:
    """A lock of serde's; reentrant or not."""

    made = []

    def __init__(self, reentrant):
        if len(CoopLock.made) < 50:
            CoopLock.made.append(self)
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _free_for(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while not self._free_for(me):
            if not blocking:
                return False
            s = ACTIVE
            if s is None or me not in s.ids:
                time.sleep(.001)
                continue
            if timeout is not None and timeout >= 0 and not s.others_runnable(me):
                return False
            s.blocked(me, self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner != _thread.get_ident() and self.reentrant:
            raise RuntimeError("cannot release un-acquired lock")
        if self.depth == 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        d, self.depth, self.owner = self.depth, 0, None
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


def install(root):
    """Replace the locks serde creates from now on."""
    def mine():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(root)

    def lock():
        return CoopLock(False) if mine() else REAL_LOCK()

    def rlock():
        return CoopLock(True) if mine() else REAL_RLOCK()
    threading.Lock, threading.RLock = lock, rlock


class Sched:
    def __init__(self, fns, plan, root, classes, only=None, limit=20.0):
        self.fns = fns
        self.plan = [list(p) for p in plan]
        self.root = root
        self.classes = classes
        self.only = only
        self.n = [0] * len(fns)
        self.turn = []
        for _ in fns:
            k = _thread.allocate_lock()
            k.acquire()
            self.turn.append(k)
        self.fin = [False] * len(fns)
        self.wait = [None] * len(fns)
        self.ids = {}
        self.results = [None] * len(fns)
        self.done = threading.Event()
        self.cur = None
        self.seg = None
        self.dead = False
        self.limit = limit
        self.switches = 0
        self.where = []
        self.beat = time.time()

    # ------------------------------------------------------------------ conditions
    def begin(self, t):
        """Find the segment of the plan to follow next; returns the thread to run."""
        while self.plan:
            u, cond = self.plan.pop(0)
            if u >= len(self.fns) or not self.runnable(u):
                continue
            if isinstance(cond, list):
                cond = self.condition(u, cond)
            else:
                end = self.n[u] + cond
                cond = lambda u=u, end=end: self.n[u] >= end
            self.seg = (u, cond)
            return u
        self.seg = None
        if t is not None and self.runnable(t):
            return t
        for u in range(len(self.fns)):
            if self.runnable(u):
                return u
        return None

    def cache_size(self):
        try:
            return len(sys.modules["serde.core"].CACHE.classes)
        except Exception:
            return 0

    def condition(self, u, c):
        k = c[0]
        if k == "scope":
            p = lambda: SCOPE in self.classes[c[1]].__dict__
        elif k == "ready":
            def p():
                s = self.classes[c[1]].__dict__.get(SCOPE) if c[1] in self.classes else None
                return FUNC[c[2]] in getattr(s, "funcs", ())
            if c[1] not in self.classes:
                k = "few"
        elif k == "locked":
            p = lambda: any(l.owner == self.tid(u) for l in CoopLock.made)
        elif k == "stored":
            n = self.cache_size()
            p = lambda: self.cache_size() != n
        elif k == "use":
            want = self.classes.get(c[1])
            p = lambda: self.used is want and want is not None
            self.used = None
        if k not in ("scope", "ready", "stored", "use", "locked") or p():
            end = self.n[u] + 2 + sum(map(ord, str(c) + str(self.n[u]))) % 9
            return lambda: self.n[u] >= end
        return p

    used = None

    def tid(self, u):
        for i, x in self.ids.items():
            if x == u:
                return i

    def runnable(self, u):
        return not self.fin[u] and (self.wait[u] is None or self.wait[u].owner is None)

    def others_runnable(self, me):
        t = self.ids[me]
        return any(self.runnable(u) for u in range(len(self.fns)) if u != t)

    # ------------------------------------------------------------------ switching
    def give(self, t, u):
        self.cur = u
        if u == t:
            return
        self.switches += 1
        try:
            self.turn[u].release()
        except RuntimeError:
            pass
        if t is not None and not self.fin[t]:
            self.turn[t].acquire()
            if self.dead:
                raise Deadlock()

    def point(self, t):
        self.beat = time.time()
        if self.dead:
            raise Deadlock()
        self.n[t] += 1
        if self.seg and self.seg[0] == t and self.seg[1]():
            u = self.begin(t)
            if u is not None and u != t:
                if len(self.where) < 8:
                    f = sys._getframe(2)
                    self.where.append(f"{t}@{os.path.basename(f.f_code.co_filename)}:"
                                      f"{f.f_code.co_name}:{f.f_lineno}")
                self.give(t, u)

    def blocked(self, me, lock):
        t = self.ids[me]
        self.wait[t] = lock
        u = self.begin(None)
        if u is None:
            self.kill()
            raise Deadlock()
        if u != t:
            self.give(t, u)
        self.wait[t] = None

    def kill(self):
        self.dead = True
        for u in range(len(self.fns)):
            if not self.fin[u]:
                try:
                    self.turn[u].release()
                except RuntimeError:
                    pass

    # ------------------------------------------------------------------ threads
    def tracer(self, t):
        root, only = self.root, self.only
        point = self.point

        def local(frame, event, arg):
            if event == "line":
                point(t)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn == "<string>":
                if event == "call":
                    c = frame.f_globals.get("cls")
                    if frame.f_code.co_name[:3] in ("to_", "fro"):
                        self.used = c
                        point(t)
                        self.used = None
                return local
            if not fn.startswith(root):
                return None
            if only and os.path.basename(fn) not in only:
                return None
            return local
        return glob

    def body(self, t):
        me = _thread.get_ident()
        self.ids[me] = t
        self.turn[t].acquire()
        res = []
        try:
            if self.dead:
                raise Deadlock()
            for f in self.fns[t]:
                sys.settrace(self.tracer(t))
                try:
                    r = ("ok", f())
                except Deadlock:
                    raise
                except Exception as e:
                    r = ("exc", e)
                finally:
                    sys.settrace(None)
                res.append(r)
        except Deadlock:
            pass
        finally:
            sys.settrace(None)
            self.results[t] = res
            self.fin[t] = True
            if not self.dead:
                u = self.begin(None)
                if u is not None:
                    self.give(None, u)
                elif all(self.fin):
                    self.done.set()
                else:
                    self.kill()
            if all(self.fin):
                self.done.set()

    def run(self):
        global ACTIVE
        ACTIVE = self
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
        for x in ths:
            x.start()
        while len(self.ids) < len(ths):
            time.sleep(.0005)
        u = self.begin(None)
        self.cur = u
        self.beat = time.time()
        self.turn[u].release()
        t0 = time.time()
        while not self.done.wait(.5):
            if time.time() - t0 > self.limit:
                self.dead = True
                break
            if time.time() - self.beat > 3:
                # The running thread waits for something the scheduler does not know of.
                self.beat = time.time()
                for v in range(len(self.fns)):
                    if v != self.cur and self.runnable(v):
                        self.cur = v
                        try:
                            self.turn[v].release()
                        except RuntimeError:
                            pass
                        break
        ACTIVE = None
        return [r or [] for r in self.results]
