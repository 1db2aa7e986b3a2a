"""
Cooperative scheduler of real threads: exactly one simulated thread runs at a time, and
the scheduler decides at every line of pvgridder code (and every lock operation) who.

A schedule is a list of [step, pick] pairs: at global step number *step*, the running
thread is preempted and the *pick*-th other runnable thread goes on. Everything else is
run-to-completion in thread order, so that an empty schedule is a serial execution.
"""
import threading as _t

_real_lock = _t.Lock

CURRENT = None  # active Scheduler


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, bodies, schedule, max_steps=2_000_000):
        self.bodies = bodies
        self.schedule = {int(s): int(p) for s, p in schedule}
        self.max_steps = max_steps
        self.step = 0
        self.n = len(bodies)
        self.gates = [_t.Semaphore(0) for _ in bodies]
        self.done_gate = _t.Semaphore(0)
        self.state = ["ready"] * self.n  # ready | blocked | done
        self.waiting_on = [None] * self.n
        self.results = [None] * self.n
        self.running = None
        self.switches = []  # (step, from, to): the trace
        self.sites = []
        self.ids = {}
        self.deadlock = False
        self.overrun = False

    # -- called from simulated threads
    def me(self):
        return self.ids.get(_t.get_ident())

    def yield_point(self, site=None):
        i = self.me()
        if i is None or i != self.running:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.overrun = True
            raise _Abort()
        pick = self.schedule.get(self.step)
        if pick is None:
            return
        others = [j for j in range(self.n) if j != i and self.state[j] == "ready"]
        if not others:
            return
        j = others[pick % len(others)]
        self.switches.append((self.step, i, j))
        self.sites.append(site)
        self._switch(i, j)

    def block(self, lock):
        """Current thread waits for a lock."""
        i = self.me()
        self.state[i], self.waiting_on[i] = "blocked", lock
        nxt = self._next(i)
        if nxt is None:
            self.deadlock = True
            self._wake_all_for_abort()
            raise _Abort()
        self._switch(i, nxt)
        if self.deadlock:
            raise _Abort()

    def unblock(self, lock):
        for j in range(self.n):
            if self.state[j] == "blocked" and self.waiting_on[j] is lock:
                self.state[j], self.waiting_on[j] = "ready", None

    def _next(self, i):
        order = [(i + d) % self.n for d in range(1, self.n + 1)]
        for j in order:
            if self.state[j] == "ready":
                return j
        return None

    def _switch(self, i, j):
        self.running = j
        self.gates[j].release()
        self.gates[i].acquire()

    def _wake_all_for_abort(self):
        for j in range(self.n):
            if self.state[j] == "blocked":
                self.state[j] = "ready"

    def _run_thread(self, i):
        self.ids[_t.get_ident()] = i
        self.gates[i].acquire()
        try:
            self.results[i] = ("ok", self.bodies[i]())
        except _Abort:
            self.results[i] = ("abort", None)
        except BaseException as exc:  # noqa: BLE001 - outcome of the simulated caller
            self.results[i] = ("raise", exc)
        self.state[i] = "done"
        nxt = self._next(i)
        if nxt is None:
            if all(s == "done" for s in self.state):
                self.running = None
                self.done_gate.release()
                return
            self.deadlock = True
            self._wake_all_for_abort()
            nxt = self._next(i)
        self.running = nxt
        self.gates[nxt].release()

    def run(self):
        global CURRENT
        threads = [_t.Thread(target=self._run_thread, args=(i,), daemon=True) for i in range(self.n)]
        CURRENT = self
        try:
            for t in threads:
                t.start()
            while len(self.ids) < self.n:
                pass
            self.running = 0
            self.gates[0].release()
            self.done_gate.acquire()
            for t in threads:
                t.join()
        finally:
            CURRENT = None
        return self.results


class SimLock:
    """Lock or RLock whose contention is resolved by the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.real = None

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = _t.get_ident()
        if s is None or s.me() is None:
            if self.owner is not None and not (self.reentrant and self.owner == me):
                if not blocking:
                    return False
                raise Deadlock("lock held by a caller that is gone")
            self.owner, self.count = me, self.count + 1
            return True
        s.yield_point("lock")
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s.block(self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if CURRENT is not None:
                CURRENT.unblock(self)

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        return self.owner == _t.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()
