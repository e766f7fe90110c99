"""Cooperative scheduler: several clients, one at a time, switched at source lines of marxs code chosen by the plan.

Each client is a thread parked on its own semaphore; exactly one holds the token.  The state of numpy's global random
generator belongs to the client (it is swapped at every switch), so that a client's draws do not depend on the others.
"""
import threading
import numpy as np
from sim import world
from sim.core import HarnessError


class Abort(BaseException):
    """Injected interruption of one client (like Ctrl-C in the middle of a run)."""


class Client:
    def __init__(self, name, func, seed):
        self.name = name
        self.func = func
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.lines = 0
        self.abort_at = None
        r = np.random.RandomState(seed % 2**32)
        self.rng = r.get_state()


class Scheduler:
    def __init__(self, switches, granularity='line', aborts=()):
        """switches: list of [number of lines to run, index of the next client (modulo runnable)]"""
        self.switches = list(switches)
        self.gran = granularity
        self.clients = []
        self.cur = None
        self.left = None
        self.k = 0
        self.trace = []
        self.main = threading.Semaphore(0)
        self.aborts = list(aborts)
        self.nswitch = 0
        self.sites = set()

    def spawn(self, name, func, seed):
        c = Client(name, func, seed)
        for who, at in self.aborts:
            if who == name:
                c.abort_at = at
        self.clients.append(c)
        return c

    # -- called in the running client
    def line(self, code, lineno):
        c = self.cur
        if c is None or threading.current_thread() is not c.thread:
            return
        c.lines += 1
        if c.abort_at is not None and c.lines >= c.abort_at:
            c.abort_at = None
            self.trace.append((c.name, 'abort', c.lines))
            raise Abort()
        if self.gran == 'line':
            self.tick((code.co_name, lineno))

    def point(self, label=''):
        """A possible switch point between two elements."""
        if self.gran == 'element':
            self.tick(label)

    def tick(self, site):
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        nxt = self.pick()
        self.next_budget()
        if nxt is self.cur or nxt is None:
            return
        self.sites.add(site)
        self.nswitch += 1
        self.trace.append((self.cur.name, nxt.name, self.cur.lines))
        self.handover(nxt)

    def pick(self):
        run = [c for c in self.clients if not c.done]
        if not run:
            return None
        j = self.switches[self.k][1] if self.k < len(self.switches) else 0
        return run[j % len(run)]

    def next_budget(self):
        self.k += 1
        self.left = self.switches[self.k][0] if self.k < len(self.switches) else None

    def handover(self, nxt):
        me = self.cur
        me.rng = np.random.get_state()
        self.cur = nxt
        np.random.set_state(nxt.rng)
        nxt.sem.release()
        me.sem.acquire()

    def body(self, c):
        c.sem.acquire()
        try:
            c.result = c.func()
        except BaseException as e:  # noqa
            c.error = e
        c.done = True
        c.rng = np.random.get_state()
        run = [x for x in self.clients if not x.done]
        if run:
            nxt = run[0]
            self.cur = nxt
            np.random.set_state(nxt.rng)
            nxt.sem.release()
        else:
            self.cur = None
            self.main.release()

    def run(self, limit=3000000):
        saved = np.random.get_state()
        self.left = self.switches[0][0] if self.switches else None
        for c in self.clients:
            c.thread = threading.Thread(target=self.body, args=(c,), daemon=True)
            c.thread.start()
        self.cur = self.clients[0]
        np.random.set_state(self.cur.rng)
        with world.Steps(limit, self.line) as st:
            self.cur.sem.release()
            if not self.main.acquire(timeout=110):
                raise HarnessError('scheduler: no progress')
        for c in self.clients:
            c.thread.join(5)
        np.random.set_state(saved)
        self.steps = st.n
        return self
