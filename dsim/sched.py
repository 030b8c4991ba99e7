"""Seeded thread scheduler: one thread runs at a time, switched at lines of toughio's code.

The threads are real; a baton decides which one runs.  A managed thread reaches a switch point at
every line event of toughio code (and at every I/O step); after a drawn number of points it hands
the baton to a drawn other thread.  The gaps come from a PRNG seeded by the scenario, their kind
(dense, medium, sparse) and number from the scenario, so minimisation can reduce the switches.
"""
import os
import random
import threading

from . import core


class Scheduler(object):
    def __init__(self, sim, seed, regime, switches):
        self.sim = sim
        self.rng = random.Random(seed)
        self.regime = regime
        self.left = switches
        self.switched = 0
        self.points = 0
        self.threads = {}  # ident -> index
        self.batons = []
        self.alive = []
        self.current = None
        self.gap = 0
        self.near = 0
        self.under = {}  # thread -> kind of the call under way
        self.pairs = set()
        self.err = None
        self.finished = threading.Event()

    def next_gap(self):
        r = self.rng
        if self.regime == "dense":
            return r.randrange(1, 8)
        if self.regime == "medium":
            return int(2 ** r.uniform(0, 8))
        if self.regime == "sparse":
            return int(2 ** r.uniform(2, 15))
        if self.regime == "i/o":
            return r.choice([1, 1, 1, 2, 3, 10])
        return r.choice([1, 1, 1, 2, 3, 400, 3000])  # bursts

    def io(self, op, name):
        """An I/O step is about to happen."""
        me = self.threads.get(threading.get_ident())
        if me is None or me != self.current:
            return
        self.near = 3
        self.step(me, op + " " + os.path.basename(name).split(".")[0])

    def point(self, code, line):
        me = self.threads.get(threading.get_ident())
        if me is None or me != self.current:
            return
        if self.regime == "i/o":  # I/O steps and the lines right after them only
            if self.near <= 0:
                return
            self.near -= 1
        self.step(me, "{}:{}".format(code.co_name, line))

    def step(self, me, name):
        self.points += 1
        if self.left <= 0 or len(self.alive) < 2:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        self.gap = self.next_gap()
        self.left -= 1
        others = [t for t in self.alive if t != me]
        to = others[self.rng.randrange(len(others))]
        self.switched += 1
        self.pairs.add((name, self.under.get(to, "its first call")))
        self.sim.log("switch", me, "->", to, "at", name)
        self.hand(to)
        self.batons[me].acquire()

    def hand(self, to):
        self.current = to
        self.batons[to].release()

    def run(self, jobs):
        """Run jobs (callables); returns when all are done."""
        self.gap = int(2 ** self.rng.uniform(0, 3 if self.regime == "i/o" else 9))
        ready = threading.Semaphore(0)

        def body(k):
            self.threads[threading.get_ident()] = k
            ready.release()
            self.batons[k].acquire()
            try:
                jobs[k]()
            except BaseException as e:  # the jobs catch what belongs to a call
                self.err = e
            finally:
                self.alive.remove(k)
                if self.alive:
                    self.hand(self.alive[self.rng.randrange(len(self.alive))])
                else:
                    self.finished.set()

        ts = []
        for k in range(len(jobs)):
            self.batons.append(threading.Semaphore(0))
            self.alive.append(k)
            ts.append(threading.Thread(target=body, args=(k,), daemon=True))
        for t in ts:
            t.start()
        for _ in ts:
            ready.acquire()
        self.sim.sched = self
        self.hand(0)
        self.finished.wait()
        for t in ts:
            t.join()
        self.sim.sched = None
        if self.err is not None:
            raise self.err
