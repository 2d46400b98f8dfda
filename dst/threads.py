"""Deterministic scheduler for caller threads: one runs at a time, switched at executed solver lines.

Real threads are parked on locks; who runs next and for how many lines is drawn
from one PRNG, so a seed is one exactly repeatable interleaving.
"""
import os
import random
import sys
import threading

SRC = os.path.join(os.environ.get("REPO", "/repo"), "python", "src") + os.sep


class Scheduler:
    def __init__(self, seed, bodies, quantum):
        self.rng = random.Random(seed)
        self.bodies = bodies
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True] * len(bodies)
        self.quantum = quantum
        self.left = 0
        self.switches = 0
        self.errors = [None] * len(bodies)
        self.done = threading.Semaphore(0)
        self.trace = []

    def next_quantum(self):
        lo, hi = self.quantum
        self.left = self.rng.randint(lo, hi)

    def pick(self):
        live = [k for k, a in enumerate(self.alive) if a]
        return self.rng.choice(live) if live else None

    def yield_from(self, me):
        nxt = self.pick()
        self.next_quantum()
        if nxt != me:
            self.switches += 1
            self.trace.append(nxt)
            self.gates[nxt].release()
            self.gates[me].acquire()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    self.yield_from(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local
            return None
        return glob

    def run_body(self, me):
        self.gates[me].acquire()
        try:
            sys.settrace(self.tracer(me))
            try:
                self.bodies[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # handed to the caller below
            self.errors[me] = e
        self.alive[me] = False
        nxt = self.pick()
        self.next_quantum()
        if nxt is None:
            self.done.release()
        else:
            self.gates[nxt].release()

    def run(self):
        ts = [threading.Thread(target=self.run_body, args=(k,), daemon=True) for k in range(len(self.bodies))]
        for t in ts:
            t.start()
        first = self.pick()
        self.next_quantum()
        self.gates[first].release()
        self.done.acquire()
        for t in ts:
            t.join()
        return self.errors
