"""Runs thread functions under a seeded scheduler: one thread runs at a time, switches happen between (traced) lines or
bytecodes of the code under test, so that an interleaving is a function of the seed."""
import hashlib
import os
import random
import sys
import threading

from .runner import HarnessError


class Interleaver(object):
    def __init__(self, seed, prob, root, opcodes=False, max_steps=400000):
        self.rng = random.Random(seed)
        self.prob, self.root, self.opcodes = prob, os.path.realpath(root) + os.sep, opcodes
        self.steps = self.switches = 0
        self.inside = 0  # switches between two threads that are both inside the code under test
        self.digest = hashlib.md5()
        self.max_steps = max_steps
        self.files = {}

    def run(self, fns):
        n = len(fns)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.depth = [0] * n
        self.results = [None] * n
        self.dead = False
        ts = [threading.Thread(target=self._body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.gates[self.rng.randrange(n)].release()
        for t in ts:
            t.join(240)
            if t.is_alive():
                self.dead = True
                raise HarnessError("a scheduled thread did not end")
        return self.results

    def _body(self, k, f):
        self._wait(k)
        sys.settrace(self._tracer(k))
        try:
            self.results[k] = ("ok", f())
        except BaseException as e:
            import traceback
            self.results[k] = ("exc", e, traceback.format_exc())
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.alive:
                self.gates[self.alive[self.rng.randrange(len(self.alive))]].release()

    def _wait(self, k):
        if not self.gates[k].acquire(timeout=200):
            raise HarnessError("scheduler: no turn")

    def _mine(self, fn):
        r = self.files.get(fn)
        if r is None:
            r = self.files[fn] = os.path.realpath(fn).startswith(self.root)
        return r

    def _tracer(self, k):
        def local(frame, event, arg):
            if event == "return":
                self.depth[k] -= 1
            elif event == ("opcode" if self.opcodes else "line"):
                self.steps += 1
                if self.steps < self.max_steps and self.rng.random() < self.prob and len(self.alive) > 1:
                    j = self.alive[self.rng.randrange(len(self.alive))]
                    if j != k:
                        self.switches += 1
                        self.inside += self.depth[j] > 0
                        self.digest.update(b"%d:%s:%d;" % (j, frame.f_code.co_name.encode(), frame.f_lasti))
                        self.gates[j].release()
                        self._wait(k)
            return local

        def top(frame, event, arg):
            if event == "call" and self._mine(frame.f_code.co_filename):
                if frame.f_code.co_flags & 0x20:
                    return None  # generators
                self.depth[k] += 1
                frame.f_trace_opcodes = self.opcodes
                if self.opcodes:
                    frame.f_trace_lines = False
                return local
            return None
        return top
