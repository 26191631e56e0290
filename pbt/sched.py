"""Cooperative scheduler: threads that take turns at generated points of the code under test.

Every line (or every instruction) executed in a source file of the package under test is a possible switching point.  A
schedule is a list of [lines to run, thread to go on with]; when it is used up it starts again.  Only
the thread which holds the turn runs, so a schedule is reproducible."""
import os
import sys
import threading

import boot

PACKAGE = os.path.join(os.path.realpath(boot.REPO), 'blueqat') + os.sep
STALL = 5.0


class _Turns:
    def __init__(self, n, schedule):
        self.n = n
        self.schedule = schedule or [[1, 0]]
        self.pos = 0
        self.left = self.schedule[0][0]
        self.turn = 0
        self.alive = set(range(n))
        self.cond = threading.Condition()
        self.free = False            # a thread stalled while holding the turn (a lock): everybody runs
        self.ticks = 0
        self.switches = 0

    def wait(self, me):
        while self.turn != me and not self.free:
            before = self.ticks
            if not self.cond.wait(STALL) and self.ticks == before:
                self.free = True
                self.cond.notify_all()

    def start(self, me):
        with self.cond:
            self.wait(me)

    def tick(self, me):
        self.ticks += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        with self.cond:
            self.pos += 1
            run, pick = self.schedule[self.pos % len(self.schedule)]
            self.left = max(1, run)
            others = sorted(self.alive - {me})
            if not others:
                return
            self.turn = others[pick % len(others)]
            self.switches += 1
            self.cond.notify_all()
            self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = min(self.alive)
            self.cond.notify_all()


def run(jobs, schedule, fine=False):
    """Run the callables concurrently; returns ([(value, exception)], number of switches).

    With fine=True threads switch between instructions of the interpreter, not only between lines."""
    turns = _Turns(len(jobs), schedule)
    out = [None] * len(jobs)
    ours = {}
    kind = 'opcode' if fine else 'line'

    def body(k):
        def local(frame, event, arg):
            if event == kind:
                turns.tick(k)
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name not in ours:
                ours[name] = os.path.realpath(name).startswith(PACKAGE)
            if not ours[name]:
                return None
            if fine:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            return local

        turns.start(k)
        sys.settrace(trace)
        try:
            out[k] = (jobs[k](), None)
        except BaseException as e:
            out[k] = (None, e)
        finally:
            sys.settrace(None)
            turns.finish(k)

    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out, turns.switches
