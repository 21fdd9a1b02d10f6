"""Several calls at a time: threads that take turns as a schedule says.

A thread is stopped at a line (or an instruction) of the library, another one
goes on, and so on; the switches are ours, not those of the interpreter. A
thread that waits for another one (for a lock) is left alone for a while.
"""
import os
import sys
import threading

HOME = os.path.join(os.path.abspath(os.environ.get("REPO", "/repo")), "pylogics_modalities", "")
PATIENCE = 0.3      # a thread that neither stops nor ends in this time waits for another one
LIMIT = int(os.environ.get("CALL_LIMIT", "20"))


class Runner(threading.Thread):
    """Makes a call; stops when it has taken so many steps."""

    waits = []      # the more often threads wait, the less do we
    seen = set()    # the files of the library that calls went through

    def __init__(self, fn, fine, only=None):
        super().__init__(daemon=True)
        self.fn, self.fine, self.only = fn, fine, only
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.left = 0           # steps until the next stop; 0: no stop
        self.steps = 0
        self.done = False
        self.res = ["bad", "no answer"]

    def run(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.res = self.fn()
        except BaseException as e:
            self.res = ["bad", type(e).__name__]
        finally:
            sys.settrace(None)
            self.done = True
            self.stopped.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        Runner.seen.add(frame.f_code.co_filename)
        if self.only and frame.f_code.co_filename != self.only:
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line"):
            self.steps += 1
            if self.left:
                self.left -= 1
                if not self.left:
                    self.stopped.release()
                    self.go.acquire()
        return self.local

    def advance(self, n):
        """Go on for n steps (0: to the end); False if it does not stop in time."""
        if self.done:
            return True
        self.left = n
        self.go.release()
        if self.stopped.acquire(timeout=max(0.02, PATIENCE * 0.9 ** len(Runner.waits))):
            return True
        Runner.waits.append(1)
        return False


def race(fns, schedule, fine=False, only=None):
    """Make the calls; schedule: who goes on, and for how many steps (0: to the end).

    only: the file in which threads stop, if not in all of them.

    Returns the outcomes, and how many steps each took.
    """
    old = threading.stack_size(64 << 20)
    rs = [Runner(fn, fine, only) for fn in fns]
    for r in rs:
        r.start()
    threading.stack_size(old)
    waiting = set()
    for k, n in schedule:
        if k in waiting:            # gave no sign when it was its turn
            if not rs[k].stopped.acquire(timeout=0.01):
                continue
            waiting.discard(k)
        if not rs[k].advance(n):
            waiting.add(k)
    for k, r in enumerate(rs):
        if k in waiting:
            r.stopped.acquire(timeout=0.01)
        r.left = 0
        r.go.release()
        r.go.release()
    for r in rs:
        r.join(LIMIT)
    return [r.res if r.done else ["bad", "no answer"] for r in rs], [r.steps for r in rs]
