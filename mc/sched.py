"""A controlled scheduler: threads that run one at a time and change only where a schedule says.

A thread can be stopped before every source line (or bytecode) of the package
under test. A schedule is a list of (thread, number of steps); the threads that
are not finished after it run to their ends one after the other.
"""
import gc
import os
import sys
import threading
import types

from . import env

PREFIX = os.path.join(os.path.realpath(env.SRC), 'keyczar') + os.sep
MON = sys.monitoring
TOOL = 4
_mode = None
_by_ident = {}

def _codes():
    """All code objects of the package."""
    out, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in out or not os.path.realpath(c.co_filename).startswith(PREFIX):
            continue
        out.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out

def _event(code, where):
    t = _by_ident.get(threading.get_ident())
    if t is not None:
        t.point(code, where)

def instrument(opcodes):
    """Reports every source line (or bytecode) of the package; done while no thread runs."""
    global _mode
    if _mode == (os.getpid(), opcodes):
        return
    if _mode is None or _mode[0] != os.getpid():
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, 'kz')
        MON.register_callback(TOOL, MON.events.LINE, _event)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
    ev = MON.events.INSTRUCTION if opcodes else MON.events.LINE
    for c in _codes():
        MON.set_local_events(TOOL, c, ev)
    _mode = (os.getpid(), opcodes)

class Stuck(Exception):
    pass

class Thread:
    def __init__(self, sched, fn):
        self.sched, self.fn = sched, fn
        self.steps, self.target = 0, None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.paused = True
        self.result = self.error = None
        self.where = [] if sched.record else None
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        self.go.acquire()
        me = threading.get_ident()
        _by_ident[me] = self
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            _by_ident.pop(me, None)
            self.done = True
            self.paused = True
            self.back.release()

    def point(self, code, where):
        if self.steps == self.target:
            self.paused = True
            self.back.release()
            self.go.acquire()
        self.steps += 1
        if self.where is not None:
            self.where.append((code, where))

class Scheduler:
    def __init__(self, fns, opcodes=False, record=False):
        self.record = record
        instrument(opcodes)
        self.threads = [Thread(self, f) for f in fns]

    def step(self, i, n):
        """Lets thread i take n steps (None: to its end). False if it waits for another thread."""
        t = self.threads[i]
        if t.done:
            return True
        t.target = None if n is None else t.steps + n
        if t.paused:
            t.paused = False
            t.go.release()
        if t.back.acquire(timeout=2):
            return True
        return False

    def run(self, plan):
        """Runs the schedule; [(result, error)] per thread."""
        for i, n in plan:
            self.step(i, n)
        for _ in range(3):
            for i in range(len(self.threads)):
                self.step(i, None)
            if all(t.done for t in self.threads):
                break
        else:
            raise Stuck()
        for t in self.threads:
            t.t.join(5)
        return [(t.result, t.error) for t in self.threads]

def run(fns, plan, opcodes=False):
    """[(result, error)], [steps taken by each thread]"""
    s = Scheduler(fns, opcodes)
    r = s.run(plan)
    return r, [t.steps for t in s.threads]

def points(fn, opcodes=False, repeats=2):
    """The steps of fn alone before which a thread is stopped: at every place the first `repeats` visits and the last one."""
    s = Scheduler([fn], opcodes, True)
    (_, e), = s.run([])
    if e is not None:
        raise e
    where = s.threads[0].where
    if repeats is None:
        return list(range(len(where) + 1))
    last = {w: i for i, w in enumerate(where)}
    seen, out = {}, []
    for i, w in enumerate(where):
        seen[w] = seen.get(w, 0) + 1
        if seen[w] <= repeats or last[w] == i:
            out.append(i)
    return out + [len(where)]
