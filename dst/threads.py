"""Deterministic scheduling of real threads.

The threads of the system under test are operating system threads, but only the
one holding the baton runs; all others wait on a semaphore of their own.  Every
call and source line executed in the code under test is a scheduling point
(sys.settrace), where the plan decides whether to pass the baton on and to
whom.  Locks the code under test creates are replaced by cooperative ones, so
that the scheduler knows who waits for what.
"""
import ast
import functools
import os
import sys
import threading

from . import node as _node

_Semaphore, _Lock, _RLock = threading.Semaphore, threading.Lock, threading.RLock
_PREFIX = tuple(os.path.join(_node.REPO, r) + os.sep for r in _node.ROOTS)


class Abort(BaseException):
    """Ends the threads of a run that cannot go on."""


def arm(done=[]):
    """Have any later settrace() ask the interpreter for bytecode events."""
    if not done:
        g = (x for x in ())
        g.gi_frame.f_trace_opcodes = True
        done.append(g)


class Task:
    def __init__(self, index, func):
        self.index, self.func = index, func
        self.sem = _Semaphore(0)
        self.waiting = None
        self.done = False
        self.error = None


@functools.lru_cache(None)
def functions(path):
    """Names of the functions in a source file."""
    with open(path) as f:
        tree = ast.parse(f.read())
    return sorted({n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}) or [""]


class Scheduler:
    """``switches``: list of [steps to run before it, choice of thread].

    ``fine``: threads may be switched between any two bytecodes too.
    ``focus``: steps count in files whose name ends so only; followed by a
    number, in one of the functions there only.
    """

    current = None

    def focused(self, code):
        if code not in self.known:
            yes = code.co_filename.endswith(self.focus)
            if yes and self.function is not None:
                names = functions(code.co_filename)
                yes = code.co_name == names[self.function % len(names)]
            self.known[code] = yes
        return self.known[code]

    def __init__(self, ctx, switches, limit=400000, fine=False, focus=""):
        self.ctx = ctx
        self.fine = fine
        self.focus, _, number = focus.partition(":")
        self.function = int(number) if number else None
        self.known = {}                 # code object -> in focus?
        self.switches = list(switches)
        self.limit = limit
        self.steps = 0
        self.left = self.switches[0][0] if self.switches else None
        self.pos = 0
        self.tasks = []
        self.by_thread = {}
        self.active = None
        self.main = _Semaphore(0)
        self.dead = None
        self.switched = 0

    # ---- trace
    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_PREFIX):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        self.step(frame)
        return self._local

    def _local(self, frame, event, arg):
        # (an error raised at an instruction of no line, where a handler is entered, would
        # be the end of the interpreter)
        if event in ("line", "opcode") and frame.f_lineno is not None:
            self.step(frame)
        return self._local

    def step(self, frame):
        if self.dead:
            raise Abort()
        self.steps += 1
        if self.steps > self.limit:
            self.dead = "no-progress"
            raise Abort()
        if self.left is None or _node.FINDER.importing or self.focus and not self.focused(frame.f_code):
            return
        self.left -= 1
        if self.left > 0:
            return
        choice = self.switches[self.pos][1]
        self.pos += 1
        self.left = (self.switches[self.pos][0] if self.pos < len(self.switches) else None)
        me = self.active
        others = [t for t in self.tasks if not t.done and t is not me and self.ready(t)]
        if others:
            t = others[choice % len(others)]
            self.switched += 1
            self.ctx.fault("preemption")
            code = frame.f_code
            self.ctx.sig.update(f"{t.index}@{code.co_name}+{frame.f_lineno - code.co_firstlineno};".encode())
            self.ctx.ev("switch", me.index, t.index, code.co_name)
            self.ctx.state(me.index, t.index, code.co_name,
                           frame.f_lineno - code.co_firstlineno)
            self.pass_to(t)

    @staticmethod
    def ready(task):
        return task.waiting is None or task.waiting.free_for(task)

    def pass_to(self, task):
        me = self.active
        self.active = task
        task.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Abort()

    def block(self, lock):
        """The active task waits for lock."""
        me = self.active
        me.waiting = lock
        while not lock.free_for(me):
            others = [t for t in self.tasks if not t.done and t is not me and self.ready(t)]
            if not others:
                self.dead = "deadlock"
                raise Abort()
            self.ctx.ev("blocked", me.index)
            self.pass_to(others[0])
        me.waiting = None

    def finish(self):
        me = self.active
        me.done = True
        rest = [t for t in self.tasks if not t.done]
        if not rest:
            self.main.release()
            return
        ready = [t for t in rest if self.ready(t)]
        if not ready and not self.dead:
            self.dead = "deadlock"
        self.active = (ready or rest)[0]
        self.active.sem.release()

    def run(self, funcs):
        self.tasks = [Task(i, f) for i, f in enumerate(funcs)]

        def body(task):
            # All threads are traced before the first one runs and until the last one ended:
            # the interpreter does not survive otherwise when asked for bytecodes.
            sys.settrace(self._global)
            self.main.release()
            task.sem.acquire()
            self.by_thread[threading.get_ident()] = task
            try:
                if not self.dead:
                    task.func()
            except Abort:
                pass
            except BaseException as e:
                task.error = e
            finally:
                self.finish()

        threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in self.tasks]
        Scheduler.current = self
        try:
            # Places that threads without a trace function passed report nothing any more
            sys.monitoring.restart_events()
            if self.fine:
                arm()
            for t in threads:
                t.start()
                self.main.acquire()
            self.active = self.tasks[0]
            self.active.sem.release()
            seen = -1
            while not self.main.acquire(timeout=20.0):
                if self.steps == seen:
                    raise RuntimeError("threads wait on a primitive the scheduler "
                                       "does not control")
                seen = self.steps
            for t in threads:
                t.join()
        finally:
            Scheduler.current = None
        return self.dead


def me():
    s = Scheduler.current
    return s.by_thread.get(threading.get_ident()) if s else None


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def free_for(self, task):
        return self.owner is None or (self.reentrant and self.owner is task)

    def acquire(self, blocking=True, timeout=-1):
        task = me() or "main"
        if not self.free_for(task):
            if not blocking or task == "main":
                return False
            Scheduler.current.block(self)
        self.owner = task
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _from_sut():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(_PREFIX)


class simulated_locks:
    """Locks created by the code under test are cooperative in this block."""

    def __enter__(self):
        threading.Lock = lambda: SimLock() if _from_sut() else _Lock()
        threading.RLock = lambda: SimRLock() if _from_sut() else _RLock()
        return self

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = _Lock, _RLock
