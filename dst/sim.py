"""The scheduler: simulated caller threads, preemption, interrupts, faults.

Caller threads are real OS threads of which exactly one holds the baton.  The
library's code objects are instrumented with sys.monitoring, local to those
code objects, at the places where CPython itself can switch threads or deliver
a signal: function entry and generator resumption, return from a call of C
code, and backward jumps.  Every such event is a numbered *step* of the
operation in progress.  Nothing else decides who runs: a case lists, per
operation, at which steps to hand the baton to which thread (``sw``) and at
which step an interrupt or allocation failure surfaces (``flt``), and which
invocation of a user-supplied function misbehaves how (``cb``).
"""
import dis
import sys
import threading
import types
import _thread

mon = sys.monitoring
E = mon.events
TID = 4
LOCAL = E.PY_START | E.PY_RESUME | E.CALL | E.JUMP
_allocate = _thread.allocate_lock
_real_Lock, _real_RLock = threading.Lock, threading.RLock
_instrumented = set()
_sim = None

K_START, K_RESUME, K_CALL, K_CRET, K_JUMP, K_CB, K_OP = range(7)
KNAMES = ["start", "resume", "call", "creturn", "jump", "callback", "op"]


class InjectedFault(Exception):
    """What a misbehaving user function or input iterator raises."""


class StepCap(BaseException):
    """The operation did not finish within the step budget."""


class Deadlock(BaseException):
    """No simulated thread can run."""


class HarnessError(BaseException):
    pass


def instrument(code):
    mon_init()
    stack = [code]
    first = True
    while stack:
        c = stack.pop()
        if not first:
            mon.set_local_events(TID, c, LOCAL)
            _instrumented.add(c)
        first = False
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                stack.append(k)


_inited = False


def mon_init():
    global _inited
    if not _inited:
        _inited = True
        mon.use_tool_id(TID, "dst")


def _h_start(code, off):
    if _sim is not None:
        _sim.point(K_START, code, off)


def _h_resume(code, off):
    if _sim is not None:
        _sim.point(K_RESUME, code, off)


def _h_call(code, off, fn, arg0):
    if _sim is not None:
        if type(fn) is types.MethodType and isinstance(
                fn.__self__, SimLock):
            # stands for a call of C code that cannot fail; the lock has
            # points of its own
            return
        _sim.point(K_CALL, code, off, fn)


def _h_cret(code, off, fn, arg0):
    if _sim is not None:
        _sim.point(K_CRET, code, off)


def _h_jump(code, off, dest):
    if dest <= off and _sim is not None:
        _sim.point(K_JUMP, code, off)


_HANDLERS = [(E.PY_START, _h_start), (E.PY_RESUME, _h_resume),
             (E.CALL, _h_call), (E.C_RETURN, _h_cret), (E.JUMP, _h_jump)]


def _foreign_python(fn):
    """A Python function outside the instrumented library code?"""
    if isinstance(fn, types.MethodType):
        fn = fn.__func__
    return isinstance(fn, types.FunctionType) and \
        fn.__code__ not in _instrumented


_EX = dis.opmap["CALL_FUNCTION_EX"]


def _star_call(code, off):
    """CPython 3.12 releases the argument list of ``f(*args)`` twice when a
    monitoring callback raises there (the interpreter then crashes), so
    nothing is injected at such a call."""
    return code is not None and code.co_code[off] == _EX


class SimThread:
    def __init__(self, tid, prog):
        self.tid = tid
        self.prog = prog
        self.lock = _allocate()
        self.lock.acquire()
        self.step = 0
        self.cbn = 0
        self.op = None
        self.flt = None
        self.fge = None
        self.sw = None
        self.cb = None
        self.quiet = 1
        self.done = False
        self.waiting = None
        self.timed_out = False
        self.history = []
        self.trace = None
        self.opsteps = []
        self.opcbs = []


EXC = {"KI": KeyboardInterrupt, "ME": MemoryError}


class Sim:
    """Runs programs (lists of op dicts), one per thread, through ``execute``."""

    def __init__(self, progs, execute, trace=False, cap=200000, first=0,
                 stats=None):
        self.threads = [SimThread(i, p) for i, p in enumerate(progs)]
        self.execute = execute
        self.tracing = trace
        self.cap = cap
        self.total = 0
        self.first = first
        self.cur = None
        self.seq = 0
        self.main = _allocate()
        self.main.acquire()
        self.error = None
        self.stuck = None
        self.fired = {}
        self.struck = []
        self.switches = []
        self.log = []
        self.stats = stats

    # ------------------------------------------------------------ points
    def point(self, kind, code=None, off=0, fn=None):
        t = self.cur
        if t is None or t.quiet:
            return
        t.step += 1
        n = t.step
        self.total += 1
        if self.total > self.cap:
            self.stuck = self.stuck or "step cap"
            raise StepCap()
        if t.trace is not None:
            pre = kind != K_CALL or _foreign_python(fn)
            t.trace.append((code, off, kind, pre))
        if t.flt is not None:
            f = t.flt.get(n)
            if f is not None and (kind == K_JUMP or kind == K_CALL and
                                  _star_call(code, off)):
                # (what is raised at a jump would pass by the handlers of
                # the code around it)
                del t.flt[n]
                t.flt.setdefault(n + 1, f)
            elif f is not None and kind != K_OP and (
                kind == K_CALL if f == "ME" else
                (kind != K_CALL or _foreign_python(fn))
            ):
                del t.flt[n]
                self.fire("interrupt" if f == "KI" else "alloc_failure")
                raise EXC[f]("injected")
        if t.fge is not None and n >= t.fge[0] and kind != K_OP and \
                kind != K_JUMP:
            f = t.fge[1]
            if (kind == K_CALL if f == "ME" else
                    (kind != K_CALL or _foreign_python(fn))) and not (
                    kind == K_CALL and _star_call(code, off)):
                t.fge = None
                self.fire("interrupt" if f == "KI" else "alloc_failure")
                raise EXC[f]("injected")
        if t.sw is not None:
            to = t.sw.get(n)
            if to is not None and (kind != K_CALL or _foreign_python(fn)):
                self.switch(to)

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    # ------------------------------------------------------------ threads
    def runnable(self):
        return [x for x in self.threads if not x.done and x.waiting is None]

    def switch(self, to):
        t = self.cur
        if to is None or to < 0 or to >= len(self.threads):
            return
        target = self.threads[to]
        if target is t or target.done or target.waiting is not None:
            return
        self.fire("preemption")
        self.switches.append((t.tid, t.step, to))
        self._hand(target)

    def _hand(self, target):
        t = self.cur
        self.cur = target
        target.lock.release()
        t.lock.acquire()

    def yield_blocked(self, lock, timed=False):
        """The current thread waits for a simulated lock."""
        t = self.cur
        t.waiting = lock
        t.timed_out = False
        rest = self.runnable()
        if not rest:
            # time passes: the first timed waiter gives up
            waiters = [x for x in self.threads if x.waiting is not None
                       and getattr(x, "timed", False)]
            if timed:
                t.waiting = None
                return False
            if not waiters:
                t.waiting = None
                self.stuck = self.stuck or "deadlock"
                raise Deadlock()
            rest = waiters[:1]
            rest[0].waiting = None
            rest[0].timed_out = True
        t.timed = timed
        self.fire("lock_wait")
        nxt = [x for x in rest if x.tid > t.tid] or rest
        self._hand(nxt[0])
        return not t.timed_out

    def wake(self, lock):
        for x in self.threads:
            if x.waiting is lock:
                x.waiting = None

    def _body(self, t):
        t.lock.acquire()
        try:
            for i, op in enumerate(t.prog):
                self.begin(t, op)
                inv = self.seq = self.seq + 1
                try:
                    self.point(K_OP)
                    out = self.execute(self, t, op)
                except (StepCap, Deadlock) as e:
                    out = ["stuck", type(e).__name__]
                finally:
                    t.quiet = 1
                self.seq += 1
                t.history.append((inv, self.seq, op, out))
                t.opsteps.append(t.step)
                t.opcbs.append(t.cbn)
                if self.tracing:
                    t.alltrace.append(t.trace)
        except BaseException as e:      # harness fault
            self.error = self.error or e
        finally:
            t.done = True
            t.quiet = 1
            rest = self.runnable()
            if not rest:
                blocked = [x for x in self.threads if not x.done]
                if blocked:
                    self.stuck = self.stuck or "deadlock"
                    self.error = self.error or HarnessError("deadlock")
                self.main.release()
            else:
                nxt = [x for x in rest if x.tid > t.tid] or rest
                self.cur = nxt[0]
                nxt[0].lock.release()

    def begin(self, t, op):
        t.op = op
        t.step = 0
        t.cbn = 0
        t.flt = {int(n): k for n, k in op["flt"]} if op.get("flt") else None
        # "fge": [n, kind] strikes at the first possible step from n on
        t.fge = op.get("fge")
        t.sw = {int(n): to for n, to in op["sw"]} if op.get("sw") else None
        t.cb = {int(n): a for n, a in op["cb"]} if op.get("cb") else None
        t.trace = [] if self.tracing else None
        t.quiet = 0

    def run(self):
        global _sim
        assert _sim is None
        for t in self.threads:
            t.alltrace = []
        mon_init()
        for ev, h in _HANDLERS:
            mon.register_callback(TID, ev, h)
        _sim = self
        try:
            if len(self.threads) == 1:
                # no second thread: run in place, same code path
                t = self.threads[0]
                self.cur = t
                t.lock.release()
                self._body(t)
                self.main.acquire()
            else:
                for t in self.threads:
                    _thread.start_new_thread(self._body, (t,))
                self.cur = self.threads[self.first]
                self.cur.lock.release()
                if not self.main.acquire(timeout=60):
                    raise HarnessError("simulated threads do not come back")
        finally:
            _sim = None
            for ev, h in _HANDLERS:
                mon.register_callback(TID, ev, None)
        if self.error is not None and not self.stuck:
            raise self.error
        if self.stats is not None:
            self.stats.add_sim(self)
        return self

    def history(self):
        h = []
        for t in self.threads:
            for (i, r, op, out) in t.history:
                h.append((i, r, t.tid, op, out))
        h.sort(key=lambda x: x[0])
        return h


class quiet:
    """Code of the harness itself: no steps are counted inside."""

    def __enter__(self):
        s = _sim
        self.t = s.cur if s is not None else None
        if self.t is not None:
            self.t.quiet += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.quiet -= 1


class Opaque:
    """A value nothing can be coerced from."""

    def __init__(self, tag="x"):
        self.tag = tag

    def __repr__(self):
        return "<Opaque %s>" % (self.tag,)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.tag == self.tag

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return Opaque(self.tag)


def callback(fn, *args, pred=False):
    """A user-supplied function is being invoked by the library."""
    s = _sim
    if s is None:
        return fn(*args)
    t = s.cur
    if t.quiet:
        return fn(*args)
    t.cbn += 1
    act = t.cb.get(t.cbn) if t.cb else None
    s.point(K_CB, fn.__code__ if hasattr(fn, "__code__") else None, t.cbn)
    if act is not None:
        if pred and act == "junk":
            act = "type"        # a check that says yes to anything is no fault
        s.fire("callback_" + act)
        s.struck.append((t.tid, fn, args, act, len(t.history), pred))
        return misbehave(act, fn, args)
    return fn(*args)


def misbehave(act, fn, args):
    if act == "raise":
        raise InjectedFault("injected")
    if act == "value":
        raise ValueError("injected")
    if act == "type":
        raise TypeError("injected")
    if act == "attr":
        raise AttributeError("injected")
    if act == "key":
        raise KeyError("injected")
    if act == "ki":
        raise KeyboardInterrupt("injected")
    if act == "me":
        raise MemoryError("injected")
    if act == "none":
        return None
    if act == "junk":
        return Opaque("junk")
    if act == "falsy":
        return 0
    raise HarnessError("unknown act %r" % act)


class FaultIter:
    """An input iterator; raises at item ``fail`` (None: never)."""

    def __init__(self, items, fail=None, act="raise"):
        self.items = items
        self.fail = fail
        self.i = 0
        self.act = act

    def __iter__(self):
        return self

    def __next__(self):
        s = _sim
        if s is not None and not s.cur.quiet:
            s.point(K_CB, None, 0)
        i = self.i
        if self.fail is not None and i == self.fail:
            if s is not None:
                s.fire("input_iterator_" + self.act)
            self.i += 1
            misbehave(self.act, None, ())
        if i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[i]


class FaultMap:
    """Not a dict, but has keys() and items; the n-th lookup fails."""

    def __init__(self, pairs, fail=None, act="raise"):
        self.d = dict(pairs)
        self.fail = fail
        self.i = 0
        self.act = act

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        s = _sim
        if s is not None and not s.cur.quiet:
            s.point(K_CB, None, 0)
        i, self.i = self.i, self.i + 1
        if i == self.fail:
            if s is not None:
                s.fire("input_iterator_" + self.act)
            misbehave(self.act, None, ())
        return self.d[k]


# ---------------------------------------------------------------- locks
class SimLock:
    """threading.Lock whose waiting is decided by the simulator."""
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _real_RLock() if self._re else _real_Lock()

    def _me(self):
        s = _sim
        if s is not None and s.cur is not None:
            return s, s.cur
        return None, "outside"

    def acquire(self, blocking=True, timeout=-1):
        r = self._acquire(blocking, timeout)
        if _sim is not None:
            # the call returns: the eval loop looks for signals and switches
            _sim.point(K_CRET)
        return r

    def _acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if s is not None:
            s.point(K_CRET)
        while True:
            if self._owner is None or (self._re and self._owner is me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if s is None:
                raise HarnessError("lock held outside the simulation")
            if not s.yield_blocked(self, timeout is not None and timeout >= 0):
                return False

    def release(self):
        self._release()
        if _sim is not None:
            _sim.point(K_CRET)

    def _release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner is not self._me()[1]:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if _sim is not None:
                _sim.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        # "with" has no eval loop check between entering and its body, nor
        # between its body and leaving
        self._acquire()
        return self

    def __exit__(self, *a):
        self._release()
        if _sim is not None:
            _sim.point(K_CRET)

    def _is_owned(self):
        return self._owner is self._me()[1]

    # Condition support
    def _release_save(self):
        c, self._count = self._count, 1
        self._release()
        return c

    def _acquire_restore(self, c):
        self._acquire()
        self._count = c


class SimRLock(SimLock):
    _re = True
