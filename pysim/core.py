"""Deterministic simulator of Python threads.

Simulated threads are real Python threads of which exactly one holds the baton: who goes on is decided here, before every statement and after every
attribute read of the code under test, and at every operation on a lock (the standard library's Condition runs for real over simulated locks). Clocks are virtual. All decisions come from one list of
numbers: random ones while searching, recorded ones while replaying.
"""
import _thread
import ast
import builtins
import importlib.machinery
import importlib.util
import operator
import os
import random
import sys
import threading
import time
import traceback
import weakref

real_allocate = _thread.allocate_lock
real_monotonic = time.monotonic

MS = 1000000
STEP_NS = 2000               # virtual cost of one step
MAX_POINTS = 30000           # steps of one run: more is a thread that spins
MAX_GAP = 2000


class Violation(Exception):
    def __init__(self, cls, text):
        super().__init__(text)
        self.cls = cls
        self.text = text


class Parked(BaseException):
    pass


class Task:
    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.baton = real_allocate()
        self.baton.acquire()
        self.blocked = None      # None: can run, else what it waits for
        self.deadline = None
        self.woken = False
        self.done = False
        self.gone = real_allocate()
        self.gone.acquire()
        self.leave = real_allocate()
        self.leave.acquire()
        self.ended = None        # a lock that the interpreter releases when the thread has really ended
        self.acquires = 0        # locks taken that existed before
        self.ident = None
        self.line = 0            # of the code under test, where it is


class Choices:
    def __init__(self, seed=None, fixed=None):
        self.rnd = random.Random(seed) if fixed is None else None
        self.fixed = fixed
        self.log = []

    def value(self, gen):
        if self.rnd is not None:
            v = gen(self.rnd)
        else:
            i = len(self.log)
            v = self.fixed[i] if i < len(self.fixed) else None
        self.log.append(v)
        return v

    def choose(self, n):
        v = self.value(lambda r: r.randrange(n))
        return 0 if v is None else v % n

    def gap(self, mean):
        v = self.value(lambda r: 1 + int(r.expovariate(1.0 / mean)))
        return MAX_GAP if v is None else max(1, min(v, MAX_GAP))


class Sim:
    def __init__(self, choices, verbose=False):
        self.c = choices
        self.verbose = verbose
        self.tasks = []
        self.cur = None
        self.now = 1000 * MS
        self.wall_off = 1700000000 * 1000 * MS
        self.stamp_n = 0
        self.points = 0
        self.switches = 0
        self.preemptions = 0
        self.blocks = 0
        self.stalled_ns = 0
        self.quiet = 0
        self.over = False
        self.violation = None
        self.finished = real_allocate()
        self.finished.acquire()
        self.faults = {}
        self.opportunities = {}
        self.hash = 1469598103934665603
        self.desc = ''
        self.trace = []
        self.jump_rate = 0
        self.stall_rate = 0
        self.mean = 60
        self.probes = set()
        self.countdown = 1 << 60
        self.clock_dirty = False

    # ---- decisions
    def choose(self, n):
        return self.c.choose(n)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def chance(self, kind, one_in):
        self.opportunities[kind] = self.opportunities.get(kind, 0) + 1
        return one_in > 0 and self.choose(one_in) == one_in - 1

    def mixin(self, *xs):
        h = self.hash
        for x in xs:
            h = ((h ^ (x & 0xffffffff)) * 1099511628211) & 0xffffffffffffffff
        self.hash = h

    def stamp(self):
        self.stamp_n += 1
        return self.stamp_n

    def log(self, text):
        if self.verbose:
            self.trace.append('%10.4f ms T%d %-10s %s' % (self.now / MS, self.cur.id, self.cur.name, text))

    def fail(self, cls, text):
        if not self.violation:
            self.violation = Violation(cls, text)
        self.end_run()
        raise Parked()

    def check(self, cond, cls, text):
        if not cond:
            self.fail(cls, text() if callable(text) else text)

    # ---- scheduling
    def arm(self):
        self.countdown = self.c.gap(self.mean)

    def point(self, line=0):
        """one step of the code under test is about to run"""
        if self.over:
            raise Parked()
        if self.quiet:
            return
        self.points += 1
        self.now += STEP_NS
        if self.points > MAX_POINTS:
            self.quiet += 1
            self.fail('spins', 'after %d steps thread %s still runs, at line %d, and nothing ends' % (self.points, self.cur.name, line or self.cur.line))
        self.countdown -= 1
        if self.countdown > 0:
            return
        if line:
            self.cur.line = line
        self.mixin(line)
        self.arm()
        if self.jump_rate and self.chance('clock-step', self.jump_rate):
            self.step_clock()
        if self.stall_rate and self.chance('stalled-thread', self.stall_rate):
            ms = 1 + self.choose(60)
            self.fault('stalled-thread')
            self.mixin(7777, ms)
            self.stalled_ns += ms * MS
            self.log('is stalled %d ms at line %d' % (ms, self.cur.line))
            self.block(('stall',), self.now + ms * MS)
            return
        rs = [t for t in self.runnable() if t is not self.cur]
        if rs:
            self.preemptions += 1
            self.switch_to(rs[self.choose(len(rs))])

    def step_clock(self):
        steps = (-3600000, -1000, -50, -1, 1, 50, 1000, 3600000)
        ms = steps[self.choose(len(steps))]
        self.wall_off += ms * MS
        self.fault('clock-step')
        self.mixin(8888, ms)
        self.log('system clock steps %d ms' % ms)

    def due(self):
        for t in self.tasks:
            if t.blocked and t.deadline is not None and t.deadline <= self.now:
                t.blocked = None
                t.woken = False

    def runnable(self):
        self.due()
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def switch_to(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.mixin(me.id, t.id)
        self.log('-> T%d (T%d left at line %d)' % (t.id, me.id, me.line))
        self.cur = t
        t.baton.release()
        if not me.done:
            me.baton.acquire()
            if self.over:
                raise Parked()

    def block(self, what, deadline=None):
        """the current thread cannot go on. Returns whether it was awoken (not timed out)"""
        if self.over:
            raise Parked()
        me = self.cur
        me.blocked = what
        me.deadline = deadline
        me.woken = False
        self.blocks += 1
        self.mixin(me.id, 31)
        self.next_task()
        me.deadline = None
        return me.woken

    def wake(self, t):
        t.blocked = None
        t.woken = True

    def next_task(self):
        me = self.cur
        while True:
            rs = self.runnable()
            if rs:
                self.switch_to(rs[self.choose(len(rs))] if len(rs) > 1 else rs[0])
                return
            # only the passing of time, or nothing, can make a thread go on
            q = [t for t in self.tasks if t.blocked and t.blocked[0] == 'quiesce']
            timed = [t.deadline for t in self.tasks if t.blocked and t.deadline is not None]
            if q and (not timed or min(timed) - self.now > q[0].blocked[1]):
                self.wake(q[0])
                continue
            if timed:
                self.now = max(self.now, min(timed))
                continue
            self.cur = me
            if me.done:
                # nobody to raise in: the run ends here
                self.violation = self.violation or Violation('hang', self.describe_blocked())
                self.end_run()
                return
            self.fail('hang', self.describe_blocked())

    def describe_blocked(self):
        return 'every thread waits forever: ' + ', '.join('%s on %s' % (t.name, t.blocked[0]) for t in self.tasks if t.blocked)

    def end_run(self):
        self.over = True
        self.quiet = 0
        try:
            self.finished.release()
        except RuntimeError:
            pass

    # ---- threads
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name)
        self.tasks.append(t)
        started = real_allocate()
        started.acquire()

        def body():
            try:
                body_()
            except BaseException as e:   # noqa: B902  a mistake of the simulator itself
                sys.__stderr__.write('simulator error in thread %s: %s\n' % (name, ''.join(traceback.format_exception(e))))
                sys.__stderr__.flush()
                os._exit(3)
            finally:
                t.gone.release()
            t.leave.acquire()

        def body_():
            t.ident = _thread.get_ident()
            t.ended = _thread._set_sentinel()
            t.ended.acquire()
            started.release()
            t.baton.acquire()
            if not self.over:
                try:
                    fn()
                except Parked:
                    return
                except BaseException as e:   # noqa: B902
                    if not self.over:
                        self.violation = Violation('exception', 'thread %s ended by %s: %s' % (name, type(e).__name__, e))
                        self.end_run()
                    return
                t.done = True
                self.mixin(t.id, 33)
                for o in self.tasks:
                    if o.blocked and o.blocked[0] == 'join' and o.blocked[1] is t:
                        self.wake(o)
                if t.id == 0:
                    self.end_run()
                    return
                try:
                    self.next_task()
                except Parked:
                    return
                # what the interpreter does when a thread ends must not happen while others run
                t.baton.acquire()
        _thread.start_new_thread(body, ())
        started.acquire()
        return t

    def join(self, t, limit_ms=None):
        while not t.done:
            if not self.block(('join', t), None if limit_ms is None else self.now + limit_ms * MS) and limit_ms is not None:
                return t.done
        return True

    def sleep_ms(self, ms):
        self.block(('sleep',), self.now + int(ms * MS))

    def pause(self, ms):
        """a moment between two operations"""
        k = self.choose(4)
        if k == 0:
            return
        self.sleep_ms(self.choose(int(ms * 4) + 1) / 4.0)

    def quiesce(self, horizon_ms=0):
        """until no other thread can go on without more than horizon_ms passing"""
        self.block(('quiesce', horizon_ms * MS))

    def run(self, scenario):
        global S
        S = self
        self.mean = (2, 5, 12, 30, 120)[self.choose(5)]
        self.jump_rate = (0, 0, 2, 8)[self.choose(4)]
        self.stall_rate = (0, 0, 0, 12, 60)[self.choose(5)]
        self.arm()
        t = self.spawn('main', lambda: scenario(self))
        self.cur = t
        t.baton.release()
        self.finished.acquire()
        for t in self.tasks:       # the rest end at their next step, one after another
            try:
                t.baton.release()
            except RuntimeError:
                pass
            t.gone.acquire()
        S = None
        for t in self.tasks:
            t.leave.release()
            t.ended.acquire()
        # a thread that was getting or leaving a lock may have left it taken: the next run starts anew
        LOCKS[:] = [r for r in LOCKS if r() is not None]
        for r in LOCKS:
            k = r()
            if k is not None:
                k.renew()
        return self.violation


S = None
def point_value(value=None, line=0):
    """put by the loader after every attribute read and before every statement of the code under test"""
    s = S
    if s is not None:
        if s.over:
            raise Parked()
        if s.cur.ident == _thread.get_ident():
            s.point(line)
    return value


LOCKS = []       # weak references to all there are


class SimLock:
    """threading.Lock"""
    __slots__ = ('owner', 'waiters', 'fresh', '__weakref__')

    def __init__(self):
        self.renew()
        LOCKS.append(weakref.ref(self))

    def renew(self):
        self.owner = None
        self.waiters = []
        self.fresh = True

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or s.over:
            if s is not None and s.over:
                raise Parked()
            self.owner = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        me = s.cur
        s.point()
        if not self.fresh:
            me.acquires += 1
        deadline = s.now + int(timeout * 1e9) if timeout is not None and timeout >= 0 else None
        while self.owner is not None:
            if not blocking:
                return False
            if deadline is not None and s.now >= deadline:
                return False
            self.waiters.append(me)
            s.log('waits for a lock')
            ok = s.block(('a lock',), deadline)
            if me in self.waiters:
                self.waiters.remove(me)
            if not ok and deadline is not None and self.owner is not None:
                return False
        self.owner = me
        self.fresh = False
        s.point()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        s = S
        if s is None or s.over:
            if s is not None and s.over:
                raise Parked()
            return
        for t in self.waiters:
            s.wake(t)
        self.waiters = []
        s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release

    def _at_fork_reinit(self):
        self.renew()


class SimRLock:
    """threading.RLock"""

    def __init__(self):
        self._block = SimLock()
        LOCKS.append(weakref.ref(self))
        self.renew()

    def renew(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        self._block.release()
        return c

    def _acquire_restore(self, c):
        self._block.acquire()
        self._count = c
        self._owner = _thread.get_ident()

    def _at_fork_reinit(self):
        self._block.renew()
        self.renew()

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0


def _clock(read):
    def f():
        s = S
        if s is None:
            return read(0, 0)
        if not s.quiet and s.cur is not None and s.cur.ident == _thread.get_ident():
            if s.jump_rate and s.chance('clock-step', s.jump_rate):
                s.step_clock()
            s.now += STEP_NS
        return read(s.now, s.wall_off)
    return f


def _sleep(secs):
    s = S
    if s is None:
        return
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    s.point()
    s.block(('sleep',), s.now + int(secs * 1e9))


class Instrument(ast.NodeTransformer):
    OPS = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.BitOr: 'ior', ast.BitAnd: 'iand', ast.BitXor: 'ixor', ast.FloorDiv: 'ifloordiv',
           ast.Div: 'itruediv', ast.Mod: 'imod', ast.LShift: 'ilshift', ast.RShift: 'irshift', ast.Pow: 'ipow'}

    def pt(self, value, at):
        args = [value if value is not None else ast.Constant(None), ast.Constant(getattr(at, 'lineno', 0))]
        return ast.copy_location(ast.Call(ast.Name('__sim_point__', ast.Load()), args, []), at)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        return self.pt(n, n) if isinstance(n.ctx, ast.Load) else n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and type(n.op) in self.OPS:
            read = ast.copy_location(ast.Attribute(n.target.value, n.target.attr, ast.Load()), n)
            value = ast.Call(ast.Attribute(ast.Name('__sim_operator__', ast.Load()), self.OPS[type(n.op)], ast.Load()),
                             [self.pt(read, n), self.visit(n.value)], [])
            return ast.copy_location(ast.Assign([n.target], value), n)
        return self.generic_visit(n)

    def block(self, body):
        out = []
        for i, st in enumerate(body):
            if not (i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not isinstance(st, (ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(self.pt(None, st)), st))
            out.append(st)
        return out

    def visit_FunctionDef(self, n):
        n.body = [self.visit(x) for x in n.body]      # not its decorators and defaults
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        return self.instrument_blocks(n)

    def instrument_blocks(self, fn):
        for node in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.ClassDef,)) and not getattr(node, '_sim_' + f, False):
                    setattr(node, f, self.block(b))
                    setattr(node, '_sim_' + f, True)
        return fn


CODE = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):        # never a cached file
        path = self.get_filename(fullname)
        if path not in CODE:
            CODE[path] = self.compiled(path)
        return CODE[path]

    def compiled(self, path):
        tree = Instrument().visit(ast.parse(self.get_data(path), path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


class Finder:
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        p = os.path.join(self.root, *name.split('.'))
        for f, pkg in ((os.path.join(p, '__init__.py'), True), (p + '.py', False)):
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[p] if pkg else None)
        return None


class Output:
    """standard output and error: what the code under test writes is kept apart"""

    def __init__(self, real):
        self.real = real
        self.sink = None

    def write(self, text):
        return self.real.write(text) if self.sink is None else self.sink.write(text)

    def flush(self):
        return self.real.flush() if self.sink is None else self.sink.flush()

    def __getattr__(self, name):
        return getattr(self.real, name)


def install(sut_dir):
    """replaces locks and clocks for everything imported afterwards, and instruments what comes from sut_dir"""
    builtins.__sim_point__ = point_value
    builtins.__sim_operator__ = operator
    sys.meta_path.insert(0, Finder(sut_dir))
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    time.monotonic = _clock(lambda n, w: n / 1e9)
    time.monotonic_ns = _clock(lambda n, w: n)
    time.perf_counter = time.monotonic
    time.perf_counter_ns = time.monotonic_ns
    time.time = _clock(lambda n, w: (n + w) / 1e9)
    time.time_ns = _clock(lambda n, w: n + w)
    time.sleep = _sleep
    threading._time = time.monotonic
    sys.stdout = Output(sys.stdout)
    sys.stderr = Output(sys.stderr)
    sys.modules.pop('logging', None)
    import logging
    logging.raiseExceptions = False


class Quiet:
    """harness bookkeeping: no scheduling inside"""

    def __enter__(self):
        S.quiet += 1

    def __exit__(self, *a):
        if S is not None:
            S.quiet -= 1
