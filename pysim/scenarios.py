"""Scenarios over py_utils. Each one is (property, name, weight, function)."""
import logging
import random
import re
import sys

from pysim import core
from pysim.core import MS, Quiet, Violation   # noqa: F401
from pysim.lin import Op, explained

SCENARIOS = []


def scenario(prop, name, weight):
    def deco(f):
        SCENARIOS.append((prop, name, weight, f))
        return f
    return deco


def some(s, usual, most):
    """a number of things: few, and seldom many"""
    return 1 + s.choose(most if s.choose(16) == 15 else usual)


class Oops(Exception):
    pass


class Stop(BaseException):
    """as KeyboardInterrupt: not caught as an error"""


OOPS = (Oops, Stop)


class History:
    def __init__(self, s):
        self.s = s
        self.ops = []

    def begin(self, name, apply):
        with Quiet():
            o = Op(self.s.stamp(), name, apply)
            self.ops.append(o)
            self.s.log('begin ' + name)
            return o

    def end(self, o, result=None, apply=None, since=None):
        """since: (virtual) time before which the result cannot have been decided"""
        with Quiet():
            o.e = self.s.stamp()
            o.te = self.s.now
            if since is not None:
                o.b = max([o.b] + [x.e + 0.5 for x in self.ops if x is not o and x.e is not None and x.te < since])
            if apply:
                o.apply = apply
            o.name += ' = %s' % (result,)
            self.s.log('end   ' + o.name)

    def check(self, init, what):
        with Quiet():
            r = explained(self.ops, init)
            if r is None:
                self.s.probes.add('history-too-long-to-decide')
                return
            self.s.check(r[0], 'not-explained', lambda: 'no order of the operations of %s explains their results (%s):\n%s' % (
                what, r[1], '\n'.join('  %4d..%-4s %s' % (o.b, o.e if o.e is not None else '', o.name) for o in sorted(self.ops, key=lambda o: o.b))))


def same(st):
    return [st]


def step(f):
    return lambda st: [f(st)]


def reason(r):
    return getattr(r, 'name', str(r))


def py():
    from py_utils.wait import BooleanWaitHandler, IntWaitHandler, WaitHandler
    from py_utils.time import Timer
    return WaitHandler, IntWaitHandler, BooleanWaitHandler, Timer


# state of the reference model: (value, enabled)

def judge_wait(s, r, pred, timeout_ms, elapsed_ns):
    """what a wait that returned r says about the state at some instant of it"""
    n = reason(r)
    if n == 'condition_met':
        return lambda st: [st] if st[1] and pred(st[0]) else []
    if n == 'disabled':
        return lambda st: [st] if not st[1] else []
    s.check(n == 'timeout', 'wrong-reason', 'a wait returned %r' % (r,))
    s.check(timeout_ms is not None, 'wrong-reason', 'a wait without time limit reports a timeout')
    s.check(elapsed_ns + 1000 >= timeout_ms * MS, 'early-timeout', lambda: 'time limit of %.3f ms, timeout after %.4f ms' % (timeout_ms, elapsed_ns / MS))
    return lambda st: [st] if st[1] and not pred(st[0]) else []


PREDS = {
    'equal': lambda k: lambda v: v == k,
    'greater_equal': lambda k: lambda v: v >= k,
    'greater': lambda k: lambda v: v > k,
}


class Waits:
    """waits going on: who waits for what"""

    def __init__(self, s):
        self.s = s
        self.now = {}

    def enter(self, pred, timeout):
        with Quiet():
            self.now[self.s.cur.id] = (pred, timeout)

    def leave(self):
        with Quiet():
            self.now.pop(self.s.cur.id, None)

    def check_asleep(self, value, enabled):
        """nothing runs: nobody may sleep on a condition that holds, or in a disabled handler"""
        s = self.s
        for tid, (pred, timeout) in list(self.now.items()):
            t = s.tasks[tid]
            if t.done or t.blocked is None or t.blocked[0] != 'a lock':
                continue
            s.probes.add('waiter-asleep-at-rest')
            s.check(enabled, 'disable-left-waiter', 'thread %s still waits although the handler is disabled' % t.name)
            s.check(not pred(value), 'lost-wakeup', 'thread %s still waits although the value %r satisfies its condition' % (t.name, value))


def settle(s, horizon_ms):
    s.quiesce(horizon_ms)


def int_handler_run(s, kind, with_faults):
    WaitHandler, IntWaitHandler, BooleanWaitHandler, Timer = [None] * 4
    from py_utils.wait.IntWaitHandler import IntWaitHandler
    from py_utils.wait.BooleanWaitHandler import BooleanWaitHandler
    from py_utils.wait.WaitHandler import WaitHandler
    enabled0 = s.choose(5) != 4
    nset = some(s, 2, 6)
    nwait = some(s, 3, 16)
    toggles = s.choose(3) == 2
    h = History(s)
    waits = Waits(s)
    base = 3 * s.choose(2)    # values about zero, some of them negative
    if kind == 'bool':
        init = bool(s.choose(2))
        w = BooleanWaitHandler(enabled0, init)
    elif kind == 'int':
        init = s.choose(5) - base
        w = IntWaitHandler(enabled0, init) if init or s.choose(2) else IntWaitHandler(enabled0)
    else:
        init = 'v%d' % s.choose(3)
        w = WaitHandler(enabled0, init)
    s.desc = '%s handler, %s, %d threads change it, %d wait%s' % (kind, 'enabled' if enabled0 else 'disabled', nset, nwait, ', enabled and disabled meanwhile' if toggles else '')

    # another handler of the same kind, with which this one has nothing to do
    other = None
    if s.choose(4) == 3:
        values = {'bool': (False, True), 'int': (7, -9), 'object': ('w0', 'w1')}[kind]
        other = {'bool': BooleanWaitHandler, 'int': IntWaitHandler, 'object': WaitHandler}[kind](not enabled0, values[0])
        s.desc += ', another handler besides'
    other_state = [values[0], not enabled0] if other else None

    def neighbour():
        for _ in range(1 + s.choose(6)):
            s.pause(3)
            what = s.choose(6)
            if what < 2:
                other_state[0] = values[what]
                other.set_value(values[what])
            elif what < 4:
                other_state[1] = what == 3
                other.enable() if what == 3 else other.disable()
            elif what == 4:
                r = reason(other.wait(timeout=s.choose(4) / 1000.0) if kind == 'bool' else WaitHandler.wait(other, lambda v: v == values[1], s.choose(4) / 1000.0))
                want = 'disabled' if not other_state[1] else 'condition_met' if other_state[0] == values[1] else 'timeout'
                s.check(r == want, 'not-independent', lambda: 'a wait in another handler, that nobody else uses, gave %s instead of %s' % (r, want))
            else:
                got = [other.get_value(), other.enabled()]
                s.check(got == other_state, 'not-independent', lambda: 'another handler, that nobody else uses, has %r instead of %r' % (got, other_state))

    def change(k):
        def body():
            for _ in range(some(s, 3, 20)):
                s.pause(3)
                what = s.choose(8)
                if what < 1:
                    o = h.begin('get', same)
                    v = w.get_value()
                    h.end(o, v, lambda st, v=v: [st] if st[0] == v else [])
                elif what < 2:
                    o = h.begin('enabled', same)
                    v = w.enabled()
                    h.end(o, v, lambda st, v=v: [st] if st[1] == v else [])
                elif kind == 'bool':
                    v = bool(s.choose(2))
                    o = h.begin('open' if v else 'close', lambda st, v=v: [(v, st[1])])
                    w.open() if v else w.close()
                    h.end(o)
                elif kind == 'int' and what < 6:
                    d = 1 + s.choose(2)
                    default = d == 1 and s.choose(2)
                    if what < 5:
                        o = h.begin('increase %d' % d, lambda st, d=d: [(st[0] + d, st[1])])
                        w.increase() if default else w.increase(d)
                    else:
                        o = h.begin('decrease %d' % d, lambda st, d=d: [(st[0] - d, st[1])])
                        w.decrease() if default else w.decrease(d)
                    h.end(o)
                else:
                    v = s.choose(4 + base) - base if kind == 'int' else 'v%d' % s.choose(3)
                    o = h.begin('set %s' % v, lambda st, v=v: [(v, st[1])])
                    w.set_value(v)
                    h.end(o)
        return body

    def toggle():
        for _ in range(1 + s.choose(3)):
            s.pause(6)
            on = s.choose(2)
            o = h.begin('enable' if on else 'disable', lambda st, on=on: [(st[0], bool(on))])
            w.enable() if on else w.disable()
            h.end(o)

    def wait_once():
        timeout = None if s.choose(2) else s.choose(30) / 2.0
        args = {} if timeout is None and s.choose(2) else {'timeout': None if timeout is None else timeout / 1000.0}
        raising = []
        if kind == 'bool':
            name, pred = 'wait', (lambda v: v)

            def call():
                return w.wait(**args)
        elif kind == 'int':
            k = s.choose(4 + base) - base
            name = ('equal', 'greater_equal', 'greater')[s.choose(3)]
            pred = PREDS[name](k)
            name = 'wait_%s %d' % (name, k)
            f = getattr(w, name.split()[0])

            def call():
                return f(k, **args)
        elif s.choose(6) == 5:
            name, pred = 'wait', (lambda v: False)

            def call():
                return w.wait(**args)
        else:
            k = 'v%d' % s.choose(3)
            bad = 'v%d' % s.choose(3) if with_faults and s.choose(2) else None
            pred = (lambda v: v == k)
            name = 'wait for %s%s' % (k, ', raising for %s' % bad if bad else '')

            def predicate(v):
                if v == bad:
                    raising.append(v)
                    s.fault('predicate-raises')
                    raise OOPS[s.choose(2)]()
                return v == k

            def call():
                return w.wait(predicate, **args)
        o = h.begin(name + ('' if timeout is None else ' within %.1f ms' % timeout), same)
        waits.enter(pred, timeout)
        t0 = s.now
        r = None
        try:
            r = call()
        except OOPS:
            pass
        waits.leave()
        if r is None:
            s.check(raising, 'wrong-reason', 'a wait returned nothing')
            h.end(o, 'raised', lambda st: [st] if st[1] and st[0] == raising[0] else [])
            return
        s.check(not raising, 'exception-swallowed', 'the exception of the condition was not given to the caller of the wait')
        # a timeout tells that the condition did not hold once the limit had elapsed
        h.end(o, reason(r), judge_wait(s, r, pred, timeout, s.now - t0), t0 + int(timeout * MS) - 2000 if reason(r) == 'timeout' else None)
        s.probes.add('wait-' + reason(r))

    def waiter():
        for _ in range(1 + s.choose(2)):
            s.pause(3)
            wait_once()

    ts = []
    for i in range(nwait):
        ts.append(s.spawn('waiter%d' % i, waiter))
    for i in range(nset):
        ts.append(s.spawn('setter%d' % i, change(i)))
    if other:
        ts.append(s.spawn('neighbour', neighbour))
    if toggles:
        ts.append(s.spawn('toggler', toggle))
    s.sleep_ms(s.choose(20))
    settle(s, 5000)
    with Quiet():
        # nobody runs: what the handler holds now is exact
        o = h.begin('final get', same)
    v = w.get_value()
    e = w.enabled()
    h.end(o, (v, e), lambda st: [st] if st == (v, e) else [])
    waits.check_asleep(v, e)
    h.check((init, enabled0), 'the handler')
    if s.choose(2):
        w.disable()
    else:
        before = dict(waits.now)
        w.blocking_disable()
        for tid, x in waits.now.items():
            t = s.tasks[tid]
            s.check(before.get(tid) is not x or not t.blocked or t.blocked[0] != 'a lock', 'waiter-inside', 'thread %s still waits after a blocking disable' % t.name)
    w.disable()
    for t in ts:
        s.join(t)


@scenario('Y01', 'integer', 4)
def y01_int(s):
    int_handler_run(s, 'int', False)


@scenario('Y01', 'boolean', 2)
def y01_bool(s):
    int_handler_run(s, 'bool', False)


@scenario('Y01', 'object', 2)
def y01_object(s):
    int_handler_run(s, 'object', False)


@scenario('Y02', 'release', 4)
def y02_release(s):
    """waiters that cannot be released but by disabling, in every way"""
    from py_utils.wait.IntWaitHandler import IntWaitHandler
    w = IntWaitHandler(True, 0)
    nwait = some(s, 4, 20)
    blocking = s.choose(4) != 0
    others = s.choose(2)
    raising = s.choose(3) == 2
    again = s.choose(2)
    s.desc = '%d waiters, %s%s%s' % (nwait, 'blocking disable' if blocking else 'disable', ', two at once' if others else '', ', conditions that raise' if raising else '')
    inside = {}
    state = {'off': None, 'on': 0}

    def waiter():
        for _ in range(1 + s.choose(2)):
            s.pause(2)
            timeout = None if s.choose(3) else (1 + s.choose(40)) / 2.0
            boom = raising and s.choose(2)

            def pred(v):
                if boom and v > 0:
                    s.fault('predicate-raises')
                    raise OOPS[s.choose(2)]()
                return v >= 100
            with Quiet():
                begin = s.stamp()
                inside[s.cur.id] = [begin, s.cur, None, False]
            t0 = s.now
            try:
                r = w.wait(pred, timeout / 1000.0 if timeout is not None else None) if boom or s.choose(2) else w.wait_greater_equal(100, None if timeout is None else timeout / 1000.0)
            except OOPS:
                r = None
            with Quiet():
                rec = inside.pop(s.cur.id)
                s.check(rec[2] is None or s.cur.acquires == rec[2], 'waiter-inside', 'a thread was still inside its wait when the blocking disable returned')
                if r is not None:
                    n = reason(r)
                    s.check(n in ('disabled', 'timeout'), 'wrong-reason', 'the wait returned %r' % (r,))
                    s.probes.add('wait-' + n)
                    if n == 'timeout':
                        s.check(timeout is not None, 'wrong-reason', 'a wait without time limit reports a timeout')
                        s.check(s.now - t0 + 1000 >= timeout * MS, 'early-timeout', 'time limit of %s ms, timeout after %.4f ms' % (timeout, (s.now - t0) / MS))
                        s.check(state['off'] is None or begin < state['off'] or state['on'], 'wrong-reason', 'a wait that began in a disabled handler reports a timeout')
                    else:
                        s.check(state['begun'] is not None, 'wrong-reason', 'the wait reports a disabled handler, nobody disabled it')

    def changer():
        for _ in range(some(s, 4, 30)):
            s.pause(3)
            w.increase()

    def disabler():
        s.pause(8)
        if s.choose(2):
            s.quiesce()
        with Quiet():
            if state['begun'] is None:
                state['begun'] = s.stamp()
            before = s.stamp()
            # nothing runs and nobody is stalled: those blocked are asleep in their wait
            rest = all(t.done or t is s.cur or (t.blocked and t.blocked[0] in ('a lock', 'join', 'sleep')) for t in s.tasks)
            known = {tid: rec for tid, rec in inside.items() if rest and rec[1].blocked and rec[1].blocked[0] == 'a lock'}
            if known:
                s.probes.add('disabled-with-waiters')
        w.blocking_disable() if blocking else w.disable()
        with Quiet():
            if state['off'] is None:
                state['off'] = s.stamp()
            if blocking:
                for tid, rec in known.items():
                    if inside.get(tid) is rec and rec[0] < before:
                        # it may only be on its way out: it takes no more locks
                        s.check(not (rec[1].blocked and rec[1].blocked[0] == 'a lock'), 'waiter-inside', 'thread %s still waits after a blocking disable' % rec[1].name)
                        rec[2] = rec[1].acquires

    state['begun'] = None
    ts = [s.spawn('waiter%d' % i, waiter) for i in range(nwait)]
    if raising or s.choose(2):
        ts.append(s.spawn('changer', changer))
    ds = [s.spawn('disabler', disabler)]
    if others:
        ds.append(s.spawn('disabler2', disabler))
    for d in ds:
        s.join(d)
    settle(s, 5000)
    with Quiet():
        for rec in inside.values():
            s.check(False, 'disable-left-waiter', 'thread %s still waits although the handler is disabled' % rec[1].name)
    for t in ts:
        s.join(t)
    s.check(w.enabled() is False, 'wrong-state', 'a disabled handler says it is enabled')
    if again:
        # and it works again
        s.probes.add('enabled-again')
        w.enable()
        s.check(w.enabled() is True, 'wrong-state', 'an enabled handler says it is disabled')
        w.set_value(0)
        out = []

        def late():
            out.append(w.wait_equal(7))
        t = s.spawn('late', late)
        s.pause(2)
        settle(s, 0)
        s.check(not out, 'wrong-reason', lambda: 'a wait returned %r in an enabled handler' % (out[0],))
        w.set_value(7)
        s.join(t)
        s.check(reason(out[0]) == 'condition_met', 'wrong-reason', lambda: 'a wait whose condition is met returned %r' % (out[0],))


@scenario('Y02', 'faults', 2)
def y02_faults(s):
    int_handler_run(s, 'object', True)


@scenario('Y03', 'limits', 3)
def y03_limits(s):
    """one or two waiters with time limits while the system clock steps"""
    from py_utils.wait.IntWaitHandler import IntWaitHandler
    from py_utils.wait.WaitHandler import WaitHandler
    n = some(s, 3, 12)
    s.jump_rate = (1, 2, 5)[s.choose(3)]
    changes = s.choose(2)
    w = IntWaitHandler(True, 0) if s.choose(2) else WaitHandler(True, 0)
    s.desc = '%d waits with time limit%s' % (n, ', value changing meanwhile' if changes else '')

    def waiter():
        for _ in range(1 + s.choose(3)):
            # milliseconds, with and without whole seconds
            lim = (0, 0.25, 1, 5, 20, 300, 900.5, 3600000)[s.choose(8)] * (1 + s.choose(3))
            t0, stalls = s.now, s.stalled_ns
            if isinstance(w, IntWaitHandler):
                r = w.wait_equal(1000, lim / 1000.0)
            elif s.choose(2):
                r = w.wait(timeout=lim / 1000.0)
            else:
                r = w.wait(lambda v: v == 1000, lim / 1000.0)
            e = s.now - t0
            s.check(reason(r) == 'timeout', 'wrong-reason', lambda: 'a wait that nobody ends returned %r' % (r,))
            s.check(e + 1000 >= lim * MS, 'early-timeout', lambda: 'time limit of %.3f ms, timeout after %.4f ms' % (lim, e / MS))
            s.check(e <= lim * MS + (s.stalled_ns - stalls) + 5 * MS + (61 * MS * len(s.tasks) if s.stall_rate else 0), 'late-timeout', lambda: 'time limit of %.3f ms, returned after %.4f ms' % (lim, e / MS))

    def changer():
        for _ in range(1 + s.choose(6)):
            s.pause(10)
            w.set_value(s.choose(5))
    ts = [s.spawn('waiter%d' % i, waiter) for i in range(n)]
    if changes:
        ts.append(s.spawn('changer', changer))

    def clock():
        for _ in range(1 + s.choose(6)):
            s.sleep_ms(s.choose(400) / 10.0)
            with Quiet():
                s.step_clock()
    ts.append(s.spawn('clock', clock))
    for t in ts:
        s.join(t)


@scenario('Y03', 'timer', 2)
def y03_timer(s):
    from py_utils.time.Timer import Timer
    s.jump_rate = (1, 2, 5)[s.choose(3)]
    n = 1 + s.choose(2)
    s.desc = 'timers of %d threads' % n

    def user():
        lo_b = s.now
        t = Timer()
        hi_b = s.now
        last = None
        for _ in range(1 + s.choose(6)):
            k = s.choose(4)
            if k == 0:
                s.sleep_ms((0.01, 1, 30, 5000, 86400000)[s.choose(5)])
            if k == 1:
                with Quiet():
                    s.step_clock()
            if k == 2 and s.choose(2):
                lo_b = s.now
                t.reset()
                hi_b = s.now
                last = None
            a = s.now
            e = t.elapsed()
            b = s.now
            s.check((a - hi_b) / 1e9 - 2e-6 <= e <= (b - lo_b) / 1e9 + 2e-6, 'wrong-elapsed', lambda: 'the timer says %.6f s after something between %.6f and %.6f s' % (e, (a - hi_b) / 1e9, (b - lo_b) / 1e9))
            s.check(last is None or e >= last, 'went-back', lambda: 'the timer says %.6f s after it had said %.6f' % (e, last))
            last = e
    ts = [s.spawn('user%d' % i, user) for i in range(n)]
    for t in ts:
        s.join(t)


class Screen:
    """where the log is written"""

    def __init__(self, s):
        self.s = s
        self.text = ''
        self.fail_rate = (0, 0, 0, 3, 10)[s.choose(5)]
        self.failed = 0

    def write(self, text):
        s = self.s
        s.point()
        with Quiet():
            if self.fail_rate and s.chance('write-fails', self.fail_rate):
                s.fault('write-fails')
                s.log('a write fails')
                self.failed += 1
                s.cur.screen_failed = True
                raise OSError(28, 'No space left on device')
            self.text += text
        s.point()
        return len(text)

    def lines_with(self, text):
        return sum(text in x for x in self.text.split('\n'))

    def flush(self):
        s = self.s
        s.point()
        if self.fail_rate and s.chance('flush-fails', self.fail_rate):
            s.fault('flush-fails')
            raise OSError(5, 'Input/output error')


class Screened:
    """the log modules as just imported, writing on the screen"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        with Quiet():
            logging._after_at_fork_child_reinit_locks()
            logging.disable(logging.NOTSET)
            screen = Screen(self.s)
            sys.stdout.sink = sys.stderr.sink = screen
            for m in list(sys.modules):
                if m.startswith(('py_utils.logging', 'py_utils.debugging')):
                    del sys.modules[m]
            import py_utils.logging.log_utils    # noqa: F401
            import py_utils.debugging.debug_utils    # noqa: F401
        return screen

    def __exit__(self, *a):
        sys.stdout.sink = sys.stderr.sink = None


class Settings:
    """values of something that threads set while others use it"""

    def __init__(self, s, first):
        self.s = s
        self.all = [[0, 0, first]]

    def set(self, value, call):
        v = [self.s.stamp(), None, value]
        self.all.append(v)
        call()
        v[1] = self.s.stamp()

    def between(self, b, e):
        """those that could be in force at some instant from b to e"""
        return [v[2] for v in self.all if v[0] < e and not any(v[1] is not None and u[0] > v[1] and u[1] is not None and u[1] < b for u in self.all)]


FORMATS = ('[%(asctime)s][%(name)s][%(levelname)s] %(message)s', '%(message)s', '%(levelname)s: %(message)s', '%(name)s %(levelno)d <%(message)s>', '%(message)s (%(levelname)-8s)', '%(levelname)s> %(message)s')
LEVELS = ((logging.DEBUG, 'DEBUG'), (logging.INFO, 'INFO'), (logging.WARNING, 'WARNING'), (logging.ERROR, 'ERROR'), (logging.CRITICAL, 'CRITICAL'), (25, 'Level 25'))


class Entry:
    def __init__(self, level, name, text, levels, formats):
        self.level, self.name, self.text, self.levels, self.formats = level, name, text, levels, formats
        self.b = self.e = None
        self.failed = False
        self.spoilt = False
        self.at = None

    def shown(self, fmt):
        out = re.escape(fmt)
        for k, v in (('%(asctime)s', r'\d+-\d\d-\d\d \d\d:\d\d:\d\d,\d\d\d'), ('%(name)s', re.escape(self.name)), ('%(levelname)s', re.escape(dict(LEVELS)[self.level])),
                     ('%(levelname)-8s', re.escape('%-8s' % dict(LEVELS)[self.level])), ('%(levelno)d', str(self.level)), ('%(message)s', re.escape(self.text))):
            out = out.replace(re.escape(k), v)
        return re.compile(out + r'\n')


def check_screen(s, text, entries):
    """what is on the screen is whole entries, those it should have"""
    pos = 0
    left = list(entries)
    order = []
    while pos < len(text):
        for x in left:
            m = next((m for f in x.formats.between(x.b, x.e) for m in [x.shown(f).match(text, pos)] if m), None)
            if m:
                break
        else:
            rest = text[pos:pos + 120]
            twice = [x for x in order if x.text in rest.split('\n')[0]]
            s.fail('wrong-entry', 'what the log wrote at %d is %s: %r' % (pos, 'an entry written already' if twice else 'no entry in a format in force', rest))
        pos = m.end()
        left.remove(x)
        for y in order:
            s.check(not x.e < y.b, 'wrong-order', lambda: 'entry %r was complete before %r was begun, but is after it' % (x.text, y.text))
        order.append(x)
        s.check(not all(x.level < v for v in x.levels.between(x.b, x.e)), 'not-severe-enough', lambda: 'entry %r of level %d was written although the level was %s' % (x.text, x.level, x.levels.between(x.b, x.e)))
    for x in left:
        s.check(x.failed or x.spoilt or any(x.level < v for v in x.levels.between(x.b, x.e)), 'entry-missing',
                lambda: 'entry %r of level %d was not written although the level was %s' % (x.text, x.level, x.levels.between(x.b, x.e)))


@scenario('Y04', 'log', 4)
def y04_log(s):
    with Screened(s) as screen:
        from py_utils.logging.log_utils import CustomLogger, logger
        k = s.choose(3)
        name = 'GLOBAL_LOG' if k < 2 else 'LOG%d' % s.choose(3)
        if k == 0:
            w, level = logger, logging.INFO
        elif k == 1:
            w, level = CustomLogger(), logging.INFO
        else:
            level = LEVELS[s.choose(5)][0]
            w = CustomLogger(level, name)
        n = 1 + s.choose(4)
        many = s.choose(12) == 11
        changing = s.choose(2)
        logs = [(w, name, Settings(s, level), Settings(s, FORMATS[0]))]
        if s.choose(4) == 3:
            # and another one, with which the first has nothing to do but the screen
            level2 = LEVELS[s.choose(5)][0]
            logs.append((CustomLogger(level2, 'OTHER'), 'OTHER', Settings(s, level2), Settings(s, FORMATS[0])))
        entries = []
        s.desc = '%d log%s of level %d used by %d threads%s' % (len(logs), 's' if len(logs) > 1 else '', level, n, ', level and format changed meanwhile' if changing else '')

        def write():
            lv = s.choose(len(LEVELS))
            w, name, levels, formats = logs[s.choose(len(logs))]
            with Quiet():
                text = 'e%d.%s' % (len(entries), ('', 'x' * s.choose(20), 'two\nlines', '100%', '%s', ' ')[s.choose(6)])
                x = Entry(LEVELS[lv][0], name, text, levels, formats)
                entries.append(x)
                s.cur.screen_failed = False
                x.b = s.stamp()
                s.log('begin entry %r of level %s' % (text, LEVELS[lv][1]))
            how = s.choose(12)
            if how == 11:
                x.spoilt = True
                s.fault('entry-cannot-be-composed')
                w.log(x.level, 'e%d of %d', text)
            elif how < 3 or lv == 5:
                w.log(x.level, '%s', text)
            else:
                f = (w.debug, w.info, w.warning, w.error, w.critical)[lv]
                f('%s', text) if how < 6 or '%' in text else f(text)
            with Quiet():
                x.e = s.stamp()
                x.failed = s.cur.screen_failed
                s.log('end   entry %r' % text)
            if x.level < max(levels.between(x.b, x.e)):
                s.probes.add('entry-below-level')

        def change():
            w, name, levels, formats = logs[s.choose(len(logs))]
            if s.choose(5) < 3:
                k = s.choose(6)
                if k == 5:
                    s.log('debug activated')
                    levels.set(logging.DEBUG, w.activate_debug)
                else:
                    lv = LEVELS[k]
                    s.log('level %s set' % lv[1])
                    levels.set(lv[0], lambda: w.set_log_level(lv[1] if s.choose(4) == 3 else lv[0]))
            else:
                f = s.choose(len(FORMATS) + 1)
                if f == len(FORMATS):
                    s.log('wrong format set')
                    s.fault('wrong-format')
                    try:
                        w.set_format('no field at all')
                        s.check(False, 'wrong-format', 'a format without fields was accepted')
                    except ValueError:
                        pass
                else:
                    s.log('format %s set' % FORMATS[f])
                    formats.set(FORMATS[f], lambda: w.set_format() if f == 0 else w.set_format(FORMATS[f]))

        def user():
            for _ in range(1 + s.choose(60 if many else 5)):
                s.pause(1)
                if changing and s.choose(3) == 2:
                    change()
                else:
                    write()
        ts = [s.spawn('user%d' % i, user) for i in range(n)]
        for t in ts:
            s.join(t)
        with Quiet():
            if screen.failed:
                s.probes.add('log-after-failed-write')
            check_screen(s, screen.text, entries)


#: what a decorated function may raise
RAISED = OOPS + (StopIteration, KeyError, TypeError)


@scenario('Y04', 'decorated', 2)
def y04_decorated(s):
    """functions that tell when they start and finish"""
    with Screened(s) as screen:
        from py_utils.logging.log_utils import logger
        from py_utils.debugging.debug_utils import debug_function_decorator, debug_object_introspection
        screen.fail_rate = 0
        debug = s.choose(3) != 2
        logger.set_log_level((logging.INFO, logging.ERROR)[s.choose(2)])
        if s.choose(2):
            logger.debug('before')
            logger.set_format('%(message)s')
        if debug:
            logger.activate_debug() if s.choose(2) else logger.set_log_level(logging.DEBUG)
        n = 1 + s.choose(4)
        s.desc = 'decorated functions of %d threads, %s' % (n, 'told' if debug else 'not told')
        calls = [0, 0]

        @debug_function_decorator
        def shared(who, depth, raising):
            """used by every thread"""
            with Quiet():
                calls[0] += 1
                calls[1] += raising or 0
            s.pause(1)
            if raising:
                raise RAISED[s.choose(len(RAISED))](who)
            return (who, shared(who, depth - 1, False)) if depth else (who, None)

        def use_shared(i, j):
            depth, raising = s.choose(2), s.choose(4) == 3
            try:
                r = shared((i, j), depth, raising)
                want = ((i, j), ((i, j), None) if depth else None)
                s.check(not raising, 'exception-swallowed', 'the exception of a decorated function was not given to its caller')
                s.check(r == want, 'wrong-result', lambda: 'a decorated function gave %r instead of %r' % (r, want))
            except RAISED as e:
                s.check(raising and e.args == ((i, j),), 'wrong-result', 'a decorated function raised an exception of another call')

        def user(i):
            def body():
                for j in range(1 + s.choose(3)):
                    s.pause(1)
                    if s.choose(2):
                        use_shared(i, j)
                    raising, depth = s.choose(4) == 3, s.choose(3)
                    name = 'f_%d_%d_' % (i, j)
                    seen = []

                    def f(a, b=5, *c, **d):
                        with Quiet():
                            seen.append((a, b, c, d, screen.lines_with(name)))
                        s.pause(1)
                        if depth > len(seen) - 1:
                            return g(a, b, *c, **d)
                        if raising:
                            raise RAISED[s.choose(len(RAISED))]()
                        return [a, b, c, d]
                    f.__name__ = name
                    g = debug_function_decorator(f)
                    args = ((i,), (i, j), (i, 'text', 3), ({'k': j}, None))[s.choose(4)]
                    kw = {} if s.choose(2) else {'z%d' % i: (j, None, [j])[s.choose(3)]}
                    want = [args[0], args[1] if len(args) > 1 else 5, args[2:], kw]
                    try:
                        r = g(*args, **kw)
                        s.check(not raising, 'exception-swallowed', 'the exception of a decorated function was not given to its caller')
                        s.check(r == want, 'wrong-result', lambda: 'a decorated function gave %r instead of %r' % (r, want))
                    except RAISED:
                        s.check(raising, 'wrong-result', 'a decorated function raised an exception of another call')
                        s.probes.add('decorated-function-raises')
                    with Quiet():
                        s.check(len(seen) == depth + 1, 'wrong-calls', lambda: 'a function called %d times was run %d times' % (depth + 1, len(seen)))
                        for k, x in enumerate(seen):
                            s.check(list(x[:4]) == want, 'wrong-arguments', lambda: 'a decorated function got %r instead of %r' % (x[:4], want))
                            s.check(x[4] == (k + 1 if debug else 0), 'wrong-entries', lambda: 'call %d of %s began with %d entries of it written' % (k + 1, name, x[4]))
                        c = screen.lines_with(name)
                        lo, hi = (depth + 1 if raising else 2 * (depth + 1), 2 * (depth + 1)) if debug else (0, 0)
                        s.check(lo <= c <= hi, 'wrong-entries', lambda: '%d calls of %s%s gave %d entries' % (depth + 1, name, ' that raised' if raising else '', c))
                    if s.choose(4) == 3:
                        # the same arguments again: another call
                        kept = [j]

                        @debug_function_decorator
                        def more(what, to=kept):
                            to.append(what)
                            return to
                        k = 1 + s.choose(3)
                        rs = [more(i) for _ in range(k)]
                        with Quiet():
                            s.check(kept == [j] + [i] * k, 'wrong-calls', lambda: 'a function called %d times with the same arguments was run %d times' % (k, len(kept) - 1))
                            s.check(all(r is kept for r in rs), 'wrong-result', 'a decorated function gave another object than the one returned')
                    if s.choose(6) == 5:
                        before = screen.lines_with('Introspected%d_%d' % (i, j))
                        debug_object_introspection(type('Introspected%d_%d' % (i, j), (), {'some_method': user})())
                        with Quiet():
                            c = screen.lines_with('Introspected%d_%d' % (i, j)) - before
                            s.check((c > 0) == debug, 'wrong-entries', 'the introspection of an object gave %d entries' % c)
            return body
        ts = [s.spawn('user%d' % i, user(i)) for i in range(n)]
        for t in ts:
            s.join(t)
        with Quiet():
            c = screen.lines_with('shared')
            lo, hi = (2 * calls[0] - calls[1], 2 * calls[0]) if debug else (0, 0)
            s.check(lo <= c <= hi, 'wrong-entries', lambda: '%d calls of a function used by every thread, %d of which raised, gave %d entries' % (calls[0], calls[1], c))


def pick(prop, rnd_index):
    """which scenario the run of this index is"""
    mine = [x for x in SCENARIOS if x[0] == prop]
    total = sum(x[2] for x in mine)
    k = random.Random(rnd_index * 2654435761 + 12345).randrange(total)
    for x in mine:
        if k < x[2]:
            return x
        k -= x[2]
