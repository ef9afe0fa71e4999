"""Seams inside running library code: thread scheduling points and interruption points.

sys.monitoring reports every function entry, backward jump and return from a C function (where CPython
3.12 may hand the interpreter to another thread) and every line (where an asynchronous exception may strike) of
library code. Which event does what is decided by the scenario alone.
"""
import sys
import dis
import threading

from sim import core

mon = sys.monitoring
TOOL = 4
E = mon.events
PKGDIR = core.REPO + '/' + core.PKG + '/'
_on = False


def _is_lib(code):
    return code.co_filename.startswith(PKGDIR)


def dep_dirs():
    import os
    import munkres
    import py_search
    return tuple(os.path.dirname(m.__file__) + '/' for m in (munkres, py_search))


def _start(events, callbacks):
    global _on
    off()
    mon.use_tool_id(TOOL, 'sim')
    for ev, cb in callbacks:
        mon.register_callback(TOOL, ev, cb)
    mon.restart_events()
    mon.set_events(TOOL, events)
    _on = True


def off():
    global _on
    if _on:
        mon.set_events(TOOL, 0)
        for ev in (E.LINE, E.PY_START, E.JUMP, E.CALL, E.C_RETURN):
            mon.register_callback(TOOL, ev, None)
        mon.free_tool_id(TOOL)
        _on = False


# --------------------------------------------------------------------------- interruption
class Interrupter(object):
    """Counts line events of library code in the current call; raises `exc` at event number `at`."""

    def __init__(self, at=None, exc=core.SimInterrupt):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None

    def _line(self, code, line):
        if not _is_lib(code):
            return mon.DISABLE
        self.n += 1
        if self.n == self.at:
            self.fired = '%s:%s:%d' % (code.co_filename[len(PKGDIR):], code.co_name, line)
            raise self.exc('injected at ' + self.fired)
        if self.n > 3000000:
            raise core.SimStall('more than 3000000 lines in one operation')
        return None

    def __enter__(self):
        _start(E.LINE, [(E.LINE, self._line)])
        return self

    def __exit__(self, *a):
        off()
        return False


# --------------------------------------------------------------------------- threads
_stores = {}


def store_lines(code):
    """Lines of a code object that assign to an attribute or a global (2) or into a container (1)."""
    hit = _stores.get(id(code))
    if hit is None or hit[0] is not code:
        out, line = {}, None
        for i in dis.get_instructions(code):
            if i.positions is not None and i.positions.lineno is not None:
                line = i.positions.lineno
            if i.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'DELETE_ATTR'):
                out[line] = 2
            elif i.opname in ('STORE_SUBSCR', 'STORE_DEREF', 'DELETE_SUBSCR'):
                out.setdefault(line, 1)
        hit = _stores[id(code)] = (code, out)
    return hit[1]


class Task(object):
    def __init__(self, i, fn, stream):
        self.i = i
        self.fn = fn
        self.stream = stream
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.exc = None
        self.steps = 0
        self.trace = []


class Scheduler(object):
    """Runs tasks as real threads, exactly one at a time; hands over at scheduling points named by `plan`.

    plan: list of (step, target) or (step, target, length): at global scheduling point `step` hand the
    interpreter to task `target`; with a length, keep rotating at every point for that many points.
    ('at', task, step, target, length) does so at the task's own `step`-th point.
    With lines, every line of library code is a scheduling point too, otherwise only the places where the
    interpreter itself may switch threads (function entry, backward jump, return from a C call).
    With deps, the third-party matching and search code that the library calls has scheduling points as well.
    With record, the code location of every point is kept per task, with what was assigned just before it.
    """

    def __init__(self, plan=(), cap=5000000, record=False, lines=False, deps=False):
        self.plan = {}
        self.own = {}
        self.record = record
        self.lines = lines
        self.dirs = (PKGDIR,) + (dep_dirs() if deps else ())
        self.wrote = 0
        for p in plan:
            if p[0] == 'at':
                self.own[p[1], p[2]] = (p[3], p[4])
            else:
                self.plan[p[0]] = (p[1], p[2] if len(p) > 2 else 0)
        self.tasks = []
        self.step = 0
        self.cap = cap
        self.current = None
        self.burst = 0
        self.main = threading.Semaphore(0)
        self.log = []
        self.byident = {}
        self.abort = None

    def add(self, fn, stream=None):
        t = Task(len(self.tasks), fn, stream)
        self.tasks.append(t)
        return t

    def use(self, stream):
        """Called by the running task: draws come from `stream` whenever this task runs."""
        self.current.stream = stream
        core.SIM.use(stream)

    # -- called in task threads
    def _point(self, where):
        me = self.byident.get(threading.get_ident())
        if me is None:
            return
        if self.abort:
            raise core.SimStall(self.abort)
        self.step += 1
        me.steps += 1
        if self.step > self.cap:
            self.abort = 'more than %d scheduling points' % self.cap
            raise core.SimStall(self.abort)
        tgt = None
        if self.record:
            me.trace.append((self.wrote, where))
            self.wrote = 0
        d = self.plan.get(self.step) or (self.own and self.own.get((me.i, me.steps)))
        if d:
            tgt = d[0]
            self.burst = d[1]
        elif self.burst > 0:
            self.burst -= 1
            tgt = me.i + 1
        if tgt is not None:
            self._switch(me, tgt)

    def _switch(self, me, tgt):
        alive = [t for t in self.tasks if not t.done]
        if len(alive) < 2:
            return
        n = len(self.tasks)
        for k in range(n):
            t = self.tasks[(tgt + k) % n]
            if not t.done and t is not me:
                break
        else:
            return
        self.log.append((self.step, me.i, t.i))
        self._hand(t)
        me.sem.acquire()

    def _hand(self, t):
        self.current = t
        if t.stream is not None:
            core.SIM.use(t.stream)
        t.sem.release()

    def _py_start(self, code, off_):
        if not code.co_filename.startswith(self.dirs):
            return mon.DISABLE
        self._point((code.co_qualname, -1))

    def _jump(self, code, src, dst):
        if not code.co_filename.startswith(self.dirs):
            return mon.DISABLE
        if dst < src:
            self._point((code.co_qualname, src))

    def _line(self, code, line):
        if not code.co_filename.startswith(self.dirs):
            return mon.DISABLE
        if self.lines:
            self._point((code.co_qualname, 'line', line))
        if self.record:
            w = store_lines(code).get(line)
            if w and w > self.wrote:
                self.wrote = w

    def _call(self, code, off_, fn, arg0):
        if not code.co_filename.startswith(self.dirs):
            return mon.DISABLE

    def _c_return(self, code, off_, fn, arg0):
        if code.co_filename.startswith(self.dirs):
            self._point((code.co_qualname, off_))

    def _body(self, t):
        t.sem.acquire()
        self.byident[threading.get_ident()] = t
        try:
            t.result = t.fn()
        except BaseException as e:
            t.exc = e
        t.done = True
        alive = [x for x in self.tasks if not x.done]
        if alive:
            n = len(self.tasks)
            for k in range(1, n + 1):
                x = self.tasks[(t.i + k) % n]
                if not x.done:
                    self._hand(x)
                    break
        else:
            self.main.release()

    def run(self):
        more = [(E.LINE, self._line)] if self.lines or self.record else []
        _start(E.PY_START | E.JUMP | E.CALL | (E.LINE if more else 0),
               more + [(E.PY_START, self._py_start), (E.JUMP, self._jump), (E.CALL, self._call),
                (E.C_RETURN, self._c_return)])
        saved = core.SIM.stream
        try:
            ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
            for th in ths:
                th.start()
            self._hand(self.tasks[0])
            self.main.acquire()
            for th in ths:
                th.join()
        finally:
            off()
            core.SIM.use(saved)
        return self.tasks


def gen_plan(rng, k, n, bursts, p_burst, p_at=.4):
    """n planned switches among k tasks: uniform over the points of the run, or uniform over code locations."""
    out = []
    for _ in range(n):
        b = rng.choice(bursts) if rng.random() < p_burst else 0
        if rng.random() < p_at:
            out.append(('at', round(rng.random(), 6), round(rng.random(), 6), round(rng.random(), 6), rng.randrange(k), b))
        else:
            out.append((round(rng.random(), 6), rng.randrange(k)) + ((b,) if b else ()))
    return out


def resolve_plan(fracs, total, traces=()):
    """Planned switches with fractions -> with steps, for a run of `total` points with the given traces."""
    out = []
    for f in fracs:
        if f[0] != 'at':
            out.append((1 + int(f[0] * max(total, 1)),) + tuple(f[1:]))
            continue
        if not traces:
            continue
        i = int(f[1] * len(traces))
        tr = traces[i]
        if not tr:
            continue
        locs = sorted(set(tr), key=repr)
        x = f[2] * 3                       # right after an assignment to an attribute, after any, anywhere
        level = 2 - int(x)
        locs = [l for l in locs if l[0] >= level] or locs
        loc = locs[int((x - int(x)) * len(locs))]
        pos = [s for s, x in enumerate(tr) if x == loc]
        out.append(('at', i, 1 + pos[int(f[3] * len(pos))], f[4], f[5]))
    return out
