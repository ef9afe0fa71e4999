"""C20: numeric summaries equal those of the numbers that went into them, for every schedule of updates and merges."""
import copy
import math
import pickle

from sim import core, monitor
from sim.core import Stream, Violation, stream_seed
from sim.oracle import c4, mean, sumsq

RUNS = {'quick': 5000, 'thorough': 150000}
SHRINK = ('ops', 'plan')
RULE = ('one run = 2-6 stations that each keep a numeric summary and 5-60 steps: samples arriving one by one or in '
        'batches (whose source may fail), summaries sent as messages that are delayed, reordered and then merged at the '
        'receiver, direct merges, copies, checkpoints, crashes with restart from the last checkpoint; each station '
        'works in a thread of its own in some runs; after every step every summary is compared with the numbers that '
        'went into it; non-trivial = at least one merge or restart, distinct = different step text')
REAL = ['ContinuousValue, bias correction', 'pickle/deepcopy', 'threads']
STUB = ['message delivery between stations', 'crash and restart of a station', 'thread scheduling']
ASSUMPTIONS = ['rounding errors up to 40 times the bound of the updating algorithm are accepted',
               'magnitudes stay below 1e60, so that squares do not overflow',
               'if the source of a batch fails, the numbers read before may or may not be in the summary']
STATE_MEASURE = 'distinct (number of values at each station)'
INTERLEAVING_MEASURE = 'distinct sequences of (from thread, to thread) switches with their scheduling-point numbers'
EPS = 2.3e-16


class SourceFailure(Exception):
    pass


def numbers(rng):
    """A source of numbers of one kind."""
    k = rng.choice(['plain', 'plain', 'int', 'offset', 'const', 'tiny', 'huge', 'mix', 'sym'])
    base = rng.choice([0, 1, -5, 1e3, 1e6, 1e9, -1e12])
    c = rng.choice([0.1, 3, -7.25, 1e8 + .1])

    def one():
        if k == 'plain':
            return round(rng.gauss(0, 10), 3)
        if k == 'int':
            return rng.randint(-9, 9)
        if k == 'offset':
            return base + rng.gauss(0, 1)
        if k == 'const':
            return c if rng.random() < .95 else c + 1
        if k == 'tiny':
            return rng.gauss(0, 1) * 1e-150
        if k == 'huge':
            return rng.gauss(0, 1) * 1e60
        if k == 'sym':
            return rng.choice([-2, 2, 0, 1, -1])
        return rng.choice([rng.gauss(0, 1), 1e6 * rng.gauss(0, 1), rng.randint(0, 3)])
    return one


def gen(rng, tier):
    n = rng.randint(2, 6)
    src = numbers(rng)
    ops = []
    for _ in range(rng.choice([5, 10, 20, 30, 60])):
        r = rng.random()
        w = rng.randrange(n)
        if r < .4:
            ops.append({'op': 'update', 'w': w, 'x': src()})
        elif r < .55:
            xs = [src() for _ in range(rng.choice([0, 1, 2, 5, 10, 40]))]
            ops.append({'op': 'batch', 'w': w, 'xs': xs, 'form': rng.choice(['list', 'tuple', 'gen']),
                        'fail': rng.random() if rng.random() < .1 else None})
        elif r < .68:
            ops.append({'op': 'merge', 'w': w, 'from': (w + rng.randint(1, n - 1)) % n})
        elif r < .8:
            ops.append({'op': 'send', 'w': w, 'to': (w + rng.randint(1, n - 1)) % n, 'delay': rng.choice([0, 1, 3, 10])})
        elif r < .87:
            ops.append({'op': 'copy', 'w': w, 'from': (w + rng.randint(1, n - 1)) % n,
                        'how': rng.choice(['copy', 'copy', 'deepcopy', 'pickle'])})
        elif r < .92:
            ops.append({'op': 'checkpoint', 'w': w, 'how': rng.choice(['copy', 'deepcopy', 'pickle', 'pickle'])})
        elif r < .96:
            ops.append({'op': 'crash', 'w': w})
        elif r < .98:
            ops.append({'op': 'new', 'w': w})
        else:
            ops.append({'op': 'overlap', 'w': w, 'from': (w + rng.randint(1, n - 1)) % n})
    if rng.random() < .3:
        ops += [{'op': 'merge', 'w': 0, 'from': k} for k in range(1, n)]
    threads = rng.random() < .25
    return {'n': n, 'ops': ops, 'threads': threads,
            'plan': monitor.gen_plan(rng, n, rng.choice([1, 3, 10, 40]), [2, 20, 200], .3) if threads else []}


def nontrivial(scn):
    return repr(scn['ops']) if any(o['op'] in ('merge', 'send', 'crash') for o in scn['ops']) else None


# --------------------------------------------------------------------------- oracle
def bound(xs):
    """Error bounds for mean and sum of squares under updating in any order."""
    n, m, ss = len(xs), max(abs(x) for x in xs), sumsq(xs)
    e = 40 * EPS * n
    return e * m, e * (ss + math.sqrt(ss * n) * m) + e * e * n * m * m


def near(what, got, want, tol):
    if not isinstance(got, (int, float)) or not abs(got - want) <= tol:
        raise Violation('summary', '%s is %r instead of %r' % (what, got, want))


def check(cv, xs, what):
    n = len(xs)
    if cv.num != n:
        raise Violation('summary', '%s counts %r values instead of %d' % (what, cv.num, n))
    u = cv.unbiased_std()
    j = cv.output_json()
    if j['n'] != n or j['mean'] != cv.unbiased_mean() or j['std'] != u:
        raise Violation('summary', '%s is exported as %r' % (what, j))
    if not n:
        near(what + ' (empty): standard deviation', u, 0.0, 0)
        return
    em, es = bound(xs)
    m, ss = mean(xs), sumsq(xs)
    near(what + ': mean', cv.mean, m, em)
    near(what + ': mean', cv.unbiased_mean(), m, em)
    for name, got, div, corr in (('sample standard deviation', cv.biased_std(), n, 1.0),
                                 ('standard deviation', u, n - 1, c4(n) if n > 1 else 1.0)):
        if n == 1:
            want, tol = 0.0, math.sqrt(es)
        else:
            want = math.sqrt(ss / div) / corr
            hi, lo = math.sqrt((ss + es) / div) / corr, math.sqrt(max(0.0, ss - es) / div) / corr
            tol = max(hi - want, want - lo) * (1 + 1e-9) + want * 1e-12
        near('%s: %s of %d values' % (what, name, n), got, want, tol)
    b = cv.biased_std()
    for s in (.5, 3.0, 1e-3):
        for name, got, want in (('scaled_unbiased_std', cv.scaled_unbiased_std(s), u / s),
                                ('scaled_biased_std', cv.scaled_biased_std(s), b / s),
                                ('scaled_unbiased_mean', cv.scaled_unbiased_mean(1.5, s), (cv.mean - 1.5) / s)):
            near('%s: %s(%r)' % (what, name, s), got, want, abs(want) * 1e-9)
    for s in (0, -2.0):
        near('%s: scaled_unbiased_std(%r)' % (what, s), cv.scaled_unbiased_std(s), u, u * 1e-9)
        near('%s: scaled_biased_std(%r)' % (what, s), cv.scaled_biased_std(s), b, b * 1e-9)
        near('%s: scaled_unbiased_mean(%r)' % (what, s), cv.scaled_unbiased_mean(1.5, s), cv.mean - 1.5,
             abs(cv.mean - 1.5) * 1e-9)


def overlap(a, b):
    v = a.unbiased_std() ** 2 + b.unbiased_std() ** 2 + 1 / (2 * math.pi)
    d = a.mean - b.mean
    want = math.exp(-d * d / (2 * v)) / math.sqrt(2 * math.pi * v)
    for x, y in ((a, b), (b, a)):
        got = x.integral_of_gaussian_product(y)
        if not (0 <= got <= 1 + 1e-9 and abs(got - want) <= 1e-6 * want + 1e-300):
            raise Violation('overlap', 'the overlap of %r and %r is %r instead of %r' % (x, y, got, want))


def raw(cv):
    return (cv.num, cv.mean, cv.unbiased_std())


# --------------------------------------------------------------------------- stations
def clone(cv, how):
    return cv.copy() if how == 'copy' else copy.deepcopy(cv) if how == 'deepcopy' else pickle.loads(pickle.dumps(cv))


class World(object):
    def __init__(self, n, ctx):
        self.CV = core.lib().continuous_value.ContinuousValue
        self.ctx = ctx
        self.cv = [self.CV() for _ in range(n)]
        self.xs = [[] for _ in range(n)]
        self.disk = [None] * n
        self.net = []

    def apply(self, op):
        w = op['w']
        k = op['op']
        cv, xs = self.cv, self.xs
        if k == 'update':
            cv[w].update(op['x'])
            xs[w].append(op['x'])
        elif k == 'batch':
            self.batch(op, w)
        elif k == 'merge':
            cv[w].combine(cv[op['from']])
            xs[w].extend(xs[op['from']])
        elif k == 'send':
            self.net.append([op['delay'], op['to'], pickle.dumps(cv[w]), list(xs[w])])
        elif k == 'copy':
            cv[w] = clone(cv[op['from']], op['how'])
            xs[w] = list(xs[op['from']])
        elif k == 'checkpoint':
            self.disk[w] = (pickle.dumps(cv[w]) if op['how'] == 'pickle' else clone(cv[w], op['how']), list(xs[w]))
        elif k == 'crash':
            self.ctx.fault('crash_restart')
            if self.disk[w] is None:
                cv[w], xs[w] = self.CV(), []
            else:
                im, ys = self.disk[w]
                cv[w] = pickle.loads(im) if isinstance(im, bytes) else im.copy()
                xs[w] = list(ys)
        elif k == 'new':
            cv[w], xs[w] = self.CV(), []
        elif k == 'overlap':
            overlap(cv[w], cv[op['from']])

    def batch(self, op, w):
        at = None if op['fail'] is None else int(op['fail'] * (len(op['xs']) + 1))

        def produce():
            for i, x in enumerate(op['xs']):
                if i == at:
                    raise SourceFailure()
                yield x
            if at == len(op['xs']):
                raise SourceFailure()
        if at is None and op['form'] != 'gen':
            d = op['xs'] if op['form'] == 'list' else tuple(op['xs'])
            keep = list(d)
            self.cv[w].update_batch(d)
            if list(d) != keep:
                raise Violation('argument', 'update_batch changed its argument')
        else:
            n0 = self.cv[w].num
            try:
                self.cv[w].update_batch(produce())
                if at is not None:
                    raise Violation('batch', 'the failure of the source of a batch was hidden')
            except SourceFailure:
                self.ctx.fault('source_failure')
                if self.cv[w].num == n0:
                    return
                op = dict(op, xs=op['xs'][:at])
        self.xs[w].extend(op['xs'])

    def deliver(self, ctx):
        for m in list(self.net):
            if m[0] <= 0:
                self.net.remove(m)
                msg = pickle.loads(m[2])
                keep = raw(msg)
                self.cv[m[1]].combine(msg)
                if raw(msg) != keep:
                    raise Violation('argument', 'merging changed the summary merged in')
                self.xs[m[1]].extend(m[3])
                ctx.fault('delayed_message')
            m[0] -= 1


def touched(op):
    return {op['w']} if op['op'] not in ('send', 'overlap', 'checkpoint') else set()


def cap(op, W):
    """Merging back and forth doubles the number of values."""
    ns = [len(x) for x in W.xs]
    return op['op'] in ('merge', 'send') and ns[op['w']] + ns[op.get('from', op.get('to'))] > 600


def run(scn, ctx):
    if scn['threads']:
        return threaded(scn, ctx)
    W = World(scn['n'], ctx)
    for op in scn['ops']:
        if cap(op, W):
            continue
        before = [raw(c) for c in W.cv]
        mark = [len(x) for x in W.xs]
        W.apply(op)
        t = touched(op)
        for i, c in enumerate(W.cv):
            if i not in t and raw(c) != before[i]:
                raise Violation('shared', '%s at station %d changed the summary of station %d' % (op['op'], op['w'], i))
        for i in t:
            check(W.cv[i], W.xs[i], 'after %s, station %d' % (op['op'], i))
        for m in W.net:
            if m[0] <= 0 and len(W.xs[m[1]]) + len(m[3]) > 600:
                m[0] = 1e9
        W.deliver(ctx)
        ctx.steps += 1
        ctx.state(tuple(mark))
    for i, c in enumerate(W.cv):
        check(c, W.xs[i], 'at the end, station %d' % i)
    for i, d in enumerate(W.disk):
        if d is not None:
            check(pickle.loads(d[0]) if isinstance(d[0], bytes) else d[0], d[1], 'the checkpoint of station %d' % i)


def threaded(scn, ctx):
    """Every station in a thread of its own; merges happen after all are done, in the seeded order."""
    def together(plan, record):
        W = World(scn['n'], core.Ctx())
        sch = monitor.Scheduler(plan, record=record)

        def body(i):
            def go():
                for op in scn['ops']:
                    if op['w'] == i and op['op'] in ('update', 'batch', 'checkpoint', 'crash', 'new'):
                        W.apply(op)
                        W.cv[i].unbiased_std()
            return go
        ts = [sch.add(body(i), Stream(stream_seed(scn['seed'], i))) for i in range(scn['n'])]
        sch.run()
        for t in ts:
            if isinstance(t.exc, core.SimStall):
                raise Violation('stall', str(t.exc))
            if isinstance(t.exc, Exception) and not isinstance(t.exc, Violation):
                raise Violation('exception', core.exc_text(t.exc) + ' @ ' + core.where(t.exc))
            if t.exc is not None:
                raise t.exc
        return W, sch
    _, dry = together((), True)
    W, sch = together(monitor.resolve_plan(scn['plan'], dry.step, [t.trace for t in dry.tasks]), False)
    ctx.fault('thread_switch', len(sch.log))
    ctx.steps += sch.step
    ctx.interleaving(sch.log)
    for i, c in enumerate(W.cv):
        check(c, W.xs[i], 'station %d' % i)
    for op in scn['ops']:
        if op['op'] == 'merge' and not cap(op, W):
            W.apply(op)
            check(W.cv[op['w']], W.xs[op['w']], 'after merge, station %d' % op['w'])
