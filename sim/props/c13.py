"""C13: data sets load completely and independently, or the load fails."""
import copy
import gc
import json
import os

from sim import core, disk, monitor
from sim.core import Rng, Stream, Violation, stream_seed

RUNS = {'quick': 700, 'thorough': 20000}
SHRINK = ('ops',)
RULE = ('one run = a sequence of 2-8 loads (single or 2-3 concurrent clients under a seeded schedule) with seeded '
        'num_instances, short reads, read/open errors, interrupts and memory errors, interleaved with changes to '
        'earlier results; non-trivial = a fault or a changed result precedes a later load, distinct = different '
        'operation text')
REAL = ['dataset loaders and the quadruped generator', "Python's buffering, text decoding and json", 'threads']
STUB = ['raw disk under open/os.read (short reads, errors)', 'generator behind the random module',
        'thread scheduling in concurrent loads']
ASSUMPTIONS = ['the data files shipped in the working tree are the truth (parsed independently)',
               'data sets whose file is not shipped (mushrooms.json) must fail to load']
INTERLEAVING_MEASURE = 'distinct (switch log, disk fault log) of concurrent loads'
STATE_MEASURE = 'distinct (data set, size asked, outcome) of loads'

FILES = {'forest_fires': 'forest_fires.json', 'congressional_voting': 'congressional_voting.json',
         'iris': 'iris.json', 'mushroom': 'mushrooms.json', 'rb_com_11': 'rb_com_11_continuous.json',
         'rb_s_07': 'rb_s_07_continuous.json', 'rb_s_13': 'rb_s_13_continuous.json',
         'rb_wb_03': 'rb_wb_03_continuous.json', 'molecule': 'molecule.json',
         'rb_s_07_human_predictions': 'human_s_07_success_predictions.csv'}
DATA = core.REPO + '/' + core.PKG + '/data_files/'
_truth = {}


def truth(name):
    if name not in _truth:
        path = DATA + FILES[name]
        if not os.path.exists(path):
            _truth[name] = None
        elif path.endswith('.csv'):
            with disk.REAL_OPEN(path) as f:
                _truth[name] = f.read().splitlines()
        else:
            with disk.REAL_OPEN(path) as f:
                _truth[name] = json.load(f)
    return _truth[name]


def size(name):
    t = truth(name)
    return len(t) if t else 10


def gen_load(rng, names):
    name = rng.choice(names)
    if name == 'quadruped':
        n = rng.choice([0, 1, 2, 5])
    elif name == 'rb_s_07_human_predictions':
        n = None
    else:
        s = size(name)
        n = rng.choice([None, None, 0, 1, 2, 5, rng.randint(0, s), rng.randint(0, s), s - 1, s, s + 1, s + 50])
    d = {'set': name, 'n': n}
    r = rng.random()
    if r < .35:
        d['short'] = (rng.getrandbits(30), rng.choice([.1, .5, 1.0]))
    if rng.random() < .45:
        d['faults'] = [(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 14, 20]),
                        rng.choice(['eio', 'eio', 'eio', 'emfile', 'eacces', 'interrupt']))]
    elif rng.random() < .15:
        d['abort'] = (rng.random(), rng.random() < .3)
    if rng.random() < .5:
        d['kw'] = True
    return d


def gen(rng, tier):
    names = list(FILES) + ['quadruped']
    if rng.random() < .7:
        names = rng.sample(names, rng.choice([1, 1, 2]))
    ops = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .15:
            loads = [gen_load(rng, names) for _ in range(rng.choice([2, 2, 3]))]
            for x in loads:
                x.pop('abort', None)
            plan = monitor.gen_plan(rng, 3, rng.choice([1, 2, 4, 8]), [1, 3, 20], .4)
            ops.append({'op': 'par', 'loads': loads, 'plan': plan})
        elif r < .35:
            ops.append({'op': 'vandal', 'seed': rng.getrandbits(30)})
        else:
            ops.append(dict(gen_load(rng, names), op='load'))
    ops.append({'op': 'load', 'set': rng.choice(names), 'n': None})
    if ops[-1]['set'] == 'quadruped':
        ops[-1]['n'] = 3
    return {'ops': ops}


def nontrivial(scn):
    o = scn['ops']
    if any(x['op'] == 'vandal' or x.get('faults') or x.get('short') or x.get('abort') or x['op'] == 'par'
           for x in o[:-1]):
        return repr(o)
    return None


def call(L, d):
    f = getattr(L.datasets, 'load_' + d['set'])
    if d['set'] == 'rb_s_07_human_predictions':
        return f()
    if d['n'] is None:
        return f()
    return f(num_instances=d['n']) if d.get('kw') else f(d['n'])


def expect(d):
    t = truth(d['set'])
    if t is None or d['n'] is None:
        return t
    return t[:d['n']]


def good(d, r, what):
    if not isinstance(r, list):
        raise Violation('result', '%s: returned a %s, not a list' % (what, type(r).__name__))
    if d['set'] == 'quadruped':
        animals(d, r, what)
        return
    t = expect(d)
    if t is None:
        raise Violation('result', '%s: there is no such data file but the load returned %d instances' % (what, len(r)))
    if len(r) != len(t):
        raise Violation('truncated' if len(r) < len(t) else 'surplus',
                        '%s: %d instances instead of %d' % (what, len(r), len(t)))
    if len(set(id(a) for a in r if isinstance(a, dict))) < sum(isinstance(a, dict) for a in r):
        raise Violation('shared', '%s: one object stands for several instances' % what)
    for i, (a, b) in enumerate(zip(r, t)):
        if not same(a, b):
            raise Violation('content', '%s: instance %d is %.300r instead of %.300r' % (what, i, a, b))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


PARTS = {'torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail'}


def animals(d, r, what):
    if len(r) != d['n']:
        raise Violation('truncated' if len(r) < d['n'] else 'surplus',
                        '%s: %d animals instead of %d' % (what, len(r), d['n']))
    for a in r:
        if not isinstance(a, dict) or a.get('_type') not in ('dog', 'cat', 'horse', 'giraffe') \
                or not PARTS <= set(a):
            raise Violation('content', '%s: not an animal: %.300r' % (what, a))
        for p in PARTS:
            if not isinstance(a[p], dict) or not {'height', 'radius', 'texture'} <= set(a[p]):
                raise Violation('content', '%s: incomplete %s: %.300r' % (what, p, a[p]))


def vandalise(rng, objs):
    """Change results the client owns, at every depth."""
    def hit(o, depth):
        if isinstance(o, dict):
            for k in list(o):
                hit(o[k], depth + 1)
            if o and rng.random() < .7:
                k = rng.choice(sorted(o, key=str))
                if rng.random() < .5:
                    del o[k]
                else:
                    o[k] = 'changed by its owner'
            o['vandal'] = 1
        elif isinstance(o, list):
            for x in o:
                hit(x, depth + 1)
            if rng.random() < .7:
                rng.shuffle(o)
                o.append('vandal')
                del o[:rng.randint(0, len(o) // 2)]
    for o in objs:
        hit(o, 0)


def shared(a, b):
    """Do two results share a mutable object?"""
    ids = set()

    def collect(o):
        if isinstance(o, (dict, list)):
            ids.add(id(o))
            for x in (o.values() if isinstance(o, dict) else o):
                collect(x)
    collect(a)

    def meets(o):
        if isinstance(o, (dict, list)):
            if id(o) in ids:
                return True
            return any(meets(x) for x in (o.values() if isinstance(o, dict) else o))
        return False
    return meets(b)


def one(L, d, dk, results, what, runner):
    """Run one load with its faults; returns outcome text."""
    exc = None
    try:
        r = runner()
    except (Violation, core.SimStall):
        raise
    except BaseException as e:
        exc = e
    check_outcome(d, dk, exc, None if exc else r, results, what)
    return 'raised ' + type(exc).__name__ if exc else len(r)


def check_outcome(d, dk, exc, r, results, what):
    if exc is not None:
        caused = dk.fired or isinstance(exc, (core.SimInterrupt, core.SimMemoryError)) or \
            (d['set'] != 'quadruped' and truth(d['set']) is None)
        if not caused:
            raise Violation('exception', '%s: fails without a fault: %s @ %s' % (what, core.exc_text(exc), core.where(exc)))
    else:
        good(d, r, what + (' (after %s)' % dk.fired if dk.fired else ''))
        for q in results:
            if shared(q, r):
                raise Violation('shared', '%s: the result shares objects with an earlier result' % what)
        results.append(r)


def closed(dk, what):
    if dk.unclosed():
        raise Violation('open file', '%s: %s still open' % (what, sorted(set(os.path.basename(p) for p in dk.unclosed()))))
    if dk.leaked:
        raise Violation('open file', '%s: %s closed only by garbage collection'
                        % (what, sorted(set(os.path.basename(p) for p in dk.leaked))))
    if dk.escapes:
        raise Violation('disk', '%s: loading wants to %s %s' % ((what,) + dk.escapes[0]))


def run(scn, ctx):
    L = core.lib()
    results = []
    for i, op in enumerate(scn['ops']):
        core.op_stream(scn['seed'], i)
        if op['op'] == 'vandal':
            vandalise(Rng(op['seed']), results)
            results = results[-2:]
            ctx.fault('results_changed_by_owner')
        elif op['op'] == 'par':
            parallel(L, scn, i, op, results, ctx)
        else:
            what = 'load %d (%s, %s)' % (i, op['set'], op['n'])
            dk = disk.Disk(faults=op.get('faults', ()), short=op.get('short'), ctx=ctx)
            runner = lambda: call(L, op)
            if op.get('abort'):
                with monitor.Interrupter() as c:
                    try:
                        call(L, op)
                    except Exception:
                        pass
                core.op_stream(scn['seed'], i)
                at = 1 + int(op['abort'][0] * c.n)
                exc = core.SimMemoryError if op['abort'][1] else core.SimInterrupt

                def runner():
                    with monitor.Interrupter(at, exc):
                        return call(L, op)
                ctx.fault('aborted_load')
            with dk:
                out = one(L, op, dk, results, what, runner)
                if not op.get('abort'):    # no with-statement code can promise it for an asynchronous exception
                    closed(dk, what)
            ctx.state((op['set'], op['n'], out))
        if len(results) > 6:
            results = results[-6:]


def parallel(L, scn, i, op, results, ctx):
    """Several clients load at the same time; the faults strike whichever client makes that disk call."""
    faults = [f for d in op['loads'] for f in d.get('faults', ())][:1]
    short = next((d['short'] for d in op['loads'] if d.get('short')), None)

    def tasks(sch):
        ts = []
        for k, d in enumerate(op['loads']):
            ts.append(sch.add(lambda d=d: call(L, d), Stream(stream_seed(scn['seed'], i, k))))
        return ts
    sch = monitor.Scheduler((), record=True)
    dry = tasks(sch)
    with disk.Disk(short=short) as dk:
        sch.run()
    dk.release()
    total = sch.step
    sch = monitor.Scheduler(monitor.resolve_plan(op['plan'], total, [t.trace for t in dry]))
    ts = tasks(sch)
    dk = disk.Disk(faults=faults, short=short, ctx=ctx)
    with dk:
        sch.run()
    ctx.fault('thread_switch', len(sch.log))
    ctx.steps += sch.step
    ctx.interleaving((sch.log, dk.fired))
    for t, d in zip(ts, op['loads']):
        what = 'concurrent load %d (%s, %s)' % (i, d['set'], d['n'])
        if t.exc is not None and not isinstance(t.exc, (Exception, KeyboardInterrupt)):
            raise Violation('stall', '%s: %s' % (what, t.exc))
        check_outcome(d, dk, t.exc, t.result, results, what)
    if len([t for t in ts if t.exc is not None and isinstance(t.exc, (OSError, KeyboardInterrupt))
            and 'injected' in str(t.exc) + 'injected' * isinstance(t.exc, KeyboardInterrupt)]) > len(dk.fired):
        raise Violation('fault spreads', 'one disk fault made several clients fail')
    closed(dk, 'concurrent loads %d' % i)
