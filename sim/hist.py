"""Histories: generated operation lists that can be played on any tree, with comparable answers."""
import copy

from sim import core, queries, work
from sim.core import Violation, guarded

PLAIN_Q = ['categorize', 'infer', 'score', 'predict', 'probability', 'weighted', 'ecg', 'cu', 'opcu', 'misc', 'str']


def maker(rng, t, p_rel=.6, hidden=True):
    """(mk, relational) for tree type t: mk(prev) makes the next instance."""
    relational = t in ('trestle', 'dummy') and rng.random() < p_rel
    if relational:
        s = work.rel_schema(rng, t == 'dummy')
        if not hidden:
            s['hidden'] = 0
        return (lambda prev: work.rel_instance(rng, s)), True
    s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3', hidden=hidden)
    return (lambda prev: work.instance(rng, s, prev)), False


def large(rng, t):
    """mk for large trees: many sibling groups, or long chains of ever more special concepts."""
    style = rng.choice(['wide', 'deep', 'bits'])

    def mk(prev):
        i = len(prev)
        if style == 'wide':
            g = i % 14
            d = {'g': 'g%d' % g, 'g2': 'h%d' % g, 'g3': 'i%d' % g, 'sub': 's%d' % (i // 14)}
        elif style == 'deep':
            d = {'l%d_%d' % (j, m): 'pq'[(i >> j) & 1] + str(i >> j) for j in range(6) for m in range(j + 1)}
        else:
            d = {'b%d' % j: rng.choice(['0x', '1x']) for j in range(7)}
        if t != 'cobweb' and rng.random() < .3:
            d['num'] = float(rng.randint(0, 5))
        return d
    return mk


def tree_type(rng):
    return rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'trestle', 'dummy'])


def length(rng, relational):
    if rng.random() < .03:
        return 12 if relational else 60
    return rng.choice([2, 3, 5]) if relational else rng.choice([2, 5, 10, 20])


def ops(rng, t, mk, relational, n, prev, kinds=PLAIN_Q, extra=()):
    out = []
    kinds = [k for k in kinds if k != 'misc' and k != 'str'] if relational else kinds
    if relational:
        kinds = [k for k in kinds if k not in ('opcu', 'exact')]
    pq = rng.choice([0, .2, .5])
    pe = rng.choice([0, .15]) if extra else 0
    for _ in range(n):
        r = rng.random()
        if r < pe:
            k = rng.choice(extra)
            if k == 'reject':
                out.append({'op': 'reject', 'inst': work.invalid(rng, t, mk(prev))})
            elif k == 'batch':
                b = [mk(prev) for _ in range(rng.randint(1, 4))]
                prev += b
                out.append({'op': 'batch', 'insts': b, 'iters': rng.choice([1, 1, 2]), 'rand': rng.random() < .5})
            elif k == 'abort':
                out.append({'op': 'abort', 'inst': mk(prev), 'at': rng.random(), 'what': rng.choice(['ifit', 'ifit',
                            'categorize', 'infer_missing']), 'mem': rng.random() < .3})
        elif r < pe + pq and prev:
            out.append(queries.gen(rng, mk, prev, kinds, relational))
        else:
            i = mk(prev)
            prev.append(i)
            out.append({'op': 'fit', 'inst': i})
    return out


def play(L, tree, op, seed, i, kind, ctx):
    """Apply one operation with the draws of (seed, i). Returns a comparable answer."""
    s = core.op_stream(seed, i, kind)
    k = op['op']
    ctx.steps += 1
    try:
        if k == 'fit':
            n = guarded(tree.ifit, copy.deepcopy(op['inst']))
            return queries.pos(tree, n)
        if k == 'batch':
            guarded(tree.fit, copy.deepcopy(op['insts']), op['iters'], op['rand'])
            return None
        if k == 'q':
            return queries.answer(L, tree, op)[0]
        if k == 'reject':
            try:
                tree.ifit(copy.deepcopy(op['inst']))
            except core.SimStall as e:
                raise Violation('stall', str(e))
            except Exception:
                ctx.fault('rejected_instance')
                return 'refused'
            raise Violation('accepted', 'an invalid instance was accepted: %r' % (op['inst'],))
    finally:
        ctx.steps += s.draws
        if s.extreme:
            ctx.fault('extreme_draw', s.extreme)


def played_lines(fn):
    """Number of library lines of a call that is allowed to do anything (its effects are thrown away)."""
    from sim import monitor
    with monitor.Interrupter() as c:
        try:
            fn()
        except core.SimStall:
            raise
        except Exception:
            pass
    return c.n


def abort(tree, op, seed, i, kind, ctx):
    """Abort an operation at a fraction of its lines. The tree may be left in any state."""
    from sim import monitor
    trial = copy.deepcopy(tree)
    core.op_stream(seed, i, kind)
    n = played_lines(lambda: getattr(trial, op['what'])(copy.deepcopy(op['inst'])))
    core.op_stream(seed, i, kind)
    exc = core.SimMemoryError if op['mem'] else core.SimInterrupt
    try:
        with monitor.Interrupter(1 + int(op['at'] * n), exc):
            getattr(tree, op['what'])(copy.deepcopy(op['inst']))
    except (exc, Exception):
        pass
    ctx.fault('aborted_' + op['what'])
    ctx.steps += n
