"""C15: a cleared tree is indistinguishable from a new one."""
import copy

from sim import core, hist, monitor, work
from sim.core import Violation
from sim.oracle import fingerprint, nodes, scales, shape, table

RUNS = {'quick': 2000, 'thorough': 50000}
SHRINK = ('before', 'after')
RULE = ('one run = a tree with a past (fits, queries, refused instances, operations aborted in the middle) that is '
        'cleared (the clear itself possibly aborted and repeated) and then goes through the same operations with the '
        'same draws as a newly constructed tree, compared after every operation; non-trivial = something was learned '
        'before and after the clear, distinct = different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper, evaluation scores']
STUB = ['generator behind the random module (seeded per-operation streams)',
        'asynchronous interrupts and memory errors (raised at a seeded line of library code)']
ASSUMPTIONS = ['parameters are those given at construction']


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t)
    n = hist.length(rng, relational)
    before, prev = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        before += hist.ops(rng, t, mk, relational, hist.length(rng, relational), prev,
                           extra=('reject', 'batch', 'abort', 'abort'))
        before.append({'op': 'clear', 'abort': rng.random() if rng.random() < .25 else None})
    if rng.random() < .5:          # the second life sees other data
        mk2, rel2 = hist.maker(rng, t, 1 if relational else 0)
        mk, relational = (mk2, rel2)
        prev = []
    after = hist.ops(rng, t, mk, relational, n, prev if rng.random() < .5 else [], extra=('reject', 'batch'))
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'before': before, 'after': after}


def nontrivial(scn):
    b = any(o['op'] == 'fit' for o in scn['before'])
    a = any(o['op'] == 'fit' for o in scn['after'])
    return repr((scn['before'], scn['after'])) if a and b else None


def frozen(n):
    return (n.concept_id, n.count, repr(table(n)), [id(c) for c in n.children])


def run(scn, ctx):
    L = core.lib()
    seed, kind = scn['seed'], scn['stream']
    tree = L.make(scn['cfg'])
    old = []
    for i, op in enumerate(scn['before']):
        k = op['op']
        if k == 'abort':
            hist.abort(tree, op, seed, -i, kind, ctx)
            old = []           # what an aborted fit leaves behind is not specified
        elif k == 'clear':
            try:
                old += [(n, frozen(n)) for n in nodes(tree)]
            except Violation:
                old = []
            if op['abort'] is not None:
                abort_clear(tree, op['abort'], ctx)
            core.guarded(tree.clear)
            ctx.probe('clear')
        else:
            try:
                hist.play(L, tree, op, seed, -i, kind, ctx)
            except Violation:
                if any(o['op'] == 'abort' for o in scn['before'][:i]):
                    continue   # after an aborted fit anything may fail until the clear
                raise
    if not scn['before'] or scn['before'][-1]['op'] != 'clear':
        core.guarded(tree.clear)
    new = L.make(scn['cfg'])
    same(tree, new, 'right after the clear')
    for i, op in enumerate(scn['after']):
        a = attempt(L, tree, op, seed, i, kind, ctx)
        b = attempt(L, new, op, seed, i, kind, core.Ctx())
        if a[0] != b[0] or (a[0] == 'ok' and a[1] != b[1]):
            raise Violation('answer', 'operation %d (%s): the cleared tree answered %r, a new one %r'
                            % (i, op.get('q', op['op']), a[1], b[1]))
        if a[0] == 'exc':
            raise Violation('exception', a[1])
        same(tree, new, 'after operation %d (%s)' % (i, op.get('q', op['op'])))
    ctx.state(shape(tree))
    for n, f in old:
        if frozen(n) != f:
            raise Violation('old concept', 'Concept%s, obtained before the clear, was changed by later operations'
                            % n.concept_id)


def attempt(L, tree, op, seed, i, kind, ctx):
    try:
        return ('ok', hist.play(L, tree, op, seed, i, kind, ctx))
    except Violation as v:
        return ('exc', v.msg)


def abort_clear(tree, frac, ctx):
    trial = copy.deepcopy(tree)
    n = hist.played_lines(trial.clear)
    try:
        with monitor.Interrupter(1 + int(frac * n)):
            tree.clear()
    except core.SimInterrupt:
        ctx.fault('aborted_clear')


def same(a, b, when):
    if fingerprint(a) != fingerprint(b):
        raise Violation('tree', 'the cleared tree differs from a new one ' + when)
    if scales(a) != scales(b):
        raise Violation('scale', 'scaling knowledge of the cleared tree differs from that of a new one ' + when)
    for p in ('scaling', 'inner_attr_scaling'):
        if getattr(a, p, None) != getattr(b, p, None):
            raise Violation('parameter', '%s is %r instead of %r %s' % (p, getattr(a, p, None), getattr(b, p, None), when))
    for n in nodes(a):
        if n.tree is not a:
            raise Violation('malformed', 'Concept%s does not point to its tree' % n.concept_id)
