"""C17: hidden attributes never influence concept formation."""
import copy
import pickle

from sim import core, hist, queries, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import hidden, nodes, scales, shape

RUNS = {'quick': 2200, 'thorough': 50000}
SHRINK = ('ops',)
RULE = ('one run = a history of fits, refused instances, checkpoints and queries played twice on the same draws, '
        'where the second play sees other hidden attributes (added, changed, removed, moved) in every instance; '
        'structure, non-hidden tables, scaling and answers about non-hidden attributes are compared after every '
        'operation, and the hidden tables with the raw history; non-trivial = the plays differ in at least one '
        'instance and at least 2 instances are fit, distinct = different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper, evaluation scores', 'pickle']
STUB = ['generator behind the random module (seeded per-operation streams, extreme draws)']
ASSUMPTIONS = ['every object of a structured instance also has non-hidden parts, and hidden parts come after them '
               '(the order in which objects are first mentioned decides their names and ties between roles); for '
               'the same reason hidden relations keep their arguments and only change their values',
               'an attribute is either always nominal or always numeric']
KINDS = ['categorize', 'score', 'predict', 'probability', 'weighted', 'ecg', 'cu', 'opcu']


def hide_flat(rng, inst, pool, p):
    """inst without its hidden attributes plus a random choice from the pool, at random places."""
    items = [(a, v) for a, v in inst.items() if not hidden(a)]
    for a, vs in pool:
        if rng.random() < p:
            items.insert(rng.randint(0, len(items)), (a, rng.choice(vs)))
    return dict(items)


def hide_rel(rng, inst, p):
    """The same for structured instances; hidden parts come last in their component."""
    def rec(d, depth):
        out = {}
        for a, v in d.items():
            if hidden(a):
                continue
            out[a] = rec(v, depth + 1) if isinstance(v, dict) else v
        if rng.random() < p:
            out['_hid'] = rng.choice(['u', 'v', 'w'])
        if rng.random() < p / 2:
            out['_num'] = rng.choice([1.0, 2.5, -40.0])
        if rng.random() < p / 2:
            c = {'src': rng.choice(['s1', 's2']), 'q': {'z': rng.choice([3.0, 8.5])}}
            out['_meta'] = c
        for a, v in d.items():       # hidden relations keep their arguments
            if depth == 0 and isinstance(a, tuple) and hidden(a):
                out[a] = rng.choice([True, 'maybe', 'no'])
        return out
    return rec(inst, 0)


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t, hidden=False)
    prev = []
    ops = hist.ops(rng, t, mk, relational, hist.length(rng, relational), prev, kinds=KINDS, extra=('reject',))
    numeric = t != 'cobweb'
    pool = []
    for a in work.HNAMES:
        kind = 'num' if numeric and rng.random() < .4 else 'nom'
        pool.append((a, work.value_pool(rng, kind, 'cobweb' if t == 'cobweb' else 'cobweb3')))
    pool.append((('_', 'rel', 'o1'), ['t', 'f']))
    pa, pb = rng.choice([0, .3, .6, 1]), rng.choice([0, .3, .6, 1])
    if pa == pb == 0:
        pb = .5

    def two(i):
        if relational:
            objs = [a for a in i if a[0] == '?']
            if objs and rng.random() < .2:
                i = dict(i)
                i[('_', 'near', rng.choice(objs))] = True
            return hide_rel(rng, i, pa), hide_rel(rng, i, pb)
        return hide_flat(rng, i, pool, pa), hide_flat(rng, i, pool, pb)
    out = []
    for op in ops:
        if op['op'] == 'fit' or (op['op'] == 'q' and 'inst' in op):
            a, b = two(op['inst'])
            op = dict(op, inst=a, twin=b)
        out.append(op)
        if rng.random() < .05:
            out.append({'op': 'ckpt'})
    return {'cfg': cfg, 'relational': relational, 'stream': work.stream_kind(rng), 'ops': out}


def nontrivial(scn):
    f = [o for o in scn['ops'] if o['op'] == 'fit']
    return repr(scn['ops']) if len(f) > 1 and any(o['inst'] != o['twin'] for o in f) else None


def visible(tree):
    def cv(c):
        return (c.num, c.mean, c.unbiased_std()) if hasattr(c, 'mean') else c

    def rec(n):
        return (n.count, sorted((repr(a), sorted((repr(v), cv(c)) for v, c in vs.items()))
                                for a, vs in n.av_counts.items() if not hidden(a)),
                [rec(c) for c in n.children])
    nodes(tree)
    return rec(tree.root), {a: s for a, s in scales(tree).items() if not hidden(a)}


def step(S, op, twin, L):
    k = op['op']
    if twin and 'twin' in op:
        op = dict(op, inst=op['twin'])
    if k == 'fit':
        return queries.pos(S.tree, S.fit(op['inst']))
    if k == 'ckpt':
        S.checkpoint('pickle')
        return None
    if k == 'reject':
        return S.reject(op['inst'])
    S.stream()
    if hidden(op.get('attr', 'a')):
        return None
    return queries.answer(L, S.tree, op)[0]


def run(scn, ctx):
    L = core.lib()
    A = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    B = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    for i, op in enumerate(scn['ops']):
        a = step(A, op, False, L)
        b = step(B, op, True, L)
        what = 'operation %d (%s)' % (i, op.get('q', op['op']))
        if a != b:
            raise Violation('answer', '%s: %r with one choice of hidden attributes, %r with another' % (what, a, b))
        if op['op'] == 'fit':
            if op['inst'] != op['twin']:
                ctx.fault('hidden_perturbed')
            if visible(A.tree) != visible(B.tree):
                raise Violation('influence', 'after %s the trees differ in more than hidden attributes' % what)
            A.shadow.check()
            B.shadow.check()
    ctx.state(shape(A.tree))


def simplify(scn):
    ops = scn['ops']
    for i, op in enumerate(ops):
        if 'twin' not in op:
            continue
        for a in list(dict.fromkeys(list(op['inst']) + list(op['twin']))):
            if a[0] == '?':
                continue
            yield dict(scn, ops=ops[:i] + [dict(op, inst=_drop(op['inst'], a), twin=_drop(op['twin'], a))] + ops[i + 1:])
        for a in op['inst']:
            if isinstance(op['inst'][a], dict) and isinstance(op['twin'].get(a), dict):
                for b in list(dict.fromkeys(list(op['inst'][a]) + list(op['twin'][a]))):
                    if b[0] == '?' or b == 'k0':
                        continue
                    yield dict(scn, ops=ops[:i] + [dict(op, inst={**op['inst'], a: _drop(op['inst'][a], b)},
                                                        twin={**op['twin'], a: _drop(op['twin'][a], b)})] + ops[i + 1:])


def _drop(d, a):
    return {k: v for k, v in d.items() if k != a}
