"""C03: queries never change the tree or the caller's data, even when interrupted."""
import copy

from sim import core, monitor, queries, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import links_ok, nodes, shape, snapshot

RUNS = {'quick': 2500, 'thorough': 60000}
SHRINK = ('ops',)
RULE = ('one run = one tree grown by 1-30 fits with 4-25 queries of all kinds in between; each query is run once to '
        'completion and, if its plan says so, again with the same draws and an interrupt or memory error at a seeded '
        'instant (any line of library code), a failing heuristic callback, or an abandoned iterator; non-trivial = at '
        'least one query on a tree with two or more instances, distinct = different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper, clustering, evaluation scores, export', 'deepcopy']
STUB = ['generator behind the random module (seeded streams)', 'delivery of asynchronous exceptions']
ASSUMPTIONS = ['asynchronous exceptions strike between lines of library code']
STATE_MEASURE = 'distinct (query kind, interrupted line) pairs and tree shapes'


def maker(rng, t, relational):
    if relational:
        s = work.rel_schema(rng, t == 'dummy')
        return lambda prev: work.rel_instance(rng, s)
    s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
    return lambda prev: work.instance(rng, s, prev)


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'trestle', 'dummy'])
    cfg = work.tree_cfg(rng, (t,))
    relational = t in ('trestle', 'dummy') and rng.random() < .7
    mk = maker(rng, t, relational)
    n = rng.choice([3, 5]) if relational else rng.choice([3, 8, 15, 30])
    nq = rng.choice([4, 8]) if relational else rng.choice([4, 10, 25])
    kinds = queries.TREE_Q + queries.NODE_Q
    if rng.random() < .5:
        kinds = rng.sample(kinds, rng.randint(2, 8))
    if t == 'dummy':
        kinds = [k for k in kinds if k not in ('cluster', 'kcluster', 'search', 'depth')] or ['categorize']
    if relational:
        kinds = [k for k in kinds if k not in ('exact', 'opcu')] or ['categorize']
    ops, prev = [], []
    pi = rng.choice([0, .3, .8])
    todo = ['fit'] * n + ['q'] * nq
    first, rest = todo[:1], todo[1:]
    rng.shuffle(rest)
    for k in first + rest:
        if k == 'fit':
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        else:
            q = queries.gen(rng, mk, prev, kinds, relational)
            if rng.random() < pi:
                q['intr'] = rng.random()
                q['mem'] = rng.random() < .3
            ops.append(q)
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': ops}


def nontrivial(scn):
    seen = 0
    for o in scn['ops']:
        if o['op'] == 'fit':
            seen += 1
        elif seen >= 2:
            return repr(scn['ops'])
    return None


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    for op in scn['ops']:
        if op['op'] == 'fit':
            S.fit(op['inst'])
            ctx.state(shape(S.tree))
            continue
        tree = S.tree
        before = snapshot(tree)
        ident = [id(n) for n in nodes(tree)]

        def same(what):
            if [id(n) for n in nodes(tree)] != ident or snapshot(tree) != before:
                raise Violation('changed', 'query %s%s changed the tree' % (op['q'], what))
            links_ok(tree)
        S.stream()
        if 'intr' in op:
            with monitor.Interrupter() as c:
                r, raw = queries.answer(L, tree, op)
        else:
            r, raw = queries.answer(L, tree, op)
        same('')
        S.note_stream()
        if r == 'heuristic failed':
            ctx.fault('failing_callback')
        if raw is not None:
            queries.spoil(raw)
            same(', by changing what it returned,')
        if 'intr' in op:
            a = queries.args(op)
            keep = copy.deepcopy(a)
            core.op_stream(S.seed, S.i, S.kind)
            exc = core.SimMemoryError if op['mem'] else core.SimInterrupt
            with monitor.Interrupter(1 + int(op['intr'] * c.n), exc) as c2:
                try:
                    queries.run(L, tree, op, a)
                except core.SimStall as e:
                    raise Violation('stall', str(e))
                except (Exception, core.SimInterrupt):
                    pass
            if c2.fired:
                ctx.fault('memory_error' if op['mem'] else 'interrupt')
                ctx.state((op['q'], c2.fired))
            same(' interrupted at %s' % c2.fired)
            if a != keep or repr(a) != repr(keep):
                raise Violation('argument', 'query %s interrupted at %s changed its arguments' % (op['q'], c2.fired))
            # and the next answer is what it was
            core.op_stream(S.seed, S.i, S.kind)
            if not S.structured and op['q'] not in ('cluster', 'search', 'kcluster'):
                r2, _ = queries.answer(L, tree, op)
                if r2 != r:
                    raise Violation('answer', 'query %s answers %r after an interruption and %r before'
                                    % (op['q'], r2, r))
