"""C06: a rejected instance leaves no trace."""
import copy

from sim import core, queries, rel, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import fingerprint, nodes, scales, shape, snapshot

RUNS = {'quick': 3000, 'thorough': 80000}
SHRINK = ('ops',)
RULE = ('one run = one tree and a history of fits and queries into which a faulty producer injects invalid instances '
        '(unhashable or missing values, unusable attributes, at any position, nested for Trestle) through fit, '
        'categorize and infer; the tree is compared exactly before and after each refusal, and the whole run with a '
        'twin that never saw the invalid instances; non-trivial = at least one refusal on a trained tree, distinct = '
        'different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper']
STUB = ['generator behind the random module (seeded per-operation streams)']
ASSUMPTIONS = ['None is invalid for the attribute-value trees only']
KINDS = ['categorize', 'infer', 'score', 'predict', 'probability', 'weighted', 'ecg']


def nest_invalid(rng, inst):
    """Put an unusable part inside a component of a structured instance."""
    inst = copy.deepcopy(inst)
    comps = [v for v in inst.values() if isinstance(v, dict)]
    bad = rng.choice([('k9', {'s'}), ('k9', bytearray(b'x')), (7, 'x'), (None, 'x')])
    tgt = rng.choice(comps) if comps else inst
    items = list(tgt.items())
    items.insert(rng.randint(0, len(items)), bad)
    tgt.clear()
    tgt.update(items)
    return inst


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'trestle', 'dummy'])
    cfg = work.tree_cfg(rng, (t,))
    relational = t in ('trestle', 'dummy') and rng.random() < .6
    if relational:
        s = work.rel_schema(rng, t == 'dummy')
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
        mk = lambda prev: work.instance(rng, s, prev)
    n = rng.choice([2, 4, 6]) if relational else rng.choice([3, 8, 20, 40])
    pr, pq = rng.choice([.1, .3, .5]), rng.choice([0, .2])
    ops, prev = [], []
    for _ in range(n):
        r = rng.random()
        if r < pr:
            base = mk(prev)
            inst = nest_invalid(rng, base) if relational and rng.random() < .5 else work.invalid(rng, t, base)
            via = 'ifit' if t == 'dummy' else rng.choice(['ifit', 'ifit', 'ifit', 'categorize', 'infer'])
            ops.append({'op': 'reject', 'inst': inst, 'via': via, 'n': rng.choice([1, 1, 3])})
            if rng.random() < .6:
                prev.append(base)
                ops.append({'op': 'fit', 'inst': base})
        elif r < pr + pq and prev:
            ops.append(queries.gen(rng, mk, prev, KINDS, relational))
        else:
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
    return {'cfg': cfg, 'relational': relational, 'stream': work.stream_kind(rng), 'ops': ops}


def nontrivial(scn):
    seen = 0
    for o in scn['ops']:
        if o['op'] == 'fit':
            seen += 1
        elif o['op'] == 'reject' and seen:
            return repr(scn['ops'])
    return None


def offer(S, op, ctx):
    tree = S.tree
    before = snapshot(tree)
    ident = [id(n) for n in nodes(tree)]
    for _ in range(op['n']):
        S_i = S.i
        S.stream()
        S.i = S_i
        arg = copy.deepcopy(op['inst'])
        try:
            if op['via'] == 'ifit':
                tree.ifit(arg)
            elif op['via'] == 'categorize':
                tree.categorize(arg)
            else:
                tree.infer_missing(arg)
        except core.SimStall as e:
            raise Violation('stall', str(e))
        except Exception:
            ctx.fault('rejected_instance')
        else:
            raise Violation('accepted', 'the invalid instance %r was accepted by %s' % (op['inst'], op['via']))
        if snapshot(tree) != before or [id(n) for n in nodes(tree)] != ident:
            raise Violation('trace', 'refusing %r changed the tree' % (op['inst'],))
        if repr(arg) != repr(op['inst']):
            raise Violation('argument', 'refusing %r changed it to %r' % (op['inst'], arg))


def play(L, scn, ctx, offers):
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    answers = []
    for op in scn['ops']:
        if op['op'] == 'reject':
            if offers:
                offer(S, op, ctx)
        elif op['op'] == 'fit':
            n = S.fit(op['inst'])
            answers.append(queries.pos(S.tree, n))
        else:
            S.stream()
            answers.append(queries.answer(L, S.tree, op)[0])
    S.shadow.check()
    return S, answers


def run(scn, ctx):
    A, aa = play(core.lib(), scn, ctx, True)
    ctx.state(shape(A.tree))
    if scn['relational'] or rel.uses_vars(scn['cfg'], *[o['inst'] for o in scn['ops'] if o['op'] == 'fit']):
        return          # names given to objects depend on what was offered; the exact comparison above decides
    B, bb = play(core.new_process(), scn, core.Ctx(), False)
    if aa != bb:
        raise Violation('twin', 'answers differ from those of a tree that was never offered the invalid instances')
    if fingerprint(A.tree) != fingerprint(B.tree) or scales(A.tree) != scales(B.tree):
        raise Violation('twin', 'the tree differs from one that was never offered the invalid instances')
