"""C01: the tree is an exact record of everything that was fit."""
from sim import core, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import Tally, check_table, nodes, shape

RUNS = {'quick': 3000, 'thorough': 40000}
SHRINK = ('ops',)
RULE = ('one run = one tree and a seeded history of 4-60 operations (fit, batch fit, queries, clusterings, rejected '
        'instances, interrupted queries, checkpoints) with seeded tie-break draws, compared with the raw history '
        'after every operation; non-trivial = at least 3 fits, distinct = different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper, clustering', 'pickle/deepcopy']
STUB = ['generator behind the random module (seeded streams, extreme draws)']
ASSUMPTIONS = ['an attribute is either always nominal or always numeric', 'finite numbers of moderate magnitude',
               'object variables are nested only directly in variables']


def gen_ops(rng, cfg, n):
    t = cfg['type']
    relational = t in ('trestle', 'dummy') and rng.random() < .75
    if relational:
        s = work.rel_schema(rng, t == 'dummy')
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
        if rng.random() < .05:
            work.tighten(rng, s)
        mk = lambda prev: work.instance(rng, s, prev)
    on = {k: rng.random() < .5 for k in ('categorize', 'infer', 'cluster', 'reject', 'intr', 'ckpt', 'batch')}
    on['clear'] = rng.random() < .15
    weights = [('fit', 10), ('categorize', 2), ('infer', 2), ('cluster', .5), ('reject', 1), ('intr', 1),
               ('ckpt', .7), ('batch', 1), ('clear', .3)]
    weights = [(k, w) for k, w in weights if on.get(k, True)]
    prev, ops = [], []
    for _ in range(n):
        k = rng.choices([x[0] for x in weights], [x[1] for x in weights])[0]
        if k == 'cluster' and (not prev or t == 'dummy' or relational):
            k = 'fit'
        if k == 'fit':
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        elif k == 'categorize':
            ops.append({'op': k, 'inst': mk(prev)})
        elif k == 'infer':
            i = mk(prev)
            ops.append({'op': k, 'inst': i if relational else work.partial(rng, i),
                        'fn': rng.choice(['most likely', 'sampled']), 'none': rng.random() < .5})
        elif k == 'cluster':
            ops.append({'op': k, 'insts': [dict(rng.choice(prev)) for _ in range(rng.randint(1, 4))],
                        'mod': rng.random() < .5})
        elif k == 'reject':
            ops.append({'op': k, 'inst': work.invalid(rng, t, mk(prev))})
        elif k == 'intr':
            ops.append({'op': k, 'inst': mk(prev), 'at': rng.random(), 'mem': rng.random() < .3})
        elif k == 'ckpt':
            ops.append({'op': k, 'how': rng.choice(['pickle', 'deepcopy'])})
        elif k == 'batch':
            b = []
            for _ in range(rng.randint(1, 5)):
                b.append(mk(prev + b))
            ops.append({'op': k, 'insts': b, 'iters': rng.choice([1, 1, 2]), 'rand': rng.random() < .5})
            prev += b
        else:
            ops.append({'op': k})
            prev = []
    return ops


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'dummy'])
    cfg = work.tree_cfg(rng, (t,))
    n = rng.choice([4, 6, 10]) if t == 'trestle' else rng.choice([5, 10, 20, 30, 60])
    if rng.random() < .02:
        n *= 3
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': gen_ops(rng, cfg, n)}


def nontrivial(scn):
    return repr(scn['ops']) if sum(1 for o in scn['ops'] if o['op'] in ('fit', 'batch')) >= 3 else None


def apply(S, op, ctx):
    k = op['op']
    t = S.tree
    if k == 'fit':
        S.fit(op['inst'])
    elif k == 'batch':
        S.batch(op['insts'], op['iters'], op['rand'])
    elif k == 'categorize':
        S.query(t.categorize, dict(op['inst']))
    elif k == 'infer':
        S.query(t.infer_missing, dict(op['inst']), op['fn'], op['none'])
    elif k == 'cluster':
        S.query(lambda: list(S.L.cluster.cluster(t, [dict(i) for i in op['insts']], 1, 3, op['mod'])))
    elif k == 'reject':
        if not S.reject(op['inst']):
            raise Violation('accepted', 'an invalid instance was accepted: %r' % op['inst'])
    elif k == 'intr':
        S.interrupted(lambda: S.tree.categorize(dict(op['inst'])), op['at'], op['mem'])
    elif k == 'ckpt':
        S.checkpoint(op['how'])
    elif k == 'clear':
        S.clear()


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    expect = 0
    for op in scn['ops']:
        apply(S, op, ctx)
        if op['op'] == 'fit':
            expect += 1
        elif op['op'] == 'batch':
            expect += len(op['insts']) * op['iters']
        elif op['op'] == 'clear':
            expect = 0
        if S.lost:
            if S.tree.root.count != expect:
                raise Violation('count', 'root size %r after fitting %d instances' % (S.tree.root.count, expect))
            ctx.probe('batch_not_observable')
            return
        if len(S.shadow.hist) != expect:
            raise Violation('batch', '%d instances fit instead of %d' % (len(S.shadow.hist), expect))
        S.shadow.check()
        ctx.state(shape(S.tree))
    structure(S.tree)
    d = max_depth(S.tree.root)
    if d >= 4:
        ctx.probe('depth>=4')
    if any(n.count > 1 for n in nodes(S.tree) if not n.children):
        ctx.probe('leaf_with_several_instances')


def structure(tree):
    """The library's own structural queries against the links."""
    path, todo = [], [(tree.root, ())]
    while todo:
        n, anc = todo.pop()
        path.append((n, anc))
        todo.extend((c, anc + (n,)) for c in n.children)
    below = {}
    for n, anc in path:
        for a in anc + (n,):
            below[id(a)] = below.get(id(a), 0) + 1
    for k, (n, anc) in enumerate(path):
        name = 'Concept%s' % n.concept_id
        if n.num_concepts() != below[id(n)]:
            raise Violation('query', '%s has %d concepts but num_concepts() is %r' % (name, below[id(n)], n.num_concepts()))
        if n.depth() != len(anc):
            raise Violation('query', '%s is at depth %d but depth() is %r' % (name, len(anc), n.depth()))
        for m in [path[(k * 7 + 3) % len(path)][0]] + list(anc[-2:]) + n.children[:2]:
            if m is not n and bool(m.is_parent(n)) != any(m is a for a in anc):
                raise Violation('query', 'is_parent() of Concept%s and %s is %r' % (m.concept_id, name, m.is_parent(n)))


def max_depth(n):
    return 1 + max([max_depth(c) for c in n.children] or [0])
