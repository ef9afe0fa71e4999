"""C04: separate trees never influence each other, under any thread schedule."""
import copy
import pickle

from sim import core, monitor, queries, work
from sim.core import Stream, Violation, stream_seed
from sim.oracle import fingerprint, links_ok, nodes, scales, shape

RUNS = {'quick': 2500, 'thorough': 25000}
SHRINK = ('clients', 'plan')
RULE = ('one run = 2-4 clients, each a thread with a tree and random stream of its own and 3-20 operations (fit, '
        'batch fit, query, checkpoint, clear), each run alone in a fresh simulated process and then together in one under a seeded schedule of thread switches '
        'inside library code; non-trivial = at least one switch inside an operation, distinct = different switch log')
REAL = ['trees, concepts, preprocessing, structure mapper, clustering', 'pickle/deepcopy', 'threads']
STUB = ['thread scheduling (one thread at a time, switches chosen by the seed)',
        'generator behind the random module (one stream per client)']
ASSUMPTIONS = ['thread switches happen where CPython 3.12 allows them: function entries, backward jumps, returns '
               'from C functions']
INTERLEAVING_MEASURE = 'distinct sequences of (from thread, to thread) switches with their scheduling-point numbers'
KINDS = ['categorize', 'infer', 'score', 'predict', 'probability', 'weighted', 'ecg', 'cu']


def gen_client(rng, t, rel=None):
    cfg = work.tree_cfg(rng, (t,))
    relational = rel or t in ('trestle', 'dummy') and rng.random() < .7
    if relational:
        s = work.rel_schema(rng, t == 'dummy')
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
        mk = lambda prev: work.instance(rng, s, prev)
    n = rng.choice([2, 4]) if relational else rng.choice([3, 8, 15])
    ops, prev = [], []
    ck = rng.random() < .2          # a client that checkpoints a lot
    for _ in range(n):
        r = rng.random()
        if ck and prev and r < .3:
            ops.append({'op': rng.choice(['pickle', 'deepcopy'])})
            continue
        if r < .6 or not prev:
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        elif r < .85:
            ops.append(queries.gen(rng, mk, prev, KINDS, relational))
        elif r < .9:
            b = [mk(prev) for _ in range(rng.randint(1, 3))]
            prev += b
            ops.append({'op': 'batch', 'insts': b, 'rand': rng.random() < .5})
        elif r < .94:
            ops.append({'op': rng.choice(['pickle', 'deepcopy'])})
        elif r < .98 and t != 'dummy':
            ops.append({'op': 'cluster', 'insts': [copy.deepcopy(rng.choice(prev)) for _ in range(2)],
                        'mod': rng.random() < .6})
        else:
            ops.append({'op': 'clear'})
    return {'cfg': cfg, 'ops': ops, 's': rng.getrandbits(40)}


def gen(rng, tier):
    k = rng.choice([2, 2, 3, 4])
    pool = ['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'dummy']
    same = rng.random() < .3
    t = rng.choice(pool)
    cl = [gen_client(rng, t if same else rng.choice(pool)) for _ in range(k)]
    deps = any(c['cfg']['type'] == 'trestle' for c in cl) and rng.random() < .5
    if rng.random() < .1:           # matching and search code at the same time
        cl = [gen_client(rng, 'trestle', True) for _ in range(k)]
        deps = True
    if rng.random() < .25:          # twins: same data, interleaved
        cl[1] = copy.deepcopy(cl[0])
        cl[1]['s'] = rng.getrandbits(40)
    np_ = rng.choice([1, 2, 3, 5, 10, 40])
    plan = monitor.gen_plan(rng, k, np_, [2, 20, 300], .15)
    return {'clients': cl, 'plan': plan,
            'deps': deps}


def client(L, c, answers, trees):
    def body():
        tree = L.make(c['cfg'])
        for op in c['ops']:
            k = op['op']
            r = None
            if k == 'fit':
                n = tree.ifit(copy.deepcopy(op['inst']))
                r = queries.pos(tree, n)
            elif k == 'batch':
                tree.fit(copy.deepcopy(op['insts']), 1, op['rand'])
            elif k == 'q':
                r = queries.run(L, tree, op, queries.args(op))[0]
            elif k == 'pickle':
                tree = pickle.loads(pickle.dumps(tree))
            elif k == 'deepcopy':
                tree = copy.deepcopy(tree)
            elif k == 'cluster' and (op['mod'] or tree.root.count):
                r = sum(1 for _ in L.cluster.cluster(tree, copy.deepcopy(op['insts']), 1, 2, op['mod'])) > 0
            elif k == 'clear':
                tree.clear()
            answers.append(r)
        trees.append(tree)
        return True
    return body


def result(t, answers, trees):
    if t.exc is not None:
        e = t.exc
        if isinstance(e, core.SimStall):
            raise Violation('stall', str(e))
        if not isinstance(e, Exception):
            raise e
        return ('exc', core.exc_text(e), core.where(e), len(answers))
    tree = trees[0]
    return ('ok', list(answers), fingerprint(tree), scales(tree))


def run(scn, ctx):
    alone, total, traces = [], 0, []
    for c in scn['clients']:
        L = core.boot()           # each client alone in a process of its own
        sch = monitor.Scheduler((), record=True, deps=scn.get('deps'))
        a, ts = [], []
        t = sch.add(client(L, c, a, ts), Stream(stream_seed(c['s'])))
        sch.run()
        r = result(t, a, ts)
        if r[0] == 'exc':
            raise Violation('exception', 'a client working alone failed: %s @ %s' % (r[1], r[2]))
        alone.append(r)
        total += t.steps
        traces.append(t.trace)
    L = core.boot()
    sch = monitor.Scheduler(monitor.resolve_plan(scn['plan'], total, traces), deps=scn.get('deps'))
    recs = []
    for c in scn['clients']:
        a, ts = [], []
        recs.append((sch.add(client(L, c, a, ts), Stream(stream_seed(c['s']))), a, ts))
    sch.run()
    ctx.steps += sch.step
    ctx.fault('thread_switch', len(sch.log))
    if sch.log:
        ctx.interleaving(sch.log)
    ids = []
    for i, (t, a, ts) in enumerate(recs):
        r = result(t, a, ts)
        if r[0] == 'exc':
            raise Violation('exception', 'client %d failed only together with others: %s @ %s' % (i, r[1], r[2]))
        links_ok(ts[0])
        mine = [n.concept_id for n in nodes(ts[0])]
        if len(set(mine)) != len(mine):
            raise Violation('ids', 'concept ids of the tree of client %d are not unique' % i)
        ctx.state(shape(ts[0]))
        for j, what in ((1, 'answers'), (2, 'tree'), (3, 'scaling knowledge')):
            if r[j] != alone[i][j]:
                raise Violation('influence', 'client %d (%s): %s differ from what it gets alone: %s'
                                % (i, scn['clients'][i]['cfg']['type'], what, first_diff(r[j], alone[i][j])))


def first_diff(x, y):
    if isinstance(x, list):
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                return 'operation %d: %r instead of %r' % (i, a, b)
    return '%r instead of %r' % (x, y)


def simplify(scn):
    for i, c in enumerate(scn['clients']):
        for j in range(len(c['ops'])):
            c2 = dict(c, ops=c['ops'][:j] + c['ops'][j + 1:])
            yield dict(scn, clients=scn['clients'][:i] + [c2] + scn['clients'][i + 1:])


def nontrivial(scn):
    return repr(scn) if len(scn['clients']) > 1 and scn['plan'] else None
