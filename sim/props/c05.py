"""C05: concurrent readers of one tree get the answers they would get alone."""
import copy

from sim import core, monitor, queries, rel, work
from sim.core import Stream, Violation, stream_seed
from sim.ops import Session
from sim.oracle import links_ok, nodes, shape, snapshot

RUNS = {'quick': 3000, 'thorough': 40000}
SHRINK = ('clients', 'plan', 'ops')
RULE = ('one run = one trained tree and 2-4 reader threads with 1-6 queries each (own random streams), each reader run '
        'alone and then all together under a seeded schedule of thread switches inside library code; non-trivial = at '
        'least one planned switch, distinct = different scenario text')
REAL = ['trees, concepts, preprocessing, structure mapper, clustering, evaluation scores, export', 'threads']
STUB = ['thread scheduling (one thread at a time, switches chosen by the seed)',
        'generator behind the random module (one stream per reader)']
ASSUMPTIONS = ['thread switches happen where CPython 3.12 allows them: function entries, backward jumps, returns '
               'from C functions',
               'for relational queries of Trestle, whose generated names depend on the order of the queries, only '
               'success, the given parts of the answer and the unchanged tree are compared']
INTERLEAVING_MEASURE = 'distinct sequences of (from thread, to thread) switches with their scheduling-point numbers'


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'trestle'])
    cfg = work.tree_cfg(rng, (t,))
    relational = t == 'trestle' and rng.random() < .6
    if relational:
        s = work.rel_schema(rng)
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3', comp=.5)
        mk = lambda prev: work.instance(rng, s, prev)
    prev, ops = [], []
    for _ in range(rng.choice([2, 4]) if relational else rng.choice([2, 5, 12, 25])):
        i = mk(prev)
        prev.append(i)
        ops.append({'op': 'fit', 'inst': i})
    kinds = queries.TREE_Q + queries.NODE_Q
    if rng.random() < .6:
        kinds = rng.sample(kinds, rng.randint(1, 6))
    if relational:
        kinds = [k for k in kinds if k not in ('exact', 'opcu', 'cluster', 'kcluster', 'search')] or ['categorize', 'infer']
    k = rng.choice([2, 2, 3, 4])
    cl = []
    for _ in range(k):
        qs = []
        for _ in range(rng.randint(1, 4)):
            q = queries.gen(rng, mk, prev, kinds, relational)
            if q['q'] in ('cluster', 'search', 'kcluster'):
                q['mod'] = False       # the ids of concepts fit into the private copy decide ties
            qs.append(q)
        cl.append({'ops': qs, 's': rng.getrandbits(40)})
    if rng.random() < .3:
        cl[1] = copy.deepcopy(cl[0])
    plan = monitor.gen_plan(rng, k, rng.choice([1, 2, 3, 5, 10, 40]), [2, 20, 300], .2, .6)
    return {'cfg': cfg, 'ops': ops, 'relational': relational, 'clients': cl, 'plan': plan,
            'lines': rng.random() < .5, 'deps': t == 'trestle' and rng.random() < .25}


def nontrivial(scn):
    return repr(scn) if len(scn['clients']) > 1 and scn['plan'] else None


def reader(L, tree, c, out, sch):
    def body():
        for i, q in enumerate(c['ops']):
            sch.use(Stream(stream_seed(c['s'], i)))
            a = queries.args(q)
            keep = copy.deepcopy(a)
            r, raw = queries.run(L, tree, q, a)
            if a != keep:
                raise Violation('argument', 'query %s changed its arguments' % q['q'])
            out.append((r, copy.deepcopy(raw) if isinstance(raw, dict) else None))
    return body


def failure(t):
    e = t.exc
    if e is None:
        return None
    if isinstance(e, Violation):
        raise e
    if isinstance(e, core.SimStall):
        raise Violation('stall', str(e))
    if not isinstance(e, Exception):
        raise e
    return '%s @ %s' % (core.exc_text(e), core.where(e))


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], 'prng', ctx)
    for op in scn['ops']:
        S.fit(op['inst'])
    tree = S.tree
    before = snapshot(tree)
    ident = [id(n) for n in nodes(tree)]
    alone, total, traces = [], 0, []
    for i, c in enumerate(scn['clients']):
        sch = monitor.Scheduler((), record=True, deps=scn.get('deps'), lines=scn['lines'])
        out = []
        t = sch.add(reader(L, tree, c, out, sch), Stream(stream_seed(c['s'])))
        sch.run()
        f = failure(t)
        if f:
            raise Violation('exception', 'query %s alone failed: %s' % (c['ops'][len(out)]['q'], f))
        alone.append(out)
        total += t.steps
        traces.append(t.trace)
    sch = monitor.Scheduler(monitor.resolve_plan(scn['plan'], total, traces), deps=scn.get('deps'), lines=scn['lines'])
    recs = []
    for c in scn['clients']:
        out = []
        recs.append((sch.add(reader(L, tree, c, out, sch), Stream(stream_seed(c['s']))), out))
    sch.run()
    ctx.steps += sch.step
    ctx.fault('thread_switch', len(sch.log))
    if sch.log:
        ctx.interleaving(sch.log)
    ctx.state(shape(tree))
    names = scn['relational'] or rel.uses_vars(scn['cfg'], *S.shadow.hist)
    for i, (t, out) in enumerate(recs):
        f = failure(t)
        qs = scn['clients'][i]['ops']
        if f:
            raise Violation('exception', 'query %s failed only together with others: %s' % (qs[len(out)]['q'], f))
        for q, (r, raw), (ra, _) in zip(qs, out, alone[i]):
            loose = names and q['q'] in ('categorize', 'infer', 'score', 'depth', 'cluster', 'kcluster', 'search')
            if not loose and r != ra:
                raise Violation('answer', 'query %s of reader %d answered %r together and %r alone'
                                % (q['q'], i, r, ra))
            if loose and q['q'] == 'infer':
                rf, qf = rel.flat(raw), rel.flat(q['inst'])
                for a in qf:
                    if a not in rf or rf[a] != qf[a]:
                        raise Violation('answer', 'infer lost or changed %r of the given instance' % (a,))
    if [id(n) for n in nodes(tree)] != ident or snapshot(tree) != before:
        raise Violation('changed', 'concurrent queries changed the tree')
    links_ok(tree)


def simplify(scn):
    for i, c in enumerate(scn['clients']):
        for j in range(len(c['ops'])):
            c2 = dict(c, ops=c['ops'][:j] + c['ops'][j + 1:])
            yield dict(scn, clients=scn['clients'][:i] + [c2] + scn['clients'][i + 1:])
