"""C16: a restored or copied tree continues exactly like the original."""
import copy
import pickle

from sim import core, hist, monitor, work
from sim.core import Violation
from sim.oracle import fingerprint, links_ok, nodes, scales, shape, snapshot

RUNS = {'quick': 1600, 'thorough': 40000}
SHRINK = ('before', 'after', 'order')
RULE = ('one run = a tree that is saved (pickle protocols 0-5, deepcopy) somewhere in its history and restored in the '
        'same simulated process or, after a crash in the middle of an operation, in a fresh one with other trees in '
        'it; original and copy then go through the same operations with the same draws in a seeded interleaving, '
        'compared after every operation; non-trivial = something was learned before and after the save, distinct = '
        'different operation text')
REAL = ['trees, concepts, preprocessing, structure mapper, clustering', 'pickle/deepcopy']
STUB = ['process lifetime (a fresh process is a fresh import of the library; only the saved image survives a crash)',
        'generator behind the random module (seeded per-operation streams)']
ASSUMPTIONS = ['the image itself survives intact: storing it is the caller\'s job']
INTERLEAVING_MEASURE = 'distinct orders of the operations of original and copy'


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t)
    prev = []
    before = hist.ops(rng, t, mk, relational, hist.length(rng, relational), prev, extra=('reject', 'batch'))
    after = hist.ops(rng, t, mk, relational, hist.length(rng, relational), prev, extra=('reject', 'batch'))
    how = rng.choice(['deepcopy'] + ['pickle'] * 3)
    where = 'same' if how == 'deepcopy' else rng.choice(['same', 'crash', 'crash'])
    order = [rng.randrange(2) for _ in range(2 * len(after))]
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'before': before, 'after': after, 'how': how, 'where': where,
            'proto': rng.choice([0, 1, 2, 3, 4, 5]), 'order': order, 'crash': rng.random(), 'gens': rng.choice([1, 1, 2, 3]),
            'other_before': rng.choice([0, 0, 1, 3]), 'other_after': rng.choice([0, 0, 2]),
            'other': [mk(prev) for _ in range(4)]}


def nontrivial(scn):
    b = any(o['op'] in ('fit', 'batch') for o in scn['before'])
    a = any(o['op'] in ('fit', 'batch') for o in scn['after'])
    return repr((scn['before'], scn['after'], scn['how'], scn['where'])) if a and b else None


class Side(object):
    def __init__(self, L, tree, what):
        self.L, self.tree, self.what = L, tree, what
        self.answers = []
        self.prints = []
        self.i = 0

    def step(self, scn, ctx):
        core.use_lib(self.L)
        op = scn['after'][self.i]
        try:
            r = hist.play(self.L, self.tree, op, scn['seed'], 1000 + self.i, scn['stream'], ctx)
        except Violation as v:
            if v.kind in ('exception', 'stall'):
                raise Violation(v.kind, '%s tree, operation %d: %s' % (self.what, self.i, v.msg))
            raise
        self.i += 1
        self.answers.append(r)
        self.prints.append((fingerprint(self.tree), scales(self.tree)))
        links_ok(self.tree)
        ids = [n.concept_id for n in nodes(self.tree)]
        if len(set(ids)) != len(ids):
            raise Violation('ids', 'concept ids of the %s tree are not unique after operation %d' % (self.what, self.i - 1))


def bystanders(L, scn, n, seed):
    for j in range(n):
        t = L.make(scn['cfg'])
        core.op_stream(seed, 5000 + j)
        for inst in scn['other']:
            core.guarded(t.ifit, copy.deepcopy(inst))


def save(tree, scn):
    leafs = [n for n in nodes(tree) if not n.children][:2]
    if scn['how'] == 'deepcopy':
        return core.guarded(copy.deepcopy, (tree, leafs)), None
    img = core.guarded(pickle.dumps, (tree, leafs), scn['proto'])
    return None, img


def run(scn, ctx):
    L = core.lib()
    seed = scn['seed']
    tree = past(L, scn, ctx)
    want = snapshot(tree)
    obj, img = save(tree, scn)
    if snapshot(tree) != want:
        raise Violation('save', 'saving changed the tree')
    A = Side(L, tree, 'original')
    if scn['where'] == 'crash' and scn['after']:
        # the process dies; what the original would have done is seen in a process with the same past
        crash(scn, tree, ctx)
        L1 = core.boot()
        A = Side(L1, past(L1, scn, core.Ctx()), 'original')
        if fingerprint(A.tree) != fingerprint(load(img)):
            raise Violation('restore', 'the restored tree differs from the saved one')
        L2 = core.boot()
        ctx.fault('crash_restart')
    else:
        L2 = L
    bystanders(L2, scn, scn['other_before'], seed)
    if img is not None:
        for g in range(scn['gens']):      # restored, saved and restored again
            obj = core.guarded(pickle.loads, img)
            if g + 1 < scn['gens']:
                img2 = core.guarded(pickle.dumps, obj, scn['proto'])
                if snapshot(core.guarded(pickle.loads, img2)[0]) != want:
                    raise Violation('restore', 'the image of a restored tree differs from the tree that was saved')
                obj = core.guarded(pickle.loads, img2)
        ctx.fault('restore')
    else:
        ctx.fault('copy')
    copy_, leafs = obj
    if snapshot(copy_) != want:
        raise Violation('restore', 'the restored tree differs from the saved one')
    if type(copy_).__name__ != type(tree).__name__:
        raise Violation('restore', 'the restored tree is a %s' % type(copy_).__name__)
    mine = set(id(n) for n in nodes(copy_))
    if any(id(n) not in mine for n in leafs):
        raise Violation('restore', 'a concept saved together with its tree is not in the restored tree')
    if mine & set(id(n) for n in nodes(A.tree)):
        raise Violation('shared', 'original and restored tree share concepts')
    bystanders(L2, scn, scn['other_after'], seed)
    B = Side(L2, copy_, 'restored')
    n = len(scn['after'])
    log = []
    for who in list(scn['order']) + [0] * n + [1] * n:
        S = (A, B)[who]
        O = (B, A)[who]
        if S.i >= n:
            continue
        other = snapshot(O.tree)
        S.step(scn, ctx)
        log.append(who)
        if snapshot(O.tree) != other:
            raise Violation('shared', 'operation %d on the %s tree changed the other one' % (S.i - 1, S.what))
    ctx.interleaving(log)
    for i in range(n):
        op = scn['after'][i]
        if A.answers[i] != B.answers[i]:
            raise Violation('answer', 'operation %d (%s): original %r, restored %r'
                            % (i, op.get('q', op['op']), A.answers[i], B.answers[i]))
        if A.prints[i] != B.prints[i]:
            raise Violation('tree', 'after operation %d (%s) the restored tree differs from the original'
                            % (i, op.get('q', op['op'])))
    ctx.state(shape(A.tree))
    if img is not None:
        core.use_lib(L2)
        if snapshot(core.guarded(pickle.loads, img)[0]) != want:
            raise Violation('image', 'the saved image no longer gives the tree that was saved')


def past(L, scn, ctx):
    tree = L.make(scn['cfg'])
    for i, op in enumerate(scn['before']):
        hist.play(L, tree, op, scn['seed'], i, scn['stream'], ctx)
    return tree


def load(img):
    return core.guarded(pickle.loads, img)[0]


def crash(scn, tree, ctx):
    """The process dies in the middle of the operation that follows the save."""
    op = scn['after'][0]
    trial = copy.deepcopy(tree)
    fn = lambda t: hist.play(core.lib(), t, op, scn['seed'], 1000, scn['stream'], core.Ctx())
    with monitor.Interrupter() as c:
        try:
            fn(trial)
        except Violation:
            pass
    try:
        with monitor.Interrupter(1 + int(scn['crash'] * c.n), core.SimCrash):
            fn(tree)
    except core.SimCrash:
        ctx.fault('crash_in_' + op.get('q', op['op']))
    except Violation:
        pass
