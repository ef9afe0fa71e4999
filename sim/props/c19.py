"""C19: batch fit incorporates each instance exactly once per iteration."""
import copy

from sim import core, hist, rel, work
from sim.core import Stream, Violation, stream_seed
from sim.oracle import check_table, fingerprint, nodes, scales, shape, snapshot

RUNS = {'quick': 2000, 'thorough': 40000}
SHRINK = ('past', 'ops')
RULE = ('one run = one tree with a past and a batch fit of a seeded collection (list, tuple, iterator, generator, view) '
        'over 0-8 iterations, with faults in the producer of the collection (it fails or is interrupted at a seeded '
        'element, or changes its list while the fit runs) and invalid instances at seeded positions; the order of the '
        'fits, the tree and the collection are compared with the specification and with one-by-one fits on the same '
        'draws; non-trivial = at least 2 instances in the collection, distinct = different scenario text')
REAL = ['trees, concepts, preprocessing, structure mapper, random.shuffle']
STUB = ['generator behind the random module (seeded streams)', 'the producer of the collection']
ASSUMPTIONS = ['the order inside a shuffled pass is observed by wrapping the public ifit of the tree object']


class ProducerFailure(Exception):
    pass


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t, .5)
    past = [mk([]) for _ in range(rng.choice([0, 0, 2, 5]))]
    prev, ops = list(past), []
    big = not relational and rng.random() < .03
    for _ in range(rng.choice([0, 1, 2, 3, 5]) if relational else 60 if big else rng.choice([0, 1, 2, 4, 8, 15])):
        i = mk(prev) if not ops or rng.random() < .85 else rng.choice(ops)
        prev.append(i)
        ops.append(i)
    scn = {'cfg': cfg, 'past': past, 'ops': ops, 'form': rng.choice(['list', 'list', 'tuple', 'iter', 'gen', 'view', 'own']),
           'iters': rng.choice([1, 2]) if big else rng.choice([0, 1, 1, 1, 2, 2, 3, 4]) if rng.random() < .97 else 8, 'rand': rng.random() < .5, 'style': rng.choice(['pos', 'kw', 'default']),
           'fault': rng.choice([None, None, None, 'fail', 'interrupt', 'invalid', 'invalid', 'mutate', 'mutate']),
           'at': rng.random(), 'same': rng.random() < .4, 'stats': rng.random() < .1}
    if scn['fault'] == 'invalid':
        scn['bad'] = work.invalid(rng, t, mk(prev))
    return scn


def nontrivial(scn):
    return repr({k: v for k, v in scn.items() if k != 'seed'}) if len(scn['ops']) > 1 else None


class Own(object):
    """A collection that is only iterable."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


def collection(scn, xs, at, exc):
    def produce():
        for i, x in enumerate(xs):
            if i == at:
                raise exc('injected at element %d' % i)
            yield x
        if at is not None and at >= len(xs):
            raise exc('injected at the end')
    if exc is not None:
        return Own(produce()) if scn['form'] == 'own' else produce()
    f = scn['form']
    if f == 'list':
        return xs
    if f == 'tuple':
        return tuple(xs)
    if f == 'iter':
        return iter(xs)
    if f == 'gen':
        return (x for x in xs)
    if f == 'view':
        return dict(enumerate(xs)).values()
    return Own(xs)


def call(tree, scn, coll):
    if scn['style'] == 'kw':
        return tree.fit(coll, iterations=scn['iters'], randomize_first=scn['rand'])
    if scn['style'] == 'default' and scn['iters'] == 1:
        return tree.fit(coll) if scn['rand'] else tree.fit(coll, randomize_first=False)
    return tree.fit(coll, scn['iters'], scn['rand'])


def fresh(L, scn):
    tree = L.make(scn['cfg'])
    core.SIM.use(Stream(stream_seed(scn['seed'], 'past')))
    for i in scn['past']:
        core.guarded(tree.ifit, copy.deepcopy(i))
    return tree


def watch(tree, log, hook=None):
    orig = tree.ifit

    def ifit(inst, *a, **kw):
        if hook:
            hook(len(log))
        log.append(inst)
        r = orig(inst, *a, **kw)
        return r
    tree.ifit = ifit


def unwatch(tree):
    try:
        del tree.ifit
    except AttributeError:
        pass


def key(i):
    return repr(i)


def run(scn, ctx):
    L = core.lib()
    xs = [copy.deepcopy(i) for i in scn['ops']]
    if scn['same']:              # equal instances are one and the same object
        first = {}
        xs = [first.setdefault(key(i), i) for i in xs]
        if len(first) < len(xs):
            ctx.probe('repeated_object')
    bad_at = None
    if scn['fault'] == 'invalid' and xs:
        bad_at = int(scn['at'] * (len(xs) + 1))
        xs.insert(bad_at, copy.deepcopy(scn['bad']))
    exc = {'fail': ProducerFailure, 'interrupt': core.SimInterrupt}.get(scn['fault'])
    at = int(scn['at'] * (len(xs) + 1)) if exc else None
    given = list(xs)
    texts = [key(i) for i in xs]
    tree = fresh(L, scn)
    before = snapshot(tree)
    ident = [id(n) for n in nodes(tree)]
    log = []
    hook = None
    if scn['fault'] == 'mutate' and scn['form'] == 'list':
        def hook(k):
            if k == int(scn['at'] * 3) and xs:
                xs.append({'a': 'intruder'}) if scn['at'] < .5 else xs.pop()
                ctx.fault('collection_changed')
    watch(tree, log, hook)
    coll = collection(scn, xs, at, exc)
    core.SIM.use(Stream(stream_seed(scn['seed'], 'fit')))
    raised = None
    try:
        call(tree, scn, coll)
    except core.SimStall as e:
        raise Violation('stall', str(e))
    except (Exception, core.SimInterrupt) as e:
        raised = e
    ctx.steps += core.SIM.stream.draws + len(log) + 1
    unwatch(tree)
    seen = len(log) > 0
    # ---- the producer failed
    if exc is not None:
        ctx.fault('producer_' + scn['fault'])
        if not isinstance(raised, exc):
            raise Violation('swallowed', 'the collection failed with %s but fit %s' % (
                exc.__name__, 'returned' if raised is None else 'raised ' + core.exc_text(raised)))
        if snapshot(tree) != before or [id(n) for n in nodes(tree)] != ident:
            raise Violation('partial', 'reading the collection failed but something was learned')
        return
    # ---- the collection is the caller's
    if hook is None and scn['form'] == 'list':
        if len(xs) != len(given) or any(a is not b for a, b in zip(xs, given)):
            raise Violation('argument', 'fit changed the list passed in')
    if [key(i) for i in given] != texts:
        raise Violation('argument', 'fit changed the instances passed in')
    # ---- an instance was refused
    n = len(given)
    passes = scn['iters']
    if bad_at is not None and passes:
        ctx.fault('rejected_instance')
        if raised is None:
            raise Violation('accepted', 'an invalid instance in the collection was accepted')
        if seen:
            done = log[:-1]
            if key(log[-1]) != key(scn['bad']):
                raise Violation('order', 'fit stopped at %r instead of the invalid instance' % (log[-1],))
            if not scn['rand'] and [key(i) for i in done] != texts[:bad_at]:
                raise Violation('order', 'before the invalid instance fit incorporated %r instead of the first %d'
                                % (done, bad_at))
        else:
            if scn['rand']:
                return
            done = given[:bad_at]
        twin(L, scn, tree, done, exact=not scn['rand'])
        return
    if raised is not None:
        raise Violation('exception', core.exc_text(raised) + ' @ ' + core.where(raised))
    # ---- every pass is a permutation
    if seen:
        if len(log) != n * passes:
            raise Violation('count', '%d fits for %d instances and %d iterations' % (len(log), n, passes))
        for p in range(passes):
            part = [key(i) for i in log[p * n:(p + 1) * n]]
            if sorted(part) != sorted(texts):
                raise Violation('permutation', 'iteration %d is not a permutation of the collection' % p)
            if p == 0 and not scn['rand'] and part != texts:
                raise Violation('order', 'the first iteration is not in the given order')
    total = len(scn['past']) + n * passes
    if tree.root.count != total:
        raise Violation('count', 'root size %r after %d instances' % (tree.root.count, total))
    if not rel.uses_vars(scn['cfg'], *(scn['past'] + scn['ops'])):
        check_table(tree.root, [rel.flat(i) if scn['cfg']['type'] in ('trestle', 'dummy') else i
                                for i in scn['past'] + given * passes], scn['cfg']['type'] != 'cobweb', 'root')
    if passes == 1 and not scn['rand']:
        twin(L, scn, tree, given, exact=True)
    elif seen and n:
        twin(L, scn, tree, list(log), exact=False)
    ctx.state(shape(tree))
    if seen and scn['stats'] and len(set(texts)) >= 4 and passes:
        shuffles(L, scn, given, texts, ctx)


def twin(L, scn, tree, done, exact):
    """The tree against one that was fit one by one."""
    other = fresh(L, scn)
    core.SIM.use(Stream(stream_seed(scn['seed'], 'fit')))
    for i in done:
        core.guarded(other.ifit, copy.deepcopy(i))
    if exact:
        if fingerprint(tree) != fingerprint(other) or scales(tree) != scales(other):
            raise Violation('twin', 'the tree differs from one fit with the same instances one by one')
    else:
        if tree.root.count != other.root.count:
            raise Violation('twin', 'root size %r instead of %r' % (tree.root.count, other.root.count))


def shuffles(L, scn, given, texts, ctx):
    """Shuffled passes are produced by the generator: reproducible from its state, and not always the same."""
    firsts, seconds, rows = set(), set(), []
    n = len(given)
    for j in range(14):
        log = []
        for again in range(2):
            t = L.make({'type': 'dummy'})
            one = []
            watch(t, one)
            core.SIM.use(Stream(stream_seed(scn['seed'], 'shuffle', j)))
            core.guarded(t.fit, [dict(i) for i in given], 3, scn['rand'])
            log.append([key(i) for i in one])
        if log[0] != log[1]:
            raise Violation('seed', 'the same random stream gave two different orders')
        firsts.add(tuple(log[0][:n]))
        seconds.add(tuple(log[0][n:2 * n]))
        rows.append((log[0][:n], log[0][n:2 * n], log[0][2 * n:]))
    ctx.probe('shuffle_statistics')
    if scn['rand'] and len(firsts) < 2:
        raise Violation('shuffle', 'the first iteration is never randomized')
    if not scn['rand'] and firsts != {tuple(texts)}:
        raise Violation('order', 'the first iteration is not in the given order')
    if len(seconds) < 2:
        raise Violation('shuffle', 'the second iteration is never randomized')
    for k in (1, 2):
        if all(r[k] == r[k - 1] for r in rows):
            raise Violation('shuffle', 'iteration %d always has the order of the one before' % (k + 1))
