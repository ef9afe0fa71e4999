"""C18: concept probabilities are the frequencies of the stored instances."""
import math

from sim import core, hist, rel, work
from sim.core import Violation, brief, guarded
from sim.ops import Session
from sim.oracle import CV, Ref, Tally, hidden, is_num, mean, nodes, shape, ustd
from sim.props.c08 import below

RUNS = {'quick': 2200, 'thorough': 40000}
SHRINK = ('ops',)
RULE = ('one run = one tree and a seeded history (fits, batch fits, refused instances, aborted queries, checkpoints, '
        'clears); after every operation sampled concepts, and at the end all concepts, are asked for the probability '
        'of every known, unknown and missing value, the weighted values and the expected correct guesses, compared '
        'with the raw instances stored below the concept; non-trivial = at least 2 fits, distinct = different '
        'operation text')
REAL = ['trees, concepts, preprocessing, structure mapper', 'pickle/deepcopy']
STUB = ['generator behind the random module (seeded streams, extreme draws)',
        'asynchronous interrupts and memory errors (raised at a seeded line of library code)']
ASSUMPTIONS = ['an attribute is either always nominal or always numeric', 'finite numbers of moderate magnitude']


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t)
    prev, ops = [], []
    n = hist.length(rng, relational) + 2
    on = {k: rng.random() < .4 for k in ('reject', 'intr', 'ckpt', 'batch', 'clear')}
    for _ in range(n):
        r = rng.random()
        k = 'fit' if r < .75 else rng.choice(['reject', 'intr', 'ckpt', 'batch', 'clear'])
        if k != 'fit' and not on[k]:
            k = 'fit'
        if k == 'fit':
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        elif k == 'reject':
            ops.append({'op': k, 'inst': work.invalid(rng, t, mk(prev))})
        elif k == 'intr':
            ops.append({'op': k, 'inst': mk(prev), 'at': rng.random(), 'mem': rng.random() < .3})
        elif k == 'ckpt':
            ops.append({'op': k, 'how': rng.choice(['pickle', 'deepcopy'])})
        elif k == 'batch':
            b = [mk(prev) for _ in range(rng.randint(1, 4))]
            prev += b
            ops.append({'op': k, 'insts': b, 'iters': rng.choice([1, 1, 2]), 'rand': rng.random() < .5})
        elif rng.random() < .3:
            ops.append({'op': 'clear'})
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': ops, 'pick': rng.getrandbits(32)}


def nontrivial(scn):
    return repr(scn['ops']) if sum(1 for o in scn['ops'] if o['op'] in ('fit', 'batch')) >= 2 else None


def expected(tally, ref, attr, val, numeric):
    """The probability of attr=val in a concept with this tally."""
    n = float(tally.n)
    if val is None:
        if not n:
            return 1.0
        return (n - sum(tally.nom.get(attr, {}).values()) - len(tally.num.get(attr, []))) / n
    if numeric and is_num(val):
        vs = tally.num.get(attr)
        if not vs:
            return 0.0
        s = ref.scale(attr)
        var = (ustd(vs) / s) ** 2 + 1 / (2 * math.pi)
        d = (val - mean(vs)) / s
        return len(vs) / n / math.sqrt(2 * math.pi * var) * math.exp(-d * d / (2 * var))
    if not n:
        return 0.0
    return tally.nom.get(attr, {}).get(val, 0) / n


def check_node(S, node, ref, everything, ctx):
    numeric = S.shadow.numeric
    insts = below(S, node)
    t = Tally(insts, numeric)
    name = 'Concept%s (%d instances)' % (node.concept_id, t.n)
    own = set(a for i in insts for a in i)
    odd = lambda a: len(str(a)) % 2 == 1
    for how, got, want in ((None, guarded(node.attrs), [a for a in own if a[0] != '_']),
                           ('all', guarded(node.attrs, 'all'), list(own)),
                           ('a function', guarded(node.attrs, odd), [a for a in own if odd(a)])):
        got = list(got)
        if len(got) != len(want) or set(got) != set(want):
            raise Violation('attributes', '%s: the attributes (filter: %s) are %r instead of %r'
                            % (name, how, sorted(got, key=repr), sorted(want, key=repr)))
    for attr, (noms, nums) in everything.items():
        asks = [None, 'never seen'] + list(noms)
        if numeric:
            asks += [v for v in nums[:3]] + ([mean(nums), nums[0] + 1.75] if nums else [3.5])
        total = 0.0
        for v in asks:
            p = guarded(node.probability, attr, v)
            w = expected(t, ref, attr, v, numeric)
            if not abs(p - w) <= 1e-6:
                raise Violation('probability', '%s: probability of %r=%r is %r instead of %r' % (name, attr, v, p, w))
            if not -1e-12 <= p <= 1 + 1e-9:
                raise Violation('probability', '%s: probability of %r=%r is %r' % (name, attr, v, p))
            if not (numeric and is_num(v)):
                total += p
        if attr not in t.num and abs(total - 1) > 1e-6:
            raise Violation('sum', '%s: the probabilities of %r sum to %r' % (name, attr, total))
        if node.count:
            weighted(node, attr, t, name)
    ctx.steps += 1
    if node.count:
        e = guarded(node.expected_correct_guesses)
        w = ref.ecg(insts)
        if not abs(e - w) <= 1e-6:
            raise Violation('ecg', '%s: expected correct guesses are %r instead of %r' % (name, e, w))
        if not -1e-12 <= e <= 1 + 1e-9:
            raise Violation('ecg', '%s: expected correct guesses are %r' % (name, e))


def weighted(node, attr, t, name):
    n = float(t.n)
    for none in (True, False):
        got = {}
        for v, w in guarded(node.get_weighted_values, *brief([attr, none], (True,))):
            if v in got and v is not None:
                raise Violation('weighted', '%s: weighted values of %r list %r twice' % (name, attr, v))
            if w:
                got[v] = w
        want = {v: c / n for v, c in t.nom.get(attr, {}).items()}
        if attr in t.num:
            want[CV] = len(t.num[attr]) / n
        if not want:
            want = {None: 1.0}
        elif none:
            miss = 1 - sum(want.values())
            if miss > 1e-12:
                want[None] = miss
        got = {v: w for v, w in got.items() if abs(w) > 1e-12}
        if set(got) != set(want) or any(abs(got[v] - want[v]) > 1e-9 for v in want):
            raise Violation('weighted', '%s: weighted values of %r (missing %s) are %r instead of %r'
                            % (name, attr, 'allowed' if none else 'disallowed', got, want))


def everything(S):
    t = Tally(S.shadow.hist, S.shadow.numeric)
    out = {a: (list(t.nom.get(a, {})), t.num.get(a, [])) for a in t.attrs()}
    out['zz_unknown'] = ([], [])
    return out


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    rng = core.Rng(scn['pick'])
    for op in scn['ops']:
        k = op['op']
        if k == 'fit':
            S.fit(op['inst'])
        elif k == 'batch':
            S.batch(op['insts'], op['iters'], op['rand'])
            if S.lost:
                return
        elif k == 'reject':
            S.reject(op['inst'])
        elif k == 'intr':
            S.interrupted(lambda: S.tree.categorize(dict(op['inst'])), op['at'], op['mem'])
        elif k == 'ckpt':
            S.checkpoint(op['how'])
        else:
            S.clear()
        ns = nodes(S.tree)
        ref = rel.make_ref(S.tree, S.shadow) if S.shadow.numeric else Ref(False)
        ev = everything(S)
        for n in [S.tree.root] + [rng.choice(ns) for _ in range(2)]:
            check_node(S, n, ref, ev, ctx)
        ctx.state(shape(S.tree))
    ref = rel.make_ref(S.tree, S.shadow) if S.shadow.numeric else Ref(False)
    ev = everything(S)
    for n in nodes(S.tree):
        check_node(S, n, ref, ev, ctx)
