"""C08: predictions and inferred values are legal for every random stream."""
import copy
import math

from sim import core, rel, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import Ref, Tally, close, is_num, mean, nodes, ref_tree, shape, ustd

RUNS = {'quick': 2500, 'thorough': 60000}
SHRINK = ('ops',)
RULE = ('one run = one tree grown by a seeded history with 5-30 inferences and predictions under ordinary, extreme or '
        'mixed random streams; each result is judged against the raw instances stored below the concept, and sampled '
        'predictions against their frequencies over 500 seeded draws; non-trivial = at least one prediction on a '
        'trained tree, distinct = different operation text')
REAL = ['trees, concepts, weighted and most-likely choice']
STUB = ['generator behind the random module (seeded streams, smallest and largest possible draws)']
ASSUMPTIONS = ['an attribute is either always nominal or always numeric',
               'frequencies are judged at a significance of 1e-10 over 500 draws']
N = 500


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle', 'dummy'])
    cfg = work.tree_cfg(rng, (t,))
    s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
    s['attrs'] = [a for a in s['attrs'] if not isinstance(a[0], tuple)]
    mk = lambda prev: work.instance(rng, s, prev)
    ops, prev = [], []
    nf, nq = rng.choice([2, 6, 15, 40]) if rng.random() < .97 else 160, rng.choice([5, 15, 30])
    todo = ['fit'] * nf + ['q'] * nq
    rng.shuffle(todo)
    for k in todo:
        if k == 'fit':
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        elif rng.random() < .5:
            i = mk(prev)
            if rng.random() < .75:
                i = work.partial(rng, i)
            if rng.random() < .1:
                i['unseen'] = 'never'
            ops.append({'op': 'infer', 'inst': i, 'fn': rng.choice(['most likely', 'sampled', 'm', 's']),
                        'none': rng.random() < .5})
        else:
            a = rng.choice(s['attrs'])[0] if rng.random() < .95 else 'unseen'
            ops.append({'op': 'predict', 'at': rng.choice([0.0, rng.random()]), 'attr': a,
                        'fn': rng.choice(['most likely', 'sampled', 'm', 's']), 'none': rng.random() < .5})
            if rng.random() < .06:
                ops[-1]['op'] = 'freq'
                ops[-1]['fn'] = 'sampled'
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': ops}


def nontrivial(scn):
    ks = [o['op'] for o in scn['ops']]
    return repr(scn['ops']) if 'fit' in ks and ks[-1] != 'fit' or len(set(ks)) > 1 else None


class Legal(object):
    """What a prediction of `attr` at a concept holding `insts` may be."""

    def __init__(self, insts, attr, fn, none, numeric):
        t = Tally(insts, numeric)
        self.known = attr in t.attrs()
        self.w = dict(t.nom.get(attr, {}))
        self.num = t.num.get(attr)
        self.n = t.n
        self.miss = t.n - sum(self.w.values()) - len(self.num or [])
        self.best = fn in ('m', 'most likely')
        self.none = none

    def ok(self, v):
        if not self.known:
            return v is None
        ws = list(self.w.values()) + ([len(self.num)] if self.num else []) + ([self.miss] if self.none else [])
        top = max(ws)

        def fine(w):
            return w == top if self.best else w > 0
        if v is None:
            return self.none and fine(self.miss)
        for x, w in self.w.items():
            if x == v and type(x) is type(v):
                return fine(w)
        if self.num and is_num(v) and fine(len(self.num)):
            m = mean(self.num)
            sd = ustd(self.num)
            mag = max(abs(x) for x in self.num)
            if self.best or sd == 0:
                return abs(v - m) <= 1e-10 * mag + 1e-7
            return abs(v - m) <= 40 * sd + 1e-10 * mag + 1e-7
        return False

    def text(self):
        return 'nominal %r, numbers %r, missing %d of %d' % (self.w, self.num, self.miss, self.n)


def below(S, node):
    if S.cfg['type'] == 'dummy':
        return S.shadow.hist
    per = S.shadow.per_leaf()
    out, st = [], [node]
    while st:
        x = st.pop()
        st.extend(x.children)
        if not x.children and id(x) in per:
            out += per[id(x)][1]
    return out


def candidates(S, inst):
    """Concepts the instance may be categorized to."""
    if S.cfg['type'] == 'dummy' or not S.shadow.hist:
        return [S.tree.root]
    per = S.shadow.per_leaf()
    img = ref_tree(S.tree.root, lambda n: per[id(n)][1] if id(n) in per else [])
    ref = rel.make_ref(S.tree, S.shadow) if S.shadow.numeric else Ref(False)
    lv = ref.leaves(img, inst)
    leaves = [n for n in nodes(S.tree) if not n.children]
    if lv is None:
        return leaves
    keys = set().union(*[x.key for x in lv])
    return [n for n in leaves if id(n) in keys]


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    numeric = S.shadow.numeric
    for op in scn['ops']:
        k = op['op']
        tree = S.tree
        if k == 'fit':
            S.fit(op['inst'])
            ctx.state(shape(tree))
        elif k == 'infer':
            arg = copy.deepcopy(op['inst'])
            r = S.query(tree.infer_missing, *core.brief([arg, op['fn'], op['none']], ('most likely', True)))
            if r is arg:
                raise Violation('infer', 'infer_missing returned the instance it was given')
            for a, v in op['inst'].items():
                if a not in r or r[a] != v or type(r[a]) is not type(v):
                    raise Violation('infer', 'infer_missing changed the given %r=%r to %r' % (a, v, r.get(a, 'nothing')))
            why = None
            for c in candidates(S, op['inst']):
                insts = below(S, c)
                why = judge(insts, op, r, numeric)
                if why is None:
                    break
            if why:
                raise Violation('infer', why)
        else:
            ns = nodes(tree)
            n = ns[int(op['at'] * len(ns)) % len(ns)]
            lg = Legal(below(S, n), op['attr'], op['fn'], op['none'], numeric)
            if k == 'predict':
                v = S.query(n.predict, *core.brief([op['attr'], op['fn'], op['none']], ('most likely', True)))
                if not lg.ok(v):
                    raise Violation('predict', 'predict(%r, %r, %r) gave %r where the concept has %s'
                                    % (op['attr'], op['fn'], op['none'], v, lg.text()))
            else:
                frequencies(S, n, op, lg, ctx)


def judge(insts, op, r, numeric):
    known = set(a for i in insts for a in i)
    for a in r:
        if a in op['inst']:
            continue
        if a not in known:
            return 'infer_missing added %r which the concept does not know' % (a,)
        lg = Legal(insts, a, op['fn'], op['none'], numeric)
        if r[a] is None or not lg.ok(r[a]):
            return 'infer_missing(%r, %r) gave %r=%r where the concept has %s' % (op['fn'], op['none'], a, r[a],
                                                                               lg.text())
    for a in known:
        if a in r:
            continue
        if not op['none']:
            return 'infer_missing without missing values left out %r' % (a,)
        lg = Legal(insts, a, op['fn'], op['none'], numeric)
        if not lg.ok(None):
            return 'infer_missing(%r) left out %r where the concept has %s' % (op['fn'], a, lg.text())
    return None


def kl(k, n, p):
    x = k / float(n)
    if p <= 0:
        return float('inf') if k else 0.0
    if p >= 1:
        return float('inf') if k < n else 0.0
    t = 0.0
    if x > 0:
        t += x * math.log(x / p)
    if x < 1:
        t += (1 - x) * math.log((1 - x) / (1 - p))
    return n * t


def frequencies(S, n, op, lg, ctx):
    if not lg.known:
        return
    S.i += 1
    core.op_stream(S.seed, S.i, 'prng')
    got = [core.guarded(n.predict, op['attr'], op['fn'], op['none']) for _ in range(N)]
    ctx.steps += N
    ctx.probe('frequency_test')
    tot = float(sum(lg.w.values()) + len(lg.num or []) + (lg.miss if op['none'] else 0))
    want = {x: w / tot for x, w in lg.w.items()}
    if lg.num:
        want['#num'] = len(lg.num) / tot
    if op['none']:
        want['#none'] = lg.miss / tot
    cnt = dict.fromkeys(want, 0)
    nums = []
    for v in got:
        if not lg.ok(v):
            raise Violation('predict', 'a sampled prediction of %r gave %r where the concept has %s'
                            % (op['attr'], v, lg.text()))
        key = '#none' if v is None else v if v in lg.w else '#num'
        if key == '#num':
            nums.append(v)
        cnt[key] += 1
    for x, p in want.items():
        if kl(cnt[x], N, p) > 24:
            raise Violation('frequency', 'sampled predictions of %r gave %r %d times in %d where its probability is %.3f'
                            % (op['attr'], x, cnt[x], N, p))
    if lg.num and len(nums) >= 200:
        m, sd = mean(lg.num), ustd(lg.num)
        if sd > 0:
            ctx.probe('normal_test')
            if abs(mean(nums) - m) > 7 * sd / math.sqrt(len(nums)):
                raise Violation('frequency', 'sampled numbers of %r have mean %r instead of %r' % (op['attr'], mean(nums), m))
            r = ustd(nums) / sd
            if abs(r - 1) > 7 / math.sqrt(2 * len(nums)):
                raise Violation('frequency', 'sampled numbers of %r have std %r instead of %r'
                                % (op['attr'], ustd(nums), sd))
