"""C02: every fit takes category-utility-maximal steps and terminates."""
from sim import core, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import NEW, Ref, family, family_of, hidden, nodes, params, ref_tree, shape

RUNS = {'quick': 3600, 'thorough': 40000}
SHRINK = ('ops',)
RULE = ('one run = one tree and a seeded history of 3-45 fits and categorizations (with checkpoints, clears and '
        'extreme tie-break draws), each fit compared with the set of results an independent model of the algorithm '
        'admits from the tree as it was, over all tie-breaks; non-trivial = at least 3 fits, distinct = different '
        'operation text')
REAL = ['trees, concepts, preprocessing, structure mapper', 'pickle/deepcopy']
STUB = ['generator behind the random module (seeded streams, extreme draws)']
ASSUMPTIONS = ['an attribute is either always nominal or always numeric', 'finite numbers of moderate magnitude',
               'values within 1e-8 of each other count as tied', 'a fit whose ties admit more than the search budget '
               'of results is not judged (counted as inconclusive)']
BUDGET = 4000


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3', 'trestle'])
    cfg = work.tree_cfg(rng, (t,))
    n = rng.choice([3, 5, 7]) if t == 'trestle' else rng.choice([6, 12, 20, 30, 45]) if rng.random() < .985 else 130
    relational = t == 'trestle' and rng.random() < .6
    if relational:
        s = work.rel_schema(rng)
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
        mk = lambda prev: work.instance(rng, s, prev)
    prev, ops = [], []
    pc = rng.choice([.1, .4])
    pk = rng.choice([0, 0, .08])
    for _ in range(n):
        r = rng.random()
        if r < pc:
            ops.append({'op': 'categorize', 'inst': mk(prev)})
        elif r < pc + pk:
            ops.append({'op': 'ckpt', 'how': rng.choice(['pickle', 'deepcopy', 'clear'])})
        else:
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i, 'pick': round(rng.random(), 4)})
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': ops}


def nontrivial(scn):
    return repr(scn['ops']) if sum(1 for o in scn['ops'] if o['op'] == 'fit') >= 3 else None


def model(S, extra=()):
    """Reference model with the scaling knowledge of everything fit so far plus `extra`."""
    sh = S.shadow
    if not sh.numeric:
        return Ref(False)
    scaling, inner = params(sh.cfg)
    return Ref(True, scaling, sh.scale_values(sh.hist + list(extra)), inner)


def image(S):
    per = S.shadow.per_leaf()

    def insts(leaf):
        if id(leaf) in per:
            return per[id(leaf)][1]
        if not S.shadow.hist and leaf is S.tree.root:
            return []
        raise Violation('partition', 'leaf Concept%s holds no fit instance' % leaf.concept_id)
    return ref_tree(S.tree.root, insts)


def on_fit(S, inst):
    before = image(S)
    had = len(S.shadow.hist)
    keys = set(k for key in [before.key] for k in key)

    def after(f, m, node):
        ref = model(S)            # the instance is already recorded: scales include it
        rename = {} if id(node) in keys and had else ({} if not had and id(node) in keys else {id(node): NEW})
        got = family_of(S.tree.root, rename)
        budget = [BUDGET]
        tried = 0
        for out in ref.outcomes(before, f, budget):
            tried += 1
            if family(out) == got:
                S.ctx.probe('fit_with_ties' if tried > 1 else 'fit_first_outcome')
                return
        if budget[0] <= 0:
            S.ctx.probe('fit_inconclusive')
            return
        raise Violation('suboptimal', 'fit number %d of %r gave a tree that no sequence of category-utility-maximal '
                        'steps gives (%d admissible results)' % (had + 1, f, tried))
    return after


def check_cu(S, inst, pick):
    """Category utility of one inner concept, as it is and for hypothetical operations, against the model."""
    inner = [n for n in nodes(S.tree) if n.children]
    if not inner:
        return
    n = inner[int(pick * len(inner)) % len(inner)]
    per = S.shadow.per_leaf()
    ref = model(S)

    def below(x):
        out, st = [], [x]
        while st:
            y = st.pop()
            st.extend(y.children)
            if not y.children:
                if id(y) not in per:
                    raise Violation('partition', 'leaf Concept%s holds no fit instance' % y.concept_id)
                out += per[id(y)][1]
        return out
    ks = n.children
    data = [below(c) for c in ks]
    base = [(len(d), ref.ecg(d)) for d in data]
    mine = [i for d in data for i in d]
    up = mine + [inst]
    i = int(pick * 997) % len(ks)
    j = (i + 1) % len(ks)
    want = [('category_utility()', n.category_utility, (), ref.cu(mine, base)),
            ('cu_for_new_child', n.cu_for_new_child, (inst,), ref.cu(up, base + [(1, ref.ecg([inst]))])),
            ('cu_for_insert', n.cu_for_insert, (ks[i], inst),
             ref.cu(up, base[:i] + [(len(data[i]) + 1, ref.ecg(data[i] + [inst]))] + base[i + 1:]))]
    if len(ks) > 2:
        mi = data[i] + data[j] + [inst]
        want.append(('cu_for_merge', n.cu_for_merge, (ks[i], ks[j], inst),
                     ref.cu(up, [b for k, b in enumerate(base) if k not in (i, j)] + [(len(mi), ref.ecg(mi))])))
    if ks[i].children:
        sub = [below(c) for c in ks[i].children]
        want.append(('cu_for_split', n.cu_for_split, (ks[i],),
                     ref.cu(mine, base[:i] + base[i + 1:] + [(len(d), ref.ecg(d)) for d in sub])))
    else:
        d = data[i]
        want.append(('category_utility() of a leaf', ks[i].category_utility, (), 0.0))
        want.append(('cu_for_fringe_split', ks[i].cu_for_fringe_split, (inst,),
                     ref.cu(d + [inst], [(len(d), ref.ecg(d)), (1, ref.ecg([inst]))])))
    # a concept whose instances differ matches nothing exactly
    some = mine[int(pick * 131) % len(mine)]
    vis = lambda x: {a: v for a, v in x.items() if not hidden(a)}
    a0 = vis(some)
    if any(set(vis(x)) != set(a0) or any(isinstance(v, str) != isinstance(a0[a], str) or isinstance(v, str) and v != a0[a]
                                         for a, v in vis(x).items()) for x in mine):
        if core.guarded(n.is_exact_match, some):
            raise Violation('match', 'a concept with sizes %r, whose instances differ, is an exact match of %r'
                            % ([b[0] for b in base], some))
    for name, fn, args, w in want:
        g = core.guarded(fn, *args)
        if abs(g - w) > 1e-7:
            raise Violation('cu', '%s of a concept with sizes %r is %r instead of %r'
                            % (name, [b[0] for b in base], g, w))
    S.ctx.probe('cu_compared', len(want))


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    S.on_fit = on_fit
    for op in scn['ops']:
        k = op['op']
        if k == 'fit':
            S.fit(op['inst'])
            check_cu(S, S.shadow.hist[-1 - len(S.shadow.hist) // 2], op.get('pick', 0.0))
        elif k == 'ckpt':
            S.clear() if op['how'] == 'clear' else S.checkpoint(op['how'])
        else:
            relational = S.structured and any(isinstance(v, dict) or a[0] == '?' or isinstance(a, tuple)
                                              for a, v in op['inst'].items())
            node = S.query(S.tree.categorize, dict(op['inst']))
            if node.children:
                raise Violation('categorize', 'categorizing ended at Concept%s which is not a leaf' % node.concept_id)
            x = node
            while x.parent is not None:
                x = x.parent
            if x is not S.tree.root:
                raise Violation('categorize', 'categorizing returned a concept outside the tree')
            if relational:
                continue
            before = image(S)
            leaves = model(S).leaves(before, op['inst'])
            if leaves is not None and id(node) not in set().union(*[n.key for n in leaves]):
                raise Violation('categorize', '%r was categorized to Concept%s, which no descent by maximal category '
                                'utility reaches' % (op['inst'], node.concept_id))
        ctx.state(shape(S.tree))
