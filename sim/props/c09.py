"""C09: clusterings are successive cuts of the tree, isolated from the source tree."""
import copy
import zlib
import math

from sim import core, hist, queries, rel, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import CV, Ref, close, hidden, is_cv, is_num, links_ok, mean, nodes, shape, snapshot, ustd
from sim.props.c08 import candidates

RUNS = {'quick': 2200, 'thorough': 40000}
SHRINK = ('ops', 'clus')
RULE = ('one run = one trained tree and 1-5 clustering requests (iterator, split search, k-clustering, depth labels; '
        'fitting or categorizing; all heuristics and split ranges), with iterators suspended at seeded points while '
        'the source tree is fit, abandoned, or failed by their heuristic; every clustering is checked as a cut of the '
        'private tree; non-trivial = a clustering of a tree with at least 3 instances, distinct = different text')
REAL = ['clustering, heuristics, trees, concepts, deepcopy']
STUB = ['generator behind the random module (seeded streams)', 'consumer of the iterator (suspends, abandons)']
ASSUMPTIONS = ['the likelihood criteria are judged where no probability underflows',
               'where two splits tie within 1e-9 either may be chosen']
EPS = 1e-9


class Undefined(Exception):
    pass


Bad = Violation


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'trestle'])
    cfg = work.tree_cfg(rng, (t,))
    relational = t == 'trestle' and rng.random() < .6
    if relational:
        s = work.rel_schema(rng)
        mk = lambda prev: work.rel_instance(rng, s)
    else:
        s = work.schema(rng, 'cobweb' if t == 'cobweb' else 'cobweb3')
        s['empty'] = 0
        mk = lambda prev: work.instance(rng, s, prev)
    prev, ops = [], []
    big = not relational and rng.random() < .02
    if big:                                               # a large tree: wide or deep
        mk = hist.large(rng, t)
    for _ in range(rng.choice([2, 4]) if relational else 45 if big else rng.choice([2, 6, 12, 25])):
        i = mk(prev)
        prev.append(i)
        ops.append({'op': 'fit', 'inst': i})
    clus = []
    for _ in range(rng.randint(1, 3) if relational else rng.randint(1, 5)):
        a = rng.choice([1, 1, 1, 2, 3])
        clus.append({'kind': rng.choice(['iter', 'iter', 'iter', 'labels', 'cluster', 'k', 'search', 'depth', 'refuse']),
                     'insts': [copy.deepcopy(rng.choice(prev)) if rng.random() < .6 else mk(prev)
                               for _ in range(rng.choice([1, 2, 4, 8, 16]))],
                     'mod': rng.random() < .5, 'a': a, 'b': a + rng.choice([0, 1, 3, 50]),
                     'h': rng.choice(queries.HEUR + ['OWN', 'OWN']) if rng.random() < .55 else 'CU', 'hs': rng.random() < .3,
                     'case': rng.choice(['lower', 'upper', None]),
                     'k': rng.choice([2, 3, 4, 6]), 'suspend': rng.choice([None, 1, 1, 2, 3]),
                     'more': [mk(prev) for _ in range(rng.randint(1, 3))], 'stop': rng.choice([None, None, None, 1, 2]),
                     'fail': rng.choice([None, None, None, 2, 3, 5])})
        if clus[-1]['kind'] in ('search', 'iter') and not relational and rng.random() < .3:    # a long search
            clus[-1].update(h=rng.choice(['OWN', 'OWN', 'AICc']), b=a + 60, insts=[copy.deepcopy(rng.choice(prev)) for _ in range(rng.choice([14, 14, 40]))])
    if big:
        a = rng.choice([1, 1, 1, 2, 20])
        clus = [dict(clus[0], kind=rng.choice(['iter', 'labels', 'search', 'depth', 'k']), h='OWN', hs=False, a=a, b=a + 60,
                     k=rng.choice([12, 30]), insts=copy.deepcopy(prev), mod=False, stop=None, fail=None)]
    return {'cfg': cfg, 'relational': relational, 'ops': ops, 'clus': clus}


def nontrivial(scn):
    return repr((scn['ops'], scn['clus'])) if len(scn['ops']) >= 3 and scn['clus'] else None


def own(clusters, leaves):
    """A heuristic of the caller's: an arbitrary number for each partition."""
    return zlib.crc32(repr((pattern(clusters), [c and c.count for c in clusters])).encode()) / 2.0 ** 32


class Watch(object):
    """Heuristic wrapper: records what the clustering evaluates and the private tree before its first split."""

    def __init__(self, L, name, numeric, fail=None):
        self.h = own if name == 'OWN' else getattr(L.cluster, name)
        self.name = name
        self.numeric = numeric
        self.insts = {}
        self.calls = []
        self.kids = None
        self.par = None
        self.leaves = None
        self.root = None
        self.left = fail

    def __call__(self, clusters, leaves):
        if self.kids is None:
            r = leaves[0]
            while r.parent is not None:
                r = r.parent
            self.root = r
            self.kids, self.par = {}, {id(r): None}
            st = [r]
            while st:
                n = st.pop()
                self.kids[id(n)] = list(n.children)
                for c in n.children:
                    self.par[id(c)] = n
                st.extend(n.children)
            self.leaves = list(leaves)
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                raise queries.HeuristicFailure()
        v = self.judged(list(clusters), leaves)
        self.calls.append((list(clusters), v))
        return v

    def value(self, clusters):
        return self.judged(list(clusters), self.leaves)

    def judged(self, clusters, leaves):
        """The library's heuristic; the likelihood criteria are compared with their documented formulas."""
        want = None
        if self.name not in ('CU', 'OWN') and not any(c is None for c in clusters):
            want = criterion(self, clusters, leaves)
        try:
            v = self.h(clusters, leaves)
        except Exception as e:
            if self.name in ('CU', 'OWN'):
                raise
            if want is not None:
                raise Bad('score', '%s of %d instances fails (%s @ %s) where it is %r'
                          % (self.name, len(leaves), core.exc_text(e), core.where(e), want))
            raise Undefined(core.exc_text(e))
        if want is not None and not (v == want or close(v, want, 1e-6, 1e-6)):
            raise Bad('score', '%s of %d instances is %r instead of %r' % (self.name, len(leaves), v, want))
        return v

    def below(self, c):
        if id(c) not in self.insts:
            out, st = [], [c]
            while st:
                n = st.pop()
                if self.kids[id(n)]:
                    st.extend(self.kids[id(n)])
                else:
                    out.extend(leaf_insts(n))
            self.insts[id(c)] = (out, {})
        return self.insts[id(c)]

    def up(self, n):
        out = []
        while n is not None:
            out.append(n)
            n = self.par[id(n)]
        return out          # from n to the root

    def splits(self, clusters):
        anc = set()
        for c in clusters:
            for x in self.up(c)[1:]:
                if x is not self.root:
                    anc.add(id(x))
        return 1 + len(anc)

    def child_towards(self, target, leaf):
        for x in self.up(leaf):
            if self.par[id(x)] is target:
                return x
        return None


def like(insts, leaf, numeric):
    """Log-likelihood of a leaf (instances that all agree) in a concept; None where it is not defined."""
    ll = 0.0
    one = leaf[0]
    for a in sorted(set(x for i in insts for x in i), key=repr):
        has = [i[a] for i in insts if a in i]
        if a not in one:
            p = (len(insts) - len(has)) / len(insts)
        elif numeric and is_num(one[a]):
            nums = [v for v in has if is_num(v)]
            s1, s2 = ustd(nums), ustd([one[a]] * len(leaf))
            var = s1 * s1 + s2 * s2 + 1 / (2 * math.pi)
            d = mean(nums) - one[a]
            p = len(nums) / len(insts) * math.exp(-d * d / (2 * var)) / math.sqrt(2 * math.pi * var)
        else:
            p = sum(1 for v in has if v == one[a] and not (numeric and is_num(v))) / len(insts)
        if p < 1e-250:
            return None
        ll += math.log(p)
    return ll


def criterion(w, clusters, leaves):
    ll, k, n = 0.0, 0, len(leaves)
    for c, lf in zip(clusters, leaves):
        insts, memo = w.below(c)
        if id(lf) not in memo:
            memo[id(lf)] = like(insts, w.below(lf)[0], w.numeric)
        if memo[id(lf)] is None:
            return None
        ll += memo[id(lf)]
    for c in {id(c): c for c in clusters}.values():
        tab = {}
        for i in w.below(c)[0]:
            for a, v in i.items():
                tab.setdefault(a, set()).add(CV if w.numeric and is_num(v) else v)
        k += sum(2 if v == CV else 1 for vs in tab.values() for v in vs)
    if w.name == 'AIC':
        return 2 * k - 2 * ll
    if w.name == 'BIC':
        return k * math.log(n) - 2 * ll
    return float('inf') if n - k <= 1 else 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)


def leaf_insts(leaf):
    """The non-hidden content of a leaf, as instances."""
    i = {}
    for a, vs in leaf.av_counts.items():
        if hidden(a):
            continue
        for v, c in vs.items():
            if is_cv(c):
                i[a] = c.mean
            elif c:
                i[a] = v
    return [i] * int(leaf.count)


def ref_for(S, insts, mod):
    if not S.shadow.numeric:
        return Ref(False)
    hist = S.shadow.hist + (insts if mod else [])
    return rel.make_ref(S.tree, S.shadow, hist)


def ref_cu(ref, clusters, leaves):
    groups = {}
    for c, lf in zip(clusters, leaves):
        groups.setdefault(id(c), []).append(lf)
    # the heuristic collects, for each cluster, all leaves below it
    kids = [[i for lf in g for i in leaf_insts(lf)] for g in groups.values()]
    allk = [i for k in kids for i in k]
    return -ref.cu(allk, [(len(k), ref.ecg(k)) for k in kids])


def check_cut(S, w, clusters, c, where):
    insts = c['insts']
    if len(clusters) != len(insts):
        raise Violation('labels', '%d labels for %d instances' % (len(clusters), len(insts)))
    for x, lf in zip(clusters, w.leaves):
        if id(x) not in w.kids:
            raise Violation('cut', '%s: a cluster is not a concept of the tree' % where)
        if x not in w.up(lf):
            raise Violation('cut', '%s: an instance is not below its cluster' % where)
        if x is w.root and w.kids[id(w.root)]:
            raise Violation('cut', '%s: the root is a cluster' % where)
    cs = {id(x): x for x in clusters}
    for x in cs.values():
        for y in w.up(x)[1:]:
            if id(y) in cs:
                raise Violation('cut', '%s: one cluster lies below another' % where)


def expect_leaf(S, w, c):
    """The private tree is the source tree plus, when fitting, the instances."""
    n = S.tree.root.count + (len(c['insts']) if c['mod'] else 0)
    if w.root.count != n:
        raise Violation('private', 'the clustered tree holds %r instances instead of %d' % (w.root.count, n))
    if w.root is S.tree.root:
        raise Violation('private', 'clustering works on the source tree itself')
    for i, lf in zip(c['insts'], w.leaves):
        if w.kids[id(lf)]:
            raise Violation('private', 'an instance was assigned to a concept that is not a leaf')
    if not c['mod'] and not S.names:
        ids = {n.concept_id: n for n in nodes(S.tree)}
        for i, lf in zip(c['insts'], w.leaves):
            src = ids.get(lf.concept_id)
            if src is None or src not in candidates(S, i):
                raise Violation('private', '%r was clustered as an instance of a concept it is not categorized to' % i)


def collect(S, c, ctx, suspend=None, log=None):
    """Run one iterator; returns (watch, list of (cluster nodes, score, candidate values), ended)."""
    L = S.L
    labels = c['kind'] == 'labels'
    w = Watch(L, c['h'], S.shadow.numeric)
    it = L.cluster.cluster_iter(S.tree, *core.brief([copy.deepcopy(c['insts']), w, c['a'], c['b'], c['mod'], labels],
                                                    (None, 1, 100000, True, True)))
    out = []
    stream = core.SIM.stream
    first = True
    while True:
        mark = len(w.calls)
        try:
            cl, sc = next(it)
        except StopIteration:
            return w, out, True
        if first:
            expect_leaf(S, w, c)
            first = False
        if labels:
            hit = [x for x, _ in w.calls if ['Concept%s' % n.concept_id for n in x] == list(cl)]
            if not hit:
                raise Violation('labels', 'labels %r name no clustering that was evaluated' % (cl,))
            cl = hit[-1]
        where = 'clustering %d' % (len(out) + c['a'])
        check_cut(S, w, cl, c, where)
        n = w.splits(cl)
        if n != c['a'] + len(out):
            raise Violation('splits', '%s is the result of %d splits' % (where, n))
        v = w.value(cl)
        if not same(v, sc):
            raise Violation('score', '%s has score %r but its heuristic value is %r' % (where, sc, v))
        if c['h'] == 'CU' and not S.names:
            r = ref_cu(ref_for(S, c['insts'], c['mod']), cl, w.leaves)
            if abs(r - sc) > 1e-7:
                raise Violation('score', '%s has category utility %r instead of %r' % (where, -sc, -r))
        cand = {}
        for x in {id(x): x for x in cl}.values():
            if w.kids[id(x)]:
                nl = [w.child_towards(x, lf) if y is x else y for y, lf in zip(cl, w.leaves)]
                cand[id(x)] = (w.value(nl), [id(z) for z in nl])
        if out:
            check_step(out[-1], cl, where)
        out.append((list(cl), sc, cand))
        if suspend is not None and len(out) == suspend:
            log(S)
            core.SIM.use(stream)
        if c['stop'] is not None and len(out) >= c['stop'] and suspend is None:
            it.close()
            ctx.fault('abandoned_iterator')
            return w, out, False
    return w, out, True


def same(a, b):
    return a == b or close(a, b, 1e-9, 1e-10)


def check_step(prev, cl, where):
    ids = [id(x) for x in cl]
    chosen = [v for v, nl in prev[2].values() if nl == ids]
    if not chosen:
        raise Violation('split', '%s does not follow from the one before by splitting one cluster' % where)
    best = min(v for v, _ in prev[2].values())
    if not (chosen[0] <= best or same(chosen[0], best)):
        raise Violation('split', '%s splits a cluster with heuristic value %r although another gives %r'
                        % (where, chosen[0], best))


def tied(out):
    for _, _, cand in out:
        vs = sorted(v for v, _ in cand.values())
        if len(vs) > 1 and (same(vs[0], vs[1]) or math.isinf(vs[0])):
            return True
    return False


def pattern(xs, key=id):
    seen = {}
    return [seen.setdefault(key(x), len(seen)) for x in xs]


def check_end(w, out, c, ended, S):
    if not ended:
        return
    k = c['b'] - c['a'] + 1
    if len(out) > k:
        raise Violation('splits', '%d clusterings for splits %d to %d' % (len(out), c['a'], c['b']))
    if len(out) < k:
        if out and out[-1][2]:
            raise Violation('splits', 'clusterings end after %d splits although more can be split' %
                            (c['a'] + len(out) - 1))
        if not out and w.kids is not None and w.splits(w.leaves) >= c['a']:
            raise Violation('splits', 'no clustering from %d splits on although %d are possible'
                            % (c['a'], w.splits(w.leaves)))


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], 'prng', ctx)
    for op in scn['ops']:
        S.fit(op['inst'])
    S.names = scn['relational'] or rel.uses_vars(scn['cfg'], *(S.shadow.hist + [i for c in scn['clus'] for i in c['insts']]))
    if not S.shadow.hist:
        return
    ctx.state(shape(S.tree))
    for c in scn['clus']:
        before = snapshot(S.tree)
        keep = repr(c['insts'])
        try:
            one(S, c, ctx)
        except Undefined:
            ctx.probe('heuristic_undefined')
        if repr(c['insts']) != keep:
            raise Violation('argument', 'clustering changed the instances')
        if not (c['kind'] == 'depth' and c['mod']) and not getattr(S, 'touched', False):
            if snapshot(S.tree) != before:
                raise Violation('changed', '%s clustering changed the source tree' % c['kind'])
        S.touched = False
        links_ok(S.tree)
        if not S.names:
            S.shadow.check()


def one(S, c, ctx):
    L = S.L
    k = c['kind']
    S.stream()
    seed_i = S.i

    def again():
        core.op_stream(S.seed, seed_i, S.kind)
    if k == 'depth':
        return depth(S, c)
    if k == 'refuse':
        return refused(S, c, ctx)
    if c['fail'] and k == 'iter':
        w = Watch(L, c['h'], S.shadow.numeric, c['fail'])
        try:
            for _ in L.cluster.cluster_iter(S.tree, copy.deepcopy(c['insts']), w, c['a'], c['b'], c['mod']):
                pass
        except queries.HeuristicFailure:
            ctx.fault('failing_callback')
        again()
    if k in ('iter', 'labels'):
        w, out, ended = collect(S, c, ctx)
        ctx.steps += len(w.calls)
        check_end(w, out, c, ended, S)
        if c['hs'] and c['h'] != 'OWN' and c['a'] == 1:
            again()
            by_name(S, c, out)
        if c['suspend'] is not None and len(out) >= c['suspend'] and c['stop'] is None \
                and c['a'] == 1 and not tied(out):
            again()
            full = [(pattern(x[0]), x[1]) for x in out]

            def fit_source(S):
                # the source tree goes on learning while the iterator is suspended
                keep_i = S.i
                S.i = 1000000 + keep_i
                for i in c['more']:
                    S.fit(i)
                S.i = keep_i
                S.touched = True
                ctx.fault('fit_while_suspended')
            rest = suspended(S, c, c['suspend'], fit_source)
            if len(rest) != len(full) or any(a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(rest, full)):
                raise Violation('isolation', 'fitting the source tree changed a suspended clustering: %r instead of %r'
                                % (rest, full))
        return
    # the other entry points, against the iterator with the same draws
    cc = dict(c, kind='iter', stop=None, a=1)      # from the first split on, to see every tie
    if k == 'k':
        cc.update(h='CU', b=100000)
    elif k == 'cluster':
        cc.update(h='CU')
    w, out, ended = collect(S, cc, ctx)
    check_end(w, out, cc, ended, S)
    again()
    ids = {n.concept_id for n in nodes(S.tree)}
    if k == 'cluster':
        got = [list(x) for x in core.guarded(lambda: list(L.cluster.cluster(
            S.tree, *core.brief([copy.deepcopy(c['insts']), c['a'], c['b'], c['mod']], (1, 1, True)))))]
        if tied(out):
            ctx.probe('tied')
            return
        want = [x[0] for x in out[c['a'] - 1:]]
        if len(got) != len(want) or any(not agree(g, x, ids) for g, x in zip(got, want)):
            raise Violation('labels', 'cluster() gives %r instead of %r' % (got, [names(x) for x in want]))
    elif k == 'k':
        got = core.guarded(L.cluster.k_cluster, S.tree,
                           *core.brief([copy.deepcopy(c['insts']), c['k'], c['mod']], (3, True)))
        if len(got) != len(c['insts']) or len(set(got)) > c['k']:
            raise Violation('k', 'k_cluster(k=%d) gives %r' % (c['k'], got))
        if tied(out):
            ctx.probe('tied')
            return
        want = None
        for x in out:
            if len(set(map(id, x[0]))) > c['k']:
                break
            want = x[0]
        if want is None:
            if len(set(got)) != 1 or got[0] != 'Concept%s' % S.tree.root.concept_id:
                raise Violation('k', 'k_cluster(k=%d) gives %r although the first clustering has more clusters'
                                % (c['k'], got))
        elif not agree(got, want, ids):
            raise Violation('k', 'k_cluster(k=%d) gives %r instead of %r' % (c['k'], got, names(want)))
    elif k == 'search':
        h = own if c['h'] == 'OWN' else name_of(c) if c['hs'] else getattr(L.cluster, c['h'])
        try:
            args = [copy.deepcopy(c['insts']), h, c['a'], c['b'], c['mod']]
            if c['stop'] == 1:
                got = L.cluster.cluster_split_search(S.tree, *args, labels=False)
                if any(isinstance(x, str) and x != 'Concept%s' % S.tree.root.concept_id for x in got):
                    raise Violation('search', 'cluster_split_search without labels gives %r' % (got,))
                got = [x if isinstance(x, str) else 'Concept%s' % x.concept_id for x in got]
            else:
                got = L.cluster.cluster_split_search(S.tree, *core.brief(args, (L.cluster.CU, 1, 1, True)))
        except Exception as e:
            if c['h'] in ('CU', 'OWN') or not tied(out):
                raise Violation('exception', core.exc_text(e) + ' @ ' + core.where(e))
            raise Undefined(str(e))
        if len(got) != len(c['insts']):
            raise Violation('search', 'cluster_split_search labels %d of %d instances' % (len(got), len(c['insts'])))
        if tied(out):
            ctx.probe('tied')
            return
        fin = [x for x in out[c['a'] - 1:] if x[1] < float('inf')]
        if not fin:
            return
        best = min(x[1] for x in fin)
        if not any(agree(got, x[0], ids) for x in fin if same(x[1], best)):
            raise Violation('search', 'cluster_split_search gives %r, whose heuristic value is not the best (%r)'
                            % (got, best))


def name_of(c):
    return {'lower': c['h'].lower(), 'upper': c['h'].upper()}.get(c.get('case'), c['h'])


def by_name(S, c, out):
    """The heuristic given by its name: the same clusterings, up to the first tie."""
    h = name_of(c)
    it = S.L.cluster.cluster_iter(S.tree, copy.deepcopy(c['insts']), h, c['a'], c['b'], c['mod'], False)
    for i, (cl, sc, cand) in enumerate(out):
        try:
            got, v = next(it)
        except StopIteration:
            raise Violation('name', 'with the heuristic %r there are %d clusterings instead of %d' % (h, i, len(out)))
        except Exception as e:
            raise Violation('name', 'with the heuristic %r: %s @ %s' % (h, core.exc_text(e), core.where(e)))
        if pattern(got) != pattern(cl) or not same(v, sc):
            raise Violation('name', 'with the heuristic %r clustering %d is %r with value %r, but %r with value %r '
                            'with the function' % (h, i + 1, pattern(got), v, pattern(cl), sc))
        if tied([(cl, sc, cand)]):
            return


def names(cl):
    return ['Concept%s' % x.concept_id for x in cl]


def agree(labels, cl, ids):
    """Same partition, and the same names for concepts that exist in the source tree."""
    if pattern(labels, lambda x: x) != pattern(cl):
        return False
    return all(lb == 'Concept%s' % x.concept_id for lb, x in zip(labels, cl) if x.concept_id in ids)


def suspended(S, c, at, act):
    w = Watch(S.L, c['h'], S.shadow.numeric)
    it = S.L.cluster.cluster_iter(S.tree, copy.deepcopy(c['insts']), w, c['a'], c['b'], c['mod'], False)
    stream = core.SIM.stream
    out = []
    try:
        for cl, sc in it:
            out.append((pattern(cl), sc))
            if len(out) == at:
                act(S)
                core.SIM.use(stream)
    except Undefined:
        raise
    except Exception as e:
        raise Violation('isolation', 'a clustering suspended while the source tree was fit failed: %s @ %s'
                        % (core.exc_text(e), core.where(e)))
    return out


def refused(S, c, ctx):
    """Requests that make no sense fail and leave the tree alone."""
    C, insts = S.L.cluster, copy.deepcopy(c['insts'])
    calls = [lambda: C.k_cluster(S.tree, insts, c['k'] % 2, c['mod']),
             lambda: list(C.cluster(S.tree, insts, 1 - c['a'], c['b'], c['mod'])),
             lambda: list(C.cluster(S.tree, insts, c['b'] + 1, c['b'], c['mod'])),
             lambda: list(C.cluster(S.tree, [], c['a'], c['b'], c['mod'])),
             lambda: C.k_cluster(S.tree, [], c['k'], c['mod']),
             lambda: C.cluster_split_search(S.tree, [], C.CU, c['a'], c['b'], c['mod']),
             lambda: C.cluster_split_search(S.tree, insts, C.CU, c['b'] + 1, c['b'], c['mod']),
             lambda: C.cluster_split_search(S.tree, insts, 'CUU', c['a'], c['b'], c['mod'])]
    names = ['k_cluster with k below 2', 'cluster with minsplit below 1', 'cluster with maxsplit below minsplit',
             'cluster of nothing', 'k_cluster of nothing', 'cluster_split_search of nothing',
             'cluster_split_search with maxsplit below minsplit', 'cluster_split_search with an unknown heuristic']
    for name, call in zip(names, calls):
        try:
            r = call()
        except core.SimStall:
            raise
        except Exception:
            ctx.fault('refused_request')
        else:
            raise Violation('accepted', '%s was accepted and gives %r' % (name, r))


def depth(S, c):
    tree = S.tree
    n0 = tree.root.count
    labs = core.guarded(S.L.cluster.depth_labels, tree,
                        *core.brief([copy.deepcopy(c['insts']), c['mod']], (True,)))
    m = len(c['insts'])
    by = {'Concept%s' % n.concept_id: n for n in nodes(tree)}
    if not labs or any(len(r) != m for r in labs):
        raise Violation('depth', 'depth labels do not have one label per instance')
    deepest = 0
    for j in range(m):
        col = [r[j] for r in labs]
        path = [col[0]]
        for x in col[1:]:
            if x != path[-1]:
                path.append(x)
        if any(x not in by for x in path):
            raise Violation('depth', 'labels %r are not concepts of the tree' % path)
        ns = [by[x] for x in path]
        if ns[0] is not tree.root or ns[-1].children or any(b.parent is not a for a, b in zip(ns, ns[1:])):
            raise Violation('depth', 'labels %r are not a path from the root to a leaf' % path)
        deepest = max(deepest, len(path))
        if not c['mod'] and not S.names and ns[-1] not in candidates(S, c['insts'][j]):
            raise Violation('depth', '%r was labelled with a leaf it is not categorized to' % c['insts'][j])
        if c['mod'] and not S.names:
            S.shadow.record(c['insts'][j], ns[-1])
    if len(labs) != deepest:
        raise Violation('depth', '%d rows of labels for a depth of %d' % (len(labs), deepest))
    if c['mod']:
        if tree.root.count != n0 + m:
            raise Violation('depth', 'labelling with modification fit %d instances instead of %d'
                            % (tree.root.count - n0, m))
        S.touched = True
