"""Read-only requests a client can make of a tree, their answers in comparable form, and what they return."""
import copy
import math

from sim import work
from sim.core import SimStall, Violation, brief, exc_text, where
from sim.oracle import is_cv, nodes

NODE_Q = ['predict', 'probability', 'weighted', 'ecg', 'cu', 'attrs', 'json', 'misc', 'exact', 'll', 'shallow',
          'opcu']
TREE_Q = ['categorize', 'infer', 'str', 'score', 'cluster', 'kcluster', 'search', 'depth', 'export']
SCORES = ['probability', 'error', 'absolute_error', 'squared_error']
HEUR = ['CU', 'AIC', 'BIC', 'AICc']


class HeuristicFailure(Exception):
    pass


def gen(rng, mk, prev, kinds=None, relational=False):
    """One request. mk(prev) makes an instance; prev: instances fit so far."""
    k = rng.choice(kinds or (TREE_Q + NODE_Q))
    q = {'op': 'q', 'q': k}
    inst = mk(prev)
    if k in ('categorize', 'export'):
        q['inst'] = inst
    elif k == 'infer':
        q.update(inst=inst if relational or rng.random() < .3 else work.partial(rng, inst), fn=rng.choice(['most likely', 'sampled', 'm', 's']),
                 none=rng.random() < .5)
    elif k == 'score':
        a = rng.choice(list(inst) or ['zz'])
        q.update(inst=inst, attr=a, fn=rng.choice(SCORES), none=rng.random() < .2)
    elif k in ('cluster', 'kcluster', 'search', 'depth'):
        q.update(insts=[copy.deepcopy(rng.choice(prev)) if prev and rng.random() < .6 else mk(prev)
                        for _ in range(rng.randint(1, 4))],
                 mod=k != 'depth' and rng.random() < .5, a=rng.randint(1, 3), b=rng.randint(0, 4),
                 h=rng.choice(HEUR if rng.random() < .4 else ['CU']), k=rng.randint(2, 5),
                 fail=rng.choice([0, 0, 0, 1, 2, 4]), take=rng.choice([9, 9, 9, 1, 2]))
    else:
        i = rng.choice(prev) if prev else inst
        a = rng.choice(list(i) or ['zz'])
        q.update(at=rng.random(), at2=rng.random(), attr=a, val=i.get(a), inst=inst,
                 fn=rng.choice(['most likely', 'sampled']), none=rng.random() < .5,
                 flt=rng.choice([None, 'all']), miss=rng.random() < .3)
    return q


def args(q):
    """Fresh copies of the objects the client passes in."""
    return {k: copy.deepcopy(q[k]) for k in ('inst', 'insts', 'attr', 'val') if k in q}


def num(x):
    if isinstance(x, float) and math.isnan(x):
        return 'nan'
    return x


def run(L, tree, q, a):
    """Make the request. Returns (answer in comparable form, raw result)."""
    k = q['q']
    if k == 'categorize':
        n = tree.categorize(a['inst'])
        return pos(tree, n), None
    if k == 'infer':
        r = tree.infer_missing(*brief([a['inst'], q['fn'], q['none']], ('most likely', True)))
        return canon(r), r
    if k == 'str':
        return str(tree), None
    if k == 'export':
        r = tree.root.output_json()
        return canon(r), r
    if k == 'score':
        i = a['inst']
        v = None if q['none'] or q['attr'] not in i else i[q['attr']]
        if isinstance(v, dict) or (q['fn'] != 'probability' and not isinstance(v, (int, float))):
            v = None
        if v is None and q['fn'] != 'probability':
            return None, None
        try:
            return num(getattr(L.evaluation, q['fn'])(tree, i, q['attr'], v)), None
        except Exception as e:
            # error scores refuse targets the tree predicts as nominal or missing
            if q['fn'] == 'probability':
                raise
            return 'refused ' + type(e).__name__, None
    if k == 'depth':
        return tree.root.count and canon(L.cluster.depth_labels(tree, a['insts'], False)), None
    if k in ('cluster', 'kcluster', 'search'):
        return clustering(L, tree, q, a)
    ns = nodes(tree)
    n = ns[int(q['at'] * len(ns)) % len(ns)]
    m = ns[int(q['at2'] * len(ns)) % len(ns)]
    attr, val = a['attr'], a['val']
    if isinstance(val, dict):
        val = None
    if k == 'predict':
        return num(n.predict(*brief([attr, q['fn'], q['none']], ('most likely', True)))), None
    if k == 'probability':
        return num(n.probability(attr, None if q['miss'] else val)), None
    if k == 'weighted':
        if n.count == 0:
            return None, None
        r = n.get_weighted_values(*brief([attr, q['none']], (True,)))
        return canon(r), r
    if k == 'ecg':
        return (n.expected_correct_guesses() if n.count else None), None
    if k == 'cu':
        return (n.category_utility() if n.children else None), None
    if k == 'attrs':
        r = n.attrs(q['flt'])
        return [repr(x) for x in r], None
    if k == 'json':
        r = n.output_json()
        return canon(r), r
    if k == 'misc':
        return (n.num_concepts(), n.depth(), n.is_parent(m), m.is_parent(n), str(n)), None
    if k == 'exact':
        i = a['inst']
        return bool(n.is_exact_match(i)) if not any(isinstance(v, dict) for v in i.values()) else None, None
    if k == 'll':
        try:
            return num(n.log_likelihood(m)) if n.count and m.count else None, None
        except Exception:
            return 'no likelihood', None
    if k == 'shallow':
        c = n.shallow_copy()
        r = [c.count, len(c.av_counts)]
        return r, c
    if k == 'opcu':
        i = a['inst']
        if not n.children or any(isinstance(v, dict) for v in i.values()):
            return None, None
        c = n.children[int(q['at2'] * len(n.children))]
        out = [n.cu_for_insert(c, i), n.cu_for_new_child(i)]
        if len(n.children) > 1:
            d = n.children[0] if n.children[0] is not c else n.children[1]
            out.append(n.cu_for_merge(c, d, i))
        if c.children:
            out.append(n.cu_for_split(c))
        return out, None
    raise ValueError(k)


def clustering(L, tree, q, a):
    C = L.cluster
    h = getattr(C, q['h'])
    if q['fail']:
        left = [q['fail']]

        def heur(*x):
            left[0] -= 1
            if left[0] <= 0:
                raise HeuristicFailure()
            return h(*x)
    else:
        heur = h
    ids = set(n.concept_id for n in nodes(tree))
    try:
        if q['q'] == 'kcluster':
            return labels(C.k_cluster(tree, *brief([a['insts'], q['k'], q['mod']], (3, True))), ids), None
        if q['q'] == 'search':
            return labels(C.cluster_split_search(tree, *brief([a['insts'], heur, q['a'], q['a'] + q['b'], q['mod']],
                                                         (C.CU, 1, 1, True))), ids), None
        out = []
        it = C.cluster_iter(tree, *brief([a['insts'], heur, q['a'], q['a'] + q['b'], q['mod']], (C.CU, 1, 100000, True)))
        for c, s in it:
            out.append((labels(c, ids), num(s)))
            if len(out) >= q['take']:
                it.close()
                break
        return out, None
    except HeuristicFailure:
        return 'heuristic failed', None
    except Exception as e:
        # likelihood heuristics are undefined when a probability underflows or there are too few instances
        if q['h'] != 'CU' and q['q'] != 'kcluster' and type(e) in (Exception, ZeroDivisionError, ValueError):
            return 'undefined', None
        raise


def labels(ls, known):
    """Labels of concepts of the source tree as they are, of new concepts by first occurrence."""
    out, new = [], {}
    for x in ls:
        i = int(x[len('Concept'):])
        out.append(x if i in known else 'new%d' % new.setdefault(i, len(new)))
    return out


def pos(tree, n):
    for i, x in enumerate(nodes(tree)):
        if x is n:
            return i
    return 'outside'


def canon(x):
    if isinstance(x, dict):
        return tuple(sorted(((repr(k), canon(v)) for k, v in x.items()), key=lambda p: p[0]))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if is_cv(x):
        return ('cv', x.num, x.mean, x.unbiased_std())
    if isinstance(x, float):
        return num(x)
    return x if isinstance(x, (str, int, bool)) or x is None else repr(x)


def spoil(x, depth=0):
    """Change everything reachable in a result through its containers."""
    if depth > 60:
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
        x['spoiled'] = 1
    elif isinstance(x, list):
        for v in list(x):
            spoil(v, depth + 1)
        del x[:]
        x.append('spoiled')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif is_cv(x):
        x.update(12345.0)
    elif hasattr(x, 'av_counts') and hasattr(x, 'count'):
        # a copied concept: fitting it must not reach the original
        x.increment_counts({'spoiled': 'yes'})
        for a in list(x.av_counts):
            if isinstance(a, str) and a != 'spoiled':
                x.increment_counts({a: 77.5})
                break


def answer(L, tree, q):
    """Answer alone; library exceptions are violations."""
    a = args(q)
    keep = copy.deepcopy(a)
    order = repr(a)
    try:
        r, raw = run(L, tree, q, a)
    except SimStall as e:
        raise Violation('stall', 'query %s: %s' % (q['q'], e))
    except Exception as e:
        raise Violation('exception', 'query %s failed: %s @ %s' % (q['q'], exc_text(e), where(e)))
    if raw is not None and any(raw is v for v in a.values()):
        raise Violation('argument', 'query %s returned the object it was given' % q['q'])
    if a != keep or repr(a) != order:
        raise Violation('argument', 'query %s changed its arguments: %r -> %r' % (q['q'], keep, a))
    return r, raw
