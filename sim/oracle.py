"""Oracles: tree snapshots, the record of a history, and an independent reference model of the algorithm.

Only the public surface of trees and concepts is read: root, children, parent, count, av_counts,
concept_id, tree and, for numeric values, num, mean and the standard deviations.
"""
import math

from sim.core import Violation

CV = '#ContinuousValue#'
RTOL = 1e-7
ATOL = 1e-9


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and v == v


def hidden(attr):
    return attr[0] == '_'


def close(a, b, rtol=RTOL, atol=ATOL):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def is_cv(v):
    return hasattr(v, 'num') and hasattr(v, 'mean')


# --------------------------------------------------------------------------- reading trees
def nodes(tree, limit=20000):
    """All concepts in preorder; checks that links form one finite tree."""
    out, seen = [], set()
    stack = [tree.root]
    while stack:
        n = stack.pop()
        if id(n) in seen:
            raise Violation('malformed', 'a concept is reachable twice from the root')
        seen.add(id(n))
        out.append(n)
        if len(out) > limit:
            raise Violation('malformed', 'more than %d concepts' % limit)
        stack.extend(reversed(n.children))
    return out


def table(node):
    """Table of a concept as plain data; numeric summaries as ('cv', n, mean, biased variance*n)."""
    out = {}
    for a, vs in node.av_counts.items():
        d = {}
        for v, c in vs.items():
            if is_cv(c):
                n = float(c.num)
                sd = c.biased_std() if n > 0 else 0.0
                d[CV] = ('cv', n, c.mean, sd)
            else:
                d[v] = c
        if d:
            out[a] = d
    return out


def scales(tree):
    s = getattr(tree, 'attr_scales', None)
    if not s:
        return {}
    return {a: (float(c.num), c.mean, c.unbiased_std()) for a, c in s.items()}


def snapshot(tree, ids=True, params=True):
    """Everything observable about a tree, exactly (for comparing a tree with itself)."""
    def rec(n):
        return (n.concept_id if ids else None, n.count, _tab(n), tuple(rec(c) for c in n.children))

    def _tab(n):
        return tuple((a, tuple((v, (c.num, c.mean, c.unbiased_std()) if is_cv(c) else c)
                               for v, c in vs.items())) for a, vs in n.av_counts.items())
    nodes(tree)      # guards rec against loops
    p = ()
    if params:
        p = (getattr(tree, 'scaling', None), getattr(tree, 'inner_attr_scaling', None))
    return (rec(tree.root), tuple(sorted(((repr(a), v) for a, v in scales(tree).items()))), p)


def links_ok(tree):
    for n in nodes(tree):
        if n.tree is not tree:
            raise Violation('malformed', 'Concept%s does not point to its tree' % n.concept_id)
        for c in n.children:
            if c.parent is not n:
                raise Violation('malformed', 'Concept%s does not point to its parent' % c.concept_id)
    if tree.root.parent is not None:
        raise Violation('malformed', 'the root has a parent')


def fingerprint(tree, digits=None):
    """Canonical form independent of ids: nested (count, table, children in order)."""
    def num(x):
        return float('%.*g' % (digits, x)) if digits else x

    def rec(n):
        t = []
        for a, vs in n.av_counts.items():
            d = []
            for v, c in vs.items():
                d.append((repr(v), (c.num, num(c.mean), num(c.unbiased_std())) if is_cv(c) else c))
            t.append((repr(a), tuple(sorted(d, key=repr))))
        return (n.count, tuple(sorted(t)), tuple(rec(c) for c in n.children))
    nodes(tree)
    return rec(tree.root)


def shape(tree):
    """Canonical shape: nested sorted sizes (state-coverage measure)."""
    def rec(n):
        return (n.count, tuple(sorted(rec(c) for c in n.children)))
    nodes(tree)
    return rec(tree.root)


# --------------------------------------------------------------------------- tallies of raw instances
class Tally(object):
    """Summary of a list of raw instances, computed from scratch."""
    __slots__ = ('n', 'nom', 'num')

    def __init__(self, insts, numeric):
        self.n = len(insts)
        self.nom = {}
        self.num = {}
        for i in insts:
            for a, v in i.items():
                if numeric and is_num(v):
                    self.num.setdefault(a, []).append(v)
                else:
                    d = self.nom.setdefault(a, {})
                    d[v] = d.get(v, 0) + 1

    def attrs(self):
        return set(self.nom) | set(self.num)


def mean(vs):
    return math.fsum(vs) / len(vs)


def sumsq(vs):
    m = mean(vs)
    return math.fsum((v - m) * (v - m) for v in vs)


def c4(n):
    if n >= 30:
        return 1.0
    return math.sqrt(2.0 / (n - 1)) * math.gamma(n / 2.0) / math.gamma((n - 1) / 2.0)


def ustd(vs):
    n = len(vs)
    if n < 2:
        return 0.0
    if min(vs) == max(vs):
        return 0.0
    return math.sqrt(sumsq(vs) / (n - 1)) / c4(n)


def check_table(node, insts, numeric, what):
    """The concept's count and table equal the tally of insts."""
    t = Tally(insts, numeric)
    name = 'Concept%s (%s)' % (node.concept_id, what)
    if node.count != t.n:
        raise Violation('count', '%s has size %r but %d instances are stored below it' % (name, node.count, t.n))
    got = table(node)
    for a in got:
        for v in got[a]:
            if v == CV and isinstance(got[a][v], tuple):
                continue
            if got[a][v] and got[a][v] != t.nom.get(a, {}).get(v, 0):
                raise Violation('table', '%s counts %r=%r %r times instead of %d' %
                                (name, a, v, got[a][v], t.nom.get(a, {}).get(v, 0)))
    for a in t.nom:
        for v, c in t.nom[a].items():
            if got.get(a, {}).get(v, 0) != c:
                raise Violation('table', '%s counts %r=%r %r times instead of %d' %
                                (name, a, v, got.get(a, {}).get(v, 0), c))
    for a in got:
        cv = got[a].get(CV)
        if isinstance(cv, tuple) and cv[1] and a not in t.num:
            raise Violation('table', '%s has numbers for %r that were never fit' % (name, a))
    for a, vs in t.num.items():
        cv = got.get(a, {}).get(CV)
        if not isinstance(cv, tuple):
            raise Violation('table', '%s lost the numbers of %r' % (name, a))
        _, n, m, sd = cv
        if n != len(vs):
            raise Violation('numeric', '%s has %r numbers for %r instead of %d' % (name, n, a, len(vs)))
        mm = mean(vs)
        ss = math.sqrt(sumsq(vs) / len(vs))
        mag = max(abs(v) for v in vs)
        if abs(m - mm) > 1e-9 * max(mag, 1e-12) + 1e-12:
            raise Violation('numeric', '%s has mean %r for %r instead of %r' % (name, m, a, mm))
        if abs(sd - ss) > 1e-6 * ss + 1e-14 * (len(vs) + 10) * mag + 1e-9:
            raise Violation('numeric', '%s has std %r for %r instead of %r' % (name, sd, a, ss))


# --------------------------------------------------------------------------- history of one tree
class Shadow(object):
    """What has been fit into one tree, and where fit said it went."""

    def __init__(self, cfg, tree):
        self.cfg = cfg
        self.numeric = cfg['type'] != 'cobweb'
        self.reset(tree)

    def reset(self, tree):
        self.tree = tree
        self.hist = []        # filed instances
        self.leaf = []        # concept returned for each

    def record(self, inst, node):
        self.hist.append(dict(inst))
        self.leaf.append(node)

    def per_leaf(self):
        d = {}
        for i, n in zip(self.hist, self.leaf):
            d.setdefault(id(n), (n, []))[1].append(i)
        return d

    # -- C01
    def check(self):
        tree = self.tree
        ns = nodes(tree)
        links_ok(tree)
        ids = [n.concept_id for n in ns]
        if len(set(ids)) != len(ids):
            dup = sorted(i for i in set(ids) if ids.count(i) > 1)
            raise Violation('ids', 'concept ids are used twice in the tree: %s' % dup[:5])
        if self.cfg['type'] == 'dummy':
            if tree.root.children:
                raise Violation('malformed', 'the dummy tree has concepts below its root')
            check_table(tree.root, self.hist, True, 'root')
            return
        per = self.per_leaf()
        if not self.hist:
            if tree.root.count != 0 or tree.root.children or table(tree.root):
                raise Violation('count', 'an untrained tree is not empty')
            return
        seen = set()

        def rec(n, depth):
            if not n.children:
                if id(n) not in per:
                    raise Violation('partition', 'leaf Concept%s (size %r) is not the concept of any fit instance'
                                    % (n.concept_id, n.count))
                seen.add(id(n))
                insts = per[id(n)][1]
                check_table(n, insts, self.numeric, 'leaf')
                vis = [{a: v for a, v in i.items() if not hidden(a)} for i in insts]
                for v in vis[1:]:
                    if v != vis[0]:
                        raise Violation('leaf', 'leaf Concept%s mixes different instances %r and %r'
                                        % (n.concept_id, vis[0], v))
                return insts
            if len(n.children) < 2:
                raise Violation('malformed', 'Concept%s has a single child' % n.concept_id)
            insts = []
            for c in n.children:
                insts = insts + rec(c, depth + 1)
            check_table(n, insts, self.numeric, 'root' if depth == 0 else 'inner')
            return insts
        total = rec(tree.root, 0)
        for k in per:
            if k not in seen:
                raise Violation('partition', 'Concept%s, returned for a fit instance, is not a leaf of the tree'
                                % per[k][0].concept_id)
        if len(total) != len(self.hist):
            raise Violation('partition', '%d instances stored, %d fit' % (len(total), len(self.hist)))
        if self.numeric:
            self.check_scales()

    def scale_values(self, hist=None):
        d = {}
        inner = params(self.cfg)[1]
        for i in (self.hist if hist is None else hist):
            for a, v in i.items():
                if is_num(v):
                    d.setdefault(a[0] if isinstance(a, tuple) and inner else a, []).append(v)
        return d

    def check_scales(self):
        if self.cfg['type'] == 'dummy':
            return
        got = scales(self.tree)
        want = self.scale_values()
        for a, vs in want.items():
            if a not in got or got[a][0] != len(vs) or not close(got[a][1], mean(vs), 1e-8, 1e-9) or \
                    abs(got[a][2] - ustd(vs)) > 1e-6 * ustd(vs) + 1e-14 * (len(vs) + 10) * max(abs(x) for x in vs) + 1e-9:
                raise Violation('scale', 'scaling knowledge of %r is %r instead of n=%d mean=%r std=%r'
                                % (a, got.get(a), len(vs), mean(vs), ustd(vs)))
        for a in got:
            if a not in want and got[a][0]:
                raise Violation('scale', 'scaling knowledge of %r which was never fit' % (a,))


# --------------------------------------------------------------------------- reference model
class RefNode(object):
    __slots__ = ('key', 'children', 'insts', '_t', '_e')

    def __init__(self, insts, children=(), key=None):
        self.insts = insts
        self.children = tuple(children)
        self.key = key if key is not None else frozenset().union(*[c.key for c in self.children])
        self._t = None
        self._e = None


def ref_join(children):
    insts = []
    for c in children:
        insts = insts + c.insts
    return RefNode(insts, children)


EPS = 1e-8
NEW = 'NEW'


def params(cfg):
    """(scaling, inner_attr_scaling) the tree was asked for: as configured, the documented defaults otherwise."""
    if cfg['type'] in ('cobweb3', 'trestle'):
        return cfg.get('scaling', .5), cfg.get('inner', True)
    return None, True


class Ref(object):
    """Independent executable model: expected correct guesses, category utility, admissible outcomes."""

    def __init__(self, numeric, scaling=None, scale_vals=None, inner=True):
        self.numeric = numeric
        self.scaling = scaling
        self.inner = inner
        self.sd = {a: ustd(v) for a, v in (scale_vals or {}).items()}
        self.cache = {}

    def scale(self, attr):
        if not self.scaling:
            return 1.0
        a = attr[0] if isinstance(attr, tuple) and self.inner else attr
        if a not in self.sd:
            return 1.0
        s = self.sd[a] / self.scaling
        return s if s > 0 else 1.0

    def ecg(self, insts):
        n = float(len(insts))
        t = Tally([{a: v for a, v in i.items() if not hidden(a)} for i in insts], self.numeric)
        attrs = t.attrs()
        if not attrs:
            return 0.0
        tot = []
        for a in t.nom:
            for c in t.nom[a].values():
                tot.append((c / n) ** 2)
        for a, vs in t.num.items():
            s = ustd(vs) / self.scale(a)
            tot.append((len(vs) / n) ** 2 / (2 * math.sqrt(math.pi) * math.sqrt(s * s + 1 / (4 * math.pi))))
        return math.fsum(tot) / len(attrs)

    def e(self, node):
        if node._e is None:
            node._e = self.ecg(node.insts)
        return node._e

    def cu(self, parent_insts, kids):
        """kids: list of (size, ecg)."""
        n = float(len(parent_insts))
        return (math.fsum(s / n * e for s, e in kids) - self.ecg(parent_insts)) / len(kids)

    def matches(self, leaf, inst):
        # to a numeric tree False is a word and 0 a number
        vis = {a: (v, self.numeric and is_num(v)) for a, v in inst.items() if not hidden(a)}
        return all({a: (v, self.numeric and is_num(v)) for a, v in i.items() if not hidden(a)} == vis
                   for i in leaf.insts)

    def rel(self, node, inst):
        out = []
        for c in node.children:
            k = len(c.insts)
            out.append((k + 1) * self.ecg(c.insts + [inst]) - k * self.e(c))
        return out

    # -- categorization: the set of leaves that tie-breaking can reach
    def leaves(self, node, inst, limit=4000):
        out, stack, n = [], [node], 0
        while stack:
            x = stack.pop()
            n += 1
            if n > limit:
                return None
            if not x.children:
                out.append(x)
                continue
            r = self.rel(x, inst)
            m = max(r)
            for c, v in zip(x.children, r):
                if v >= m - EPS * max(1.0, len(c.insts)):
                    stack.append(c)
        return out

    # -- fit: generator of admissible results; budget bounds the search over ties
    def outcomes(self, node, inst, budget):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        if not node.children:
            if not node.insts or self.matches(node, inst):
                yield RefNode(node.insts + [inst], (), node.key)
            else:
                yield ref_join([node, RefNode([inst], (), frozenset([NEW]))])
            return
        kids = list(node.children)
        rel = self.rel(node, inst)
        tol = EPS * max(1.0, max(len(c.insts) for c in kids))
        m1 = max(rel)
        up = node.insts + [inst]
        base = [(len(c.insts), self.e(c)) for c in kids]
        newk = self.ecg([inst])
        done = set()
        for i in range(len(kids)):
            if rel[i] < m1 - tol:
                continue
            rest = [j for j in range(len(kids)) if j != i]
            m2 = max(rel[j] for j in rest)
            for j in rest:
                if rel[j] < m2 - tol:
                    continue
                b1, b2 = kids[i], kids[j]
                ops = []
                x = list(base)
                x[i] = (len(b1.insts) + 1, self.ecg(b1.insts + [inst]))
                ops.append((self.cu(up, x), 'best'))
                ops.append((self.cu(up, base + [(1, newk)]), 'new'))
                if len(kids) > 2:
                    mi = b1.insts + b2.insts + [inst]
                    x = [base[k] for k in range(len(kids)) if k not in (i, j)] + [(len(mi), self.ecg(mi))]
                    ops.append((self.cu(up, x), 'merge'))
                if b1.children:
                    x = [base[k] for k in range(len(kids)) if k != i] + \
                        [(len(c.insts), self.e(c)) for c in b1.children]
                    ops.append((self.cu(node.insts, x), 'split'))
                top = max(o[0] for o in ops)
                for v, op in ops:
                    if v < top - EPS:
                        continue
                    tag = (op, i, min(i, j) if op == 'merge' else 0, max(i, j) if op == 'merge' else 0)
                    if tag in done or (op == 'new' and ('new',) in done):
                        continue
                    done.add(tag)
                    if op == 'new':
                        done.add(('new',))
                        yield ref_join(kids + [RefNode([inst], (), frozenset([NEW]))])
                    elif op == 'best':
                        for sub in self.outcomes(b1, inst, budget):
                            yield ref_join([c for c in kids if c is not b1] + [sub])
                    elif op == 'merge':
                        for sub in self.outcomes(ref_join([b1, b2]), inst, budget):
                            yield ref_join([c for c in kids if c is not b1 and c is not b2] + [sub])
                    else:
                        n2 = ref_join([c for c in kids if c is not b1] + list(b1.children))
                        for res in self.outcomes(n2, inst, budget):
                            yield res


def ref_tree(root, insts_of):
    """Model image of an actual tree; insts_of(leaf) gives the raw instances of a leaf."""
    if not root.children:
        return RefNode(list(insts_of(root)), (), frozenset([id(root)]))
    return RefNode_children([ref_tree(c, insts_of) for c in root.children])


def RefNode_children(ch):
    return ref_join(ch)


def family(ref):
    """The set of leaf-sets of all concepts: determines a tree whose inner concepts have >= 2 children."""
    out = set()
    stack = [ref]
    while stack:
        n = stack.pop()
        out.add(n.key)
        stack.extend(n.children)
    return frozenset(out)


def family_of(root, rename):
    out = set()

    def rec(n):
        if not n.children:
            k = frozenset([rename.get(id(n), id(n))])
        else:
            k = frozenset().union(*[rec(c) for c in n.children])
        out.add(k)
        return k
    rec(root)
    return frozenset(out)
