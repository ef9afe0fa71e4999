"""C14: incremental evaluation scores each instance before it is learned."""
import copy

from sim import core, hist, rel, work
from sim.core import Stream, Violation, stream_seed
from sim.oracle import Ref, Tally, check_table, fingerprint, is_num, mean, nodes, params, ref_tree, scales, shape
from sim.props.c08 import Legal
from sim.props.c18 import expected

RUNS = {'quick': 1500, 'thorough': 40000}
SHRINK = ('insts',)
RULE = ('one run = one tree (new or used before) and a seeded incremental evaluation of 1-5 runs with a recording '
        'scoring function around each built-in score; at every scoring call the tree is compared with the instances '
        'that preceded it, the score with the instances of the admissible concepts and with the score of the same '
        'instance without its target value on the same draws; in some runs the scoring function fails, is interrupted, '
        'or an instance is refused at a seeded call, and the evaluation is repeated and compared with that of an '
        'untouched tree; non-trivial = at least 2 instances scored, distinct = different scenario text')
REAL = ['evaluation module, trees, concepts, preprocessing, structure mapper, random.shuffle']
STUB = ['generator behind the random module (seeded streams)', 'the user\'s scoring function (records, fails on demand)']
ASSUMPTIONS = ['the length of a run is only bounded from below by what was asked for (the examples rely on the extra '
               'instances)', 'an attribute is either always nominal or always numeric']
SCORES = ['probability', 'error', 'absolute_error', 'squared_error']


class ScoreFailure(Exception):
    pass


def gen(rng, tier):
    t = hist.tree_type(rng)
    cfg = work.tree_cfg(rng, (t,))
    mk, relational = hist.maker(rng, t, .3)
    prev = []
    n = rng.choice([1, 2, 4, 6]) if relational else rng.choice([1, 3, 6, 10, 20]) if rng.random() < .96 else 40
    for _ in range(n):
        prev.append(mk(prev))
    names = sorted(set(a for i in prev for a in i), key=repr) + ['zz']
    names = [a for a in names if a[0] != '?' and not isinstance(a, tuple)] or ['zz']
    attr = rng.choice(names)
    if any(isinstance(i.get(attr), dict) for i in prev):
        attr = 'zz'
    return {'cfg': cfg, 'relational': relational, 'insts': prev, 'attr': attr, 'len': rng.choice([0, 1, 2, 5, n, n, n + 5]),
            'runs': rng.choice([1, 1, 2, 3, 5]) if n < 40 else 1, 'rand': rng.random() < .5, 'score': rng.choice(SCORES),
            'past': [mk(prev) for _ in range(rng.choice([0, 0, 3]))],
            'fault': rng.choice([None, None, 'fail', 'interrupt', 'refuse']), 'at': rng.random(),
            'builtin': rng.random() < .2, 'style': rng.choice(['kw', 'default']), 'bad': work.invalid(rng, t, mk(prev))}


def nontrivial(scn):
    return repr({k: v for k, v in scn.items() if k != 'seed'}) if len(scn['insts']) > 1 else None


class Recorder(object):
    """The client's scoring function: a built-in score plus all the checks."""

    def __init__(self, L, scn, tree, ctx, fail_at=None, exc=None, judge=True):
        self.L, self.scn, self.tree, self.ctx = L, scn, tree, ctx
        self.calls = []
        self.scores = []
        self.fail_at, self.exc = fail_at, exc
        self.judge = judge
        self.where = []
        self.fn = getattr(L.evaluation, scn['score'])

    def __call__(self, tree, inst, attr, val):
        if tree is not self.tree:
            raise Violation('call', 'the scoring function was given another tree')
        if attr != self.scn['attr']:
            raise Violation('call', 'the scoring function was given the attribute %r' % (attr,))
        i = len(self.calls)
        if self.fail_at == i:
            self.ctx.fault('score_' + ('failure' if self.exc is ScoreFailure else 'interrupt'))
            raise self.exc('injected at call %d' % i)
        n = tree.root.count
        if n == 0:
            self.run_start = i
            self.where[:] = []
        run = getattr(self, 'run_start', None)
        if run is None or n != i - run:
            raise Violation('order', 'call %d: the tree holds %r instances, %r preceded it in this run'
                            % (i, n, None if run is None else i - run))
        done = [c[0] for c in self.calls[run:]]
        want = inst.get(attr)
        if val != want or (val is None) != (want is None):
            raise Violation('target', 'call %d: the target value is %r instead of %r' % (i, val, want))
        if self.judge:
            self.check_tree(done)
        self.calls.append((inst, run))
        s = self.score(tree, inst, attr, val, done, i)
        self.scores.append(s)
        return s

    def check_tree(self, done):
        t = self.scn['cfg']['type']
        if rel.uses_vars(self.scn['cfg'], *done):
            return
        flat = [rel.flat(d) if t in ('trestle', 'dummy') else d for d in done]
        check_table(self.tree.root, flat, t != 'cobweb', 'root at scoring time')
        for node in nodes(self.tree):
            if node is not self.tree.root and node.count > len(done):
                raise Violation('order', 'a concept is larger than the tree')

    def score(self, tree, inst, attr, val, done, i):
        name = self.scn['score']
        seed = stream_seed(self.scn['seed'], 'score', i)
        outer = core.SIM.stream
        try:
            core.SIM.use(Stream(seed))
            keep = copy.deepcopy(inst)
            try:
                s = self.fn(tree, inst, attr, val)
            except core.SimStall as e:
                raise Violation('stall', str(e))
            except Exception as e:
                if name == 'probability' or not refusable(val, done, attr):
                    raise Violation('exception', '%s of %r=%r failed: %s @ %s' % (name, attr, val, core.exc_text(e),
                                                                                 core.where(e)))
                return -1.0
            if inst != keep or list(inst) != list(keep):
                raise Violation('argument', 'scoring changed the instance')
            if self.judge and not rel.uses_vars(self.scn['cfg'], inst, *done):
                self.check_score(tree, inst, attr, val, done, s, seed)
            return s
        finally:
            core.SIM.use(outer)

    def check_score(self, tree, inst, attr, val, done, s, seed):
        name = self.scn['score']
        # without access to the target: same draws, target absent or different
        for other in ({a: v for a, v in inst.items() if a != attr}, dict(inst, **{attr: val}) if val is not None and
                      isinstance(attr, str) else None):
            if other is None:
                continue
            core.SIM.use(Stream(seed))
            s2 = core.guarded(self.fn, tree, other, attr, val)
            if s2 != s:
                raise Violation('leak', '%s of %r=%r is %r, but %r when the instance is given without its target value'
                                % (name, attr, val, s, s2))
        blind = {a: v for a, v in inst.items() if a != attr}
        t = self.scn['cfg']['type']
        numeric = t != 'cobweb'
        if t in ('trestle', 'dummy'):
            blind = rel.flat(blind)
            done = [rel.flat(d) for d in done]
        cands = self.groups(blind, done)
        if cands is None:
            return
        for insts, ref in cands:
            if name == 'probability':
                if abs(s - expected(Tally(insts, numeric), ref, attr, val, numeric)) <= 1e-6:
                    return
            elif self.error_ok(insts, attr, val, s, numeric):
                return
        raise Violation('score', '%s of %r=%r is %r, which no admissible concept gives (%d concepts)'
                        % (name, attr, val, s, len(cands)))

    def error_ok(self, insts, attr, val, s, numeric):
        name = self.scn['score']
        lg = Legal(insts, attr, 'most likely', True, numeric)
        preds = [None] + list(lg.w) + ([mean(lg.num)] if lg.num else [])
        for p in preds:
            if not lg.ok(p):
                continue
            if is_num(val):
                if isinstance(p, bool):
                    return True         # words and numbers in one attribute: the score is not defined
                if not is_num(p):
                    continue
                e = val - p
            else:
                if val is None and numeric and is_num(p):
                    continue            # documented to be refused
                e = 0 if p == val else 1
            e = abs(e) if name == 'absolute_error' else e * e if name == 'squared_error' else e
            if abs(s - e) <= 1e-6 * max(1.0, abs(e)):
                return True
        return False

    def groups(self, blind, done):
        """Instances below each concept the instance may be categorized to."""
        tree = self.tree
        numeric = self.scn['cfg']['type'] != 'cobweb'
        scaling, inner = params(self.scn['cfg'])
        ref = Ref(True, scaling, scale_values(inner, done), inner) if numeric else Ref(False)
        if not tree.root.children:
            return [(done, ref)]
        if len(self.where) != len(done):
            self.ctx.probe('fits_not_observable')
            return None
        per = {}
        for d, n in zip(done, self.where):
            per.setdefault(id(n), []).append(d)
        if any(not n.children and id(n) not in per for n in nodes(tree)):
            raise Violation('order', 'the tree holds instances that did not precede this call')
        lv = ref.leaves(ref_tree(tree.root, lambda n: per[id(n)]), blind)
        if lv is None:
            return None
        return [(x.insts, ref) for x in lv]


def scale_values(inner, done):
    d = {}
    for i in done:
        for a, v in i.items():
            if is_num(v):
                d.setdefault(a[0] if isinstance(a, tuple) and inner else a, []).append(v)
    return d


def watch(tree, rec):
    """Remember the concept each instance goes to."""
    orig = tree.ifit

    def ifit(inst, *a, **kw):
        n = orig(inst, *a, **kw)
        rec.where.append(n)
        return n
    tree.ifit = ifit


def unwatch(tree):
    try:
        del tree.ifit
    except AttributeError:
        pass


def refusable(val, done, attr):
    """error scores refuse numeric targets predicted as missing, and missing targets predicted as numbers."""
    known = [d[attr] for d in done if attr in d]
    if val is None:
        return any(is_num(v) for v in known)
    return is_num(val) and (len(known) < len(done) or not done or any(not is_num(v) for v in known))


def evaluate(L, scn, tree, rec, insts, score=None):
    f = L.evaluation.incremental_evaluation
    core.SIM.use(Stream(stream_seed(scn['seed'], 'eval')))
    args = (tree, insts, scn['attr'], scn['len'])
    if scn['style'] == 'default' and scn['runs'] == 1 and scn['rand']:
        return f(*args, score=score or rec)
    return f(*args, runs=scn['runs'], score=score or rec, randomize_first=scn['rand'])


def make(L, scn):
    tree = L.make(scn['cfg'])
    core.SIM.use(Stream(stream_seed(scn['seed'], 'past')))
    for i in scn['past']:
        core.guarded(tree.ifit, copy.deepcopy(i))
    return tree


def check_runs(scn, rec, table, n):
    if len(table) != scn['runs']:
        raise Violation('table', '%d rows for %d runs' % (len(table), scn['runs']))
    flat = [s for row in table for s in row]
    if flat != rec.scores:
        raise Violation('table', 'the table is not what the scoring function returned in order')
    k = 0
    texts = sorted(repr(i) for i in scn['insts'])
    for r, row in enumerate(table):
        # (the library scores two more than asked for)
        if not min(scn['len'], n) <= len(row) <= min(scn['len'] + 2, n):
            raise Violation('length', 'run %d scored %d of %d instances, %d asked for' % (r, len(row), n, scn['len']))
        part = rec.calls[k:k + len(row)]
        if any(c[1] != k for c in part):
            raise Violation('start', 'run %d does not start from an empty tree' % r)
        got = sorted(repr(c[0]) for c in part)
        rest = list(texts)
        for g in got:
            if g not in rest:
                raise Violation('permutation', 'run %d used an instance that is not in the list, or used it twice' % r)
            rest.remove(g)
        if r == 0 and not scn['rand'] and [repr(c[0]) for c in part] != [repr(i) for i in scn['insts'][:len(row)]]:
            raise Violation('order', 'the first run is not in the given order')
        k += len(row)


def run(scn, ctx):
    L = core.lib()
    n = len(scn['insts'])
    tree = make(L, scn)
    insts = copy.deepcopy(scn['insts'])
    fail, exc = None, None
    if scn['fault'] in ('fail', 'interrupt') and n:
        exc = ScoreFailure if scn['fault'] == 'fail' else core.SimInterrupt
        fail = int(scn['at'] * min(n, scn['len'] + 2) * scn['runs'])
    if fail is not None or scn['fault'] == 'refuse':
        rec = Recorder(L, scn, tree, ctx, fail, exc, judge=False)
        broken = copy.deepcopy(insts)
        if scn['fault'] == 'refuse':
            broken.insert(int(scn['at'] * (n + 1)), copy.deepcopy(scn['bad']))
        try:
            t = evaluate(L, scn, tree, rec, broken)
        except (ScoreFailure, core.SimInterrupt):
            pass
        except Violation:
            if scn['fault'] != 'refuse':
                raise
            ctx.fault('rejected_instance')
        except core.SimStall as e:
            raise Violation('stall', str(e))
        except Exception as e:
            if scn['fault'] != 'refuse':
                raise Violation('exception', core.exc_text(e) + ' @ ' + core.where(e))
            ctx.fault('rejected_instance')
        else:
            if fail is not None and rec.fail_at < len(rec.calls):
                raise Violation('swallowed', 'the scoring function failed at call %d but the evaluation returned'
                                % rec.fail_at)
            if scn['fault'] == 'refuse' and any(repr(c[0]) == repr(scn['bad']) for c in rec.calls):
                raise Violation('accepted', 'an invalid instance was learned')
    rec = Recorder(L, scn, tree, ctx)
    watch(tree, rec)
    try:
        table = guarded_eval(L, scn, tree, rec, insts)
    finally:
        unwatch(tree)
    ctx.steps += len(rec.calls) + core.SIM.stream.draws
    check_runs(scn, rec, table, n)
    if sorted(repr(i) for i in insts) != sorted(repr(i) for i in scn['insts']):
        raise Violation('argument', 'the evaluation changed the instances in the list')
    last = [c[0] for c in rec.calls if c[1] == rec.calls[-1][1]] if rec.calls else []
    if table and table[-1]:
        if tree.root.count != len(last):
            raise Violation('after', 'after the last run the tree holds %r instances instead of %d'
                            % (tree.root.count, len(last)))
        rec.check_tree(last)
    else:
        if table and tree.root.count:
            raise Violation('after', 'an empty run left a trained tree')
    # an untouched tree gives the same
    new = L.make(scn['cfg'])
    rec2 = Recorder(L, scn, new, core.Ctx(), judge=False)
    table2 = guarded_eval(L, scn, new, rec2, copy.deepcopy(scn['insts']))
    if table2 != table:
        raise Violation('past', 'a tree with a past (or a failed evaluation) scores %r, a new one %r' % (table, table2))
    if table and (fingerprint(tree) != fingerprint(new) or scales(tree) != scales(new)):
        raise Violation('past', 'after the evaluation a tree with a past differs from a new one')
    ctx.state(shape(tree))
    if scn['builtin'] and scn['score'] == 'probability':
        # the built-in score passed directly, same draws throughout
        a, b = L.make(scn['cfg']), L.make(scn['cfg'])
        t1 = guarded_eval(L, scn, a, None, copy.deepcopy(scn['insts']), L.evaluation.probability)
        t2 = guarded_eval(L, scn, b, None, copy.deepcopy(scn['insts']), lambda *x: L.evaluation.probability(*x))
        if t1 != t2:
            raise Violation('table', 'scores differ when the scoring function is wrapped: %r, %r' % (t1, t2))
    if n >= 5 and scn['builtin'] and scn['len'] >= n and len(set(repr(i) for i in scn['insts'])) >= 5:
        shuffled(L, scn, ctx)


def guarded_eval(L, scn, tree, rec, insts, score=None):
    try:
        return evaluate(L, scn, tree, rec, insts, score)
    except Violation:
        raise
    except core.SimStall as e:
        raise Violation('stall', str(e))
    except Exception as e:
        raise Violation('exception', core.exc_text(e) + ' @ ' + core.where(e))


def shuffled(L, scn, ctx):
    orders, seconds, rows = set(), set(), []
    for j in range(12):
        seen = []
        core.SIM.use(Stream(stream_seed(scn['seed'], 'shuffle', j)))
        tree = L.make({'type': 'dummy'})
        core.guarded(L.evaluation.incremental_evaluation, tree, copy.deepcopy(scn['insts']), scn['attr'], scn['len'],
                     runs=6, score=lambda t, i, a, v: seen.append(repr(i)),
                     **({} if scn['rand'] and scn['style'] == 'default' else {'randomize_first': scn['rand']}))
        h = len(seen) // 6
        orders.add(tuple(seen[:h]))
        seconds.add(tuple(seen[h:2 * h]))
        rows.append([seen[i * h:(i + 1) * h] for i in range(6)])
    ctx.probe('shuffle_statistics')
    if scn['rand'] and len(orders) < 2:
        raise Violation('shuffle', 'the first run is never shuffled')
    if len(seconds) < 2:
        raise Violation('shuffle', 'the second run is never shuffled')
    given = [repr(i) for i in scn['insts']][:len(rows[0][0])]
    for k in range(1, 6):
        if all(r[k] == given for r in rows):
            raise Violation('shuffle', 'run %d is never shuffled' % (k + 1))
        if all(r[k] == r[k - 1] for r in rows):
            raise Violation('shuffle', 'run %d always has the order of the run before' % (k + 1))
