"""C10: Trestle files a faithful one-to-one renaming of each relational instance."""
import copy

from sim import core, rel, work
from sim.core import Violation
from sim.ops import Session
from sim.oracle import nodes, shape
from sim.props.c08 import Legal, below

RUNS = {'quick': 1600, 'thorough': 20000}
SHRINK = ('ops',)
RULE = ('one run = one Trestle tree and a history of 3-12 relational fits, inferences, categorizations, refused '
        'instances, interrupted queries, checkpoints and clears, with user object names that overlap the generated '
        'ones; each filed instance is compared with an independent flattening up to renaming and its roles with all '
        'exchanges and moves; each inference with the given instance and the concepts it can come from; non-trivial = '
        'at least 2 fits, distinct = different operation text')
REAL = ['Trestle tree, preprocessing pipeline, structure mapper, munkres, py_search', 'pickle/deepcopy']
STUB = ['generator behind the random module (seeded streams)', 'delivery of asynchronous exceptions']
ASSUMPTIONS = ['object variables are nested only directly in variables', 'a variable is either always an object or '
               'always a plain value', 'roles are optimal up to one cost-neutral step of the hill climber']


def gen(rng, tier):
    cfg = work.tree_cfg(rng, ('trestle',))
    s = work.rel_schema(rng, many=rng.choice([6, 7, 8]) if rng.random() < .03 else None)
    mk = lambda: work.rel_instance(rng, s)
    ops = []
    n = rng.choice([3, 5, 8, 12]) if s['nobj'] < 5 else 3
    w = [('fit', 6), ('infer', 3), ('cat', 1), ('ckpt', .6), ('reject', .5), ('intr', .8), ('clear', .15)]
    for j in range(n):
        k = 'fit' if j == 0 else rng.choices([x[0] for x in w], [x[1] for x in w])[0]
        if k == 'fit':
            ops.append({'op': k, 'inst': mk()})
        elif k in ('infer', 'intr'):
            ops.append({'op': k, 'inst': drop(rng, mk()), 'fn': rng.choice(['most likely', 'sampled']),
                        'none': rng.random() < .4, 'at': rng.random(), 'mem': rng.random() < .3})
        elif k == 'cat':
            ops.append({'op': k, 'inst': mk()})
        elif k == 'ckpt':
            ops.append({'op': k, 'how': rng.choice(['pickle', 'deepcopy'])})
        elif k == 'reject':
            ops.append({'op': k, 'inst': work.invalid(rng, 'trestle', mk())})
        else:
            ops.append({'op': k})
    return {'cfg': cfg, 'stream': work.stream_kind(rng), 'ops': ops}


def drop(rng, inst):
    """Leave out parts of an instance, inside objects too."""
    out = {}
    keep = rng.choice([.5, .8, 1.0])
    for a, v in inst.items():
        if isinstance(v, dict) and rng.random() < .5:
            w = {b: x for b, x in v.items() if rng.random() < keep}
            out[a] = w if w else v
        elif rng.random() < keep or isinstance(v, dict):
            out[a] = v
    return copy.deepcopy(out)


def nontrivial(scn):
    return repr(scn['ops']) if sum(1 for o in scn['ops'] if o['op'] == 'fit') >= 2 else None


def on_fit(S, inst):
    base = list(S.shadow.hist)
    ref = rel.make_ref(S.tree, S.shadow)

    def after(f, m, node):
        if len(set(m.values())) != len(m):
            raise Violation('merged', 'two objects of %r were given the same name: %r' % (inst, m))
        for v in m.values():
            if not rel.is_var(v):
                raise Violation('filed', 'an object was renamed to %r, which is not an object name' % v)
        fl = rel.flat(inst)
        bad = rel.role_optimal(ref, base, fl, m)
        if bad is not None:
            raise Violation('roles', 'the roles %r of %r are not optimal: %r has more expected correct guesses'
                            % (m, fl, bad))
    return after


def run(scn, ctx):
    L = core.lib()
    S = Session(L, scn['cfg'], scn['seed'], scn['stream'], ctx)
    S.on_fit = on_fit
    for op in scn['ops']:
        k = op['op']
        if k == 'fit':
            S.fit(op['inst'])
            S.shadow.check()
            ctx.state(shape(S.tree))
        elif k == 'cat':
            S.query(S.tree.categorize, copy.deepcopy(op['inst']))
        elif k == 'ckpt':
            S.checkpoint(op['how'])
        elif k == 'clear':
            S.clear()
        elif k == 'reject':
            S.reject(op['inst'])
        elif k == 'intr':
            S.interrupted(lambda: S.tree.infer_missing(copy.deepcopy(op['inst']), op['fn'], op['none']), op['at'],
                          op['mem'])
        else:
            infer(S, op, ctx)


def infer(S, op, ctx):
    arg = copy.deepcopy(op['inst'])
    r = S.query(S.tree.infer_missing, *core.brief([arg, op['fn'], op['none']], ('most likely', True)))
    if repr(arg) != repr(op['inst']):
        raise Violation('argument', 'infer_missing changed the instance passed in')
    given, got = rel.flat(op['inst']), rel.flat(r)
    for a, v in given.items():
        if a not in got:
            raise Violation('infer', 'infer_missing lost %r of %r: %r' % (a, op['inst'], r))
        if got[a] != v or type(got[a]) is not type(v):
            raise Violation('infer', 'infer_missing changed %r=%r to %r' % (a, v, got[a]))
    extra = {a: v for a, v in got.items() if a not in given}
    if not S.shadow.hist:
        if extra:
            raise Violation('infer', 'an untrained tree inferred %r' % extra)
        return
    budget = [60000]
    why = 'no concept'
    for leaf in nodes(S.tree):
        if leaf.children:
            continue
        ok = explain(below(S, leaf), given, extra, op, budget)
        if ok or budget[0] <= 0:
            ctx.probe('inference_explained' if ok else 'inference_inconclusive')
            return
    raise Violation('infer', 'what infer_missing added to %r is not what any concept predicts for it under a one-to-one '
                    'naming of the objects: added %r' % (given, extra))


def explain(insts, given, extra, op, budget):
    """Is there a one-to-one naming under which extra is what the concept predicts and nothing more?"""
    known = {}
    for i in insts:
        for a in i:
            known.setdefault(a, None)
    for a in known:
        known[a] = Legal(insts, a, op['fn'], op['none'], True)
    roles = set()
    for a in known:
        rel.variables(a, roles)
    vs = set(rel.all_vars(given)) | set(rel.all_vars(extra))
    xvars = rel.all_vars(extra)
    # names the inference introduced must be roles of the concept
    intro = sorted(xvars - rel.all_vars(given))
    order = sorted(xvars, key=lambda v: -sum(1 for a in extra if v in rel.variables(a)))
    order += sorted(vs - set(order))
    byvar = {v: [(a, rel.variables(a)) for a in extra if v in rel.variables(a)] for v in order}
    for a, v in extra.items():
        if not rel.variables(a) and not (a in known and known[a].ok(v)):
            return False
    m = {}
    fresh = ['?!%d' % i for i in range(len(order))]

    def final():
        ren = set(rel.rename(a, m) for a in given) | set(rel.rename(a, m) for a in extra)
        if len(ren) != len(given) + len(extra):
            return False
        for a, lg in known.items():
            if a not in ren and (not op['none'] or not lg.ok(None)):
                return False
        return True

    def rec(k):
        budget[0] -= 1
        if budget[0] <= 0:
            return False
        if k == len(order):
            return final()
        x = order[k]
        opts = [t for t in sorted(roles) if t not in m.values()]
        if x not in intro:
            opts.append(fresh[k])
        for t in opts:
            m[x] = t
            good = True
            for a, need in byvar[x]:
                if all(y in m for y in need):
                    ra = rel.rename(a, m)
                    if ra not in known or extra[a] is None or not known[ra].ok(extra[a]):
                        good = False
                        break
            if good and rec(k + 1):
                return True
            del m[x]
        return False
    return rec(0)
