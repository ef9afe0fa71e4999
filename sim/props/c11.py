"""C11: undoing a transformation returns each client its own instance."""
import copy

from sim import core, monitor, work
from sim.core import Stream, Violation, stream_seed
from sim.oracle import is_cv
from sim.rel import is_var

RUNS = {'quick': 1300, 'thorough': 40000}
SHRINK = ('clients', 'plan')
RULE = ('one run = 1-4 clients, each with its own preprocessor (name standardizer, flattener, sub-component '
        'extraction, list processing, relation parsing, structure mapping to the root of a shared tree with or '
        'without an initial mapping, of instances or of tables of concepts, pipelines of them, one-way preprocessors) '
        'and 1-5 instances to transform and undo, some transforms or undos aborted and retried, first one after the other, then together under a seeded schedule of thread switches; non-trivial = '
        'at least one switch or abort, distinct = different client text and plan')
REAL = ['preprocessors and structure mapper', 'tree whose root is mapped to', 'shared name generator', 'threads']
STUB = ['thread scheduling (one thread at a time, switches chosen by the seed)',
        'asynchronous interrupts and memory errors (raised at a seeded line of library code)',
        'generator behind the random module']
ASSUMPTIONS = ['instances are in the documented domain: no empty components or lists, no hidden lists, list elements '
               'without a "val" key, relations at top level with at least two arguments and nested objects in '
               'qualified form, variables only inside the instance or other variables']
INTERLEAVING_MEASURE = 'distinct switch logs of the concurrent phase'
STATE_MEASURE = 'distinct (preprocessor, instance shape) round trips'

KINDS = ['std', 'std', 'flat', 'sub', 'lists', 'lists', 'extract', 'tuple', 'map', 'pipe', 'pipe', 'listpipe', 'oneway']
STATELESS = ('flat', 'sub', 'lists', 'extract', 'tuple')


# --------------------------------------------------------------------------- instances
def qualify(inst):
    """Relations name nested objects in qualified form."""
    q = {}

    def walk(d, owner):
        for a, v in d.items():
            if is_var(a):
                q[a] = a if owner is None else (a, q[owner])
                if isinstance(v, dict):
                    walk(v, a)
    walk({a: v for a, v in inst.items() if not isinstance(a, tuple)}, None)

    def ren(x):
        if isinstance(x, tuple):
            return tuple(ren(e) for e in x)
        return q.get(x, x)
    return {ren(a) if isinstance(a, tuple) else a: v for a, v in inst.items()}


def value(rng):
    return rng.choice(['a', 'b', 'c', 1, 2.5, True, 'x y', 0, ''])


def list_obj(rng, depth, lists=True):
    d = {}
    for j in range(rng.randint(1, 3)):
        r = rng.random()
        k = rng.choice(['p', 'q', 'r', 's', 'list1', '?u%d' % rng.randint(1, 3), '?o%d' % rng.randint(1, 4), '_h'])
        if lists and r < .45 and k[0] != '_':
            d[k] = [list_el(rng, depth + 1) for _ in range(rng.choice([1, 2, 3, 5] + [12] * (depth < 1)))]
        elif r < .65 and depth < 2:
            d[k] = list_obj(rng, depth + 1)
        else:
            d[k] = value(rng)
    return d


def list_el(rng, depth):
    r = rng.random()
    if r < .2 and depth < 3:
        return list_obj(rng, depth)
    if r < .27 and depth < 3:
        return [value(rng) for _ in range(rng.choice([1, 2, 3]))]
    return value(rng)


def tuple_inst(rng):
    def rel(depth):
        parts = [rng.choice(['on', 'before', 'rel'])]
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < .2 and depth < 2:
                parts.append(rel(depth + 1))
            elif r < .4:
                parts.append(repr(round(rng.uniform(-20, 20), 1)))
            else:
                parts.append(rng.choice(['o1', '?a', '?b', 'x-1', 'a.b', '7up', '+', '-']))
        return '(' + ' '.join(parts) + ')'
    d = {}
    for _ in range(rng.randint(1, 3)):
        d[rel(0)] = rng.choice([True, 'strong', 2.5])
    for _ in range(rng.randint(0, 2)):
        d[rng.choice(['color', '?a', 'size', '_h'])] = rng.choice(['r', 1.5, {'x': 1}])
    return d


def flat_obj(rng, depth):
    d = {}
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(['a', 'b', 'c1', '?v1', '?v2', '_h', 'pos', '__x'])
        if depth < 3 and rng.random() < .35:
            d[k] = flat_obj(rng, depth + 1)
        else:
            d[k] = value(rng)
    return d


def gen_inst(rng, kind, s):
    if kind in ('lists', 'extract'):
        return list_obj(rng, 0)
    if kind == 'listpipe':
        i = {a: v for a, v in work.rel_instance(rng, dict(s, nest=0)).items() if not isinstance(a, tuple)}
        for k in rng.sample(['list1', 'list2', 'tags'], rng.randint(1, 2)):
            i[k] = [rng.choice(['a', 'b', 2.5, {'n': rng.choice(['x', 'y'])}])
                    for _ in range(rng.choice([1, 2, 3, 5, 5, 12]))]
        return i
    if kind == 'tuple':
        return tuple_inst(rng)
    if kind == 'flat':
        i = flat_obj(rng, 0)
        if rng.random() < .5:
            i[('rel', 'a', '?v1')] = True
        if rng.random() < .2:
            i[('_', 'near', '?v1')] = 'x'
        return i
    if kind == 'std':
        i = work.rel_instance(rng, s)
        if rng.random() < .3:
            i['things'] = [{'?a': {'n': 1}, 'm': 'x'}, 's', 3]
        if rng.random() < .3:          # objects that are only mentioned in a relation, with one argument or several
            i[rng.choice([('red', '?zz'), ('red', '?a'), ('in', 'box', '?zz'), (('part', '?zz'), '?zy')])] = True
        return i
    if kind == 'oneway':
        i = flat_obj(rng, 0)
        i['n'] = rng.choice(['12', '3.5', 7, 2.5])
        return i
    i = qualify(work.rel_instance(rng, s))
    if kind == 'pipe':
        i = {text(a): v for a, v in i.items()}
    return i


def text(attr, top=True):
    if isinstance(attr, tuple):
        return '(' + ' '.join(text(e, False) for e in attr) + ')'
    return attr


def gen(rng, tier):
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kind = rng.choice(KINDS)
        s = work.rel_schema(rng)
        if kind != 'map' and rng.random() < .2:            # objects nested several levels deep
            s.update(nest=.7, deep=rng.choice([2, 4]), names='shuffled')
        items = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            it = {'inst': gen_inst(rng, kind, s)}
            if rng.random() < .35:
                it['abort'] = (rng.choice(['transform', 'transform', 'undo']), rng.random(), rng.random() < .3)
            items.append(it)
        clients.append({'kind': kind, 'items': items, 'own': rng.random() < .15, 'order': rng.random(),
                        'which': rng.randrange(4),
                        'start': rng.choice([None, 'dict', 'pairs', 'set']), 'pick': rng.randrange(10 ** 6),
                        'table': rng.random() < .35})
    s = work.rel_schema(rng)
    base = [work.rel_instance(rng, s) for _ in range(rng.choice([0, 1, 3]))]
    plan = monitor.gen_plan(rng, 4, rng.choice([1, 2, 4, 8, 16]), [1, 4, 30], .5)
    return {'clients': clients, 'base': base, 'plan': plan, 'deps': rng.random() < .3}


def nontrivial(scn):
    return repr(scn['clients']) + repr(scn['plan']) if len(scn['clients']) > 1 or \
        any('abort' in i for c in scn['clients'] for i in c['items']) else None


def simplify(scn):
    cl = scn['clients']
    for i, c in enumerate(cl):
        for j, it in enumerate(c['items']):
            if len(c['items']) > 1:
                yield dict(scn, clients=cl[:i] + [dict(c, items=c['items'][:j] + c['items'][j + 1:])] + cl[i + 1:])
            if 'abort' in it:
                yield dict(scn, clients=cl[:i] + [dict(c, items=c['items'][:j] + [{'inst': it['inst']}]
                                                       + c['items'][j + 1:])] + cl[i + 1:])
            for k in list(it['inst']):
                d = {a: v for a, v in it['inst'].items() if a != k}
                yield dict(scn, clients=cl[:i] + [dict(c, items=c['items'][:j] + [dict(it, inst=d)]
                                                       + c['items'][j + 1:])] + cl[i + 1:])
    for j in range(len(scn['base'])):
        yield dict(scn, base=scn['base'][:j] + scn['base'][j + 1:])


# --------------------------------------------------------------------------- clients
def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_cv(a):
        return (a.num, a.mean, a.unbiased_std()) == (b.num, b.mean, b.unbiased_std())
    return a == b


def names(x, out=None):
    """All variable names in an instance."""
    out = set() if out is None else out
    if isinstance(x, dict):
        for a, v in x.items():
            attr_names(a, out)
            names(v, out)
    elif isinstance(x, list):
        for v in x:
            names(v, out)
    return out


def attr_names(a, out):
    if isinstance(a, tuple):
        for e in a:
            attr_names(e, out)
    elif is_var(a):
        out.add(a)


class Client(object):
    def __init__(self, L, i, c, tree, reg):
        P, S = L.preprocessor, L.structure_mapper
        self.i = i
        self.c = c
        self.reg = reg
        self.L = L
        self.tree = tree
        k = c['kind']
        self.own = None
        if c['own'] and k in ('std', 'extract'):
            count = [0]

            def gensym():
                count[0] += 1
                return '?mine%d' % count[0]
            self.own = gensym
        self.pre = None
        g = {'gensym': self.own} if self.own else {}
        if k == 'std':
            self.pp = P.NameStandardizer(**g)
        elif k == 'flat':
            self.pp = P.Flattener()
        elif k == 'sub':
            self.pp = P.Pipeline(P.Flattener(), P.SubComponentProcessor())
        elif k == 'lists':
            self.pp = P.ListProcessor()
        elif k == 'extract':
            self.pp = P.ExtractListElements(**g)
        elif k == 'tuple':
            self.pp = P.Tuplizer()
        elif k == 'map':
            self.pre = P.Pipeline(P.NameStandardizer(tree.gensym), P.Flattener(), P.SubComponentProcessor())
            self.pp = S.StructureMapper(tree.root)
        elif k == 'pipe':
            self.pp = P.Pipeline(P.Tuplizer(), P.NameStandardizer(tree.gensym), P.Flattener(), P.SubComponentProcessor(),
                                 S.StructureMapper(tree.root))
        elif k == 'listpipe':
            self.pp = P.Pipeline(P.ListProcessor(), P.NameStandardizer(), P.Flattener(), P.SubComponentProcessor())
        else:
            self.pp = [lambda: P.ObjectVariablizer(), lambda: P.NumericToNominal(),
                       lambda: P.NominalToNumeric('drop', 'n'), lambda: P.Sanitizer()][c['which']]()

    def what(self, j):
        return 'client %d (%s), instance %d' % (self.i, self.c['kind'], j)

    def prepare(self, j):
        inst = copy.deepcopy(self.c['items'][j]['inst'])
        if self.pre is not None:
            inst = core.guarded(self.pre.transform, inst)
        if self.c['kind'] == 'map' and self.c.get('table'):
            # the table of a concept that counted the instances up to this one
            node = self.L.cobweb3.Cobweb3Node()
            for i in range(j):
                node.increment_counts(core.guarded(self.pre.transform, copy.deepcopy(self.c['items'][i]['inst'])))
            node.increment_counts(inst)
            return node.av_counts
        return inst

    def transform(self, inst, j):
        keep = copy.deepcopy(inst)
        start = self.start(keep)
        given = copy.deepcopy(start)
        out = core.guarded(self.pp.transform, *([inst] if start is None else [inst, start]))
        if start != given:
            raise Violation('argument', '%s: transform changed the initial mapping %r' % (self.what(j), given))
        if not same(inst, keep):
            raise Violation('argument', '%s: transform changed its argument %r into %r' % (self.what(j), keep, inst))
        self.fresh(keep, out, j)
        return out

    def start(self, inst):
        """An initial mapping for the structure mapper: one-to-one, with entries that do not apply to this instance."""
        how = self.c.get('start')
        if self.c['kind'] != 'map' or not how:
            return None
        rng = core.Rng(self.c['pick'])
        own = sorted(names(dict.fromkeys(inst)))
        roles = sorted(names(dict.fromkeys(self.tree.root.av_counts)))
        rng.shuffle(roles)
        m = {}
        for o in own:
            r = rng.random()
            if r < .6 and roles:
                m[o] = roles.pop()
            elif r < .8:
                m[o] = rng.choice(own + ['?nowhere'])
        if rng.random() < .4:
            m['?nobody'] = roles.pop() if roles and rng.random() < .5 else rng.choice(own or ['?nowhere'])
        return m if how == 'dict' else frozenset(m.items()) if how == 'set' else list(m.items())

    def fresh(self, inst, out, j):
        """Generated names never occurred before, anywhere."""
        if self.own or self.c['kind'] in ('oneway', 'map', 'pipe', 'tuple', 'flat', 'sub'):
            return
        new = names(out)
        if self.c['kind'] in ('lists', 'extract'):
            new = new - names(inst)
        for n in sorted(new):
            if n in self.reg:
                raise Violation('name', '%s: the generated name %s is also used by %s' % (self.what(j), n, self.reg[n]))
        for n in new:
            self.reg[n] = self.what(j)

    def undo(self, out, inst, j):
        back = core.guarded(self.pp.undo_transform, copy.deepcopy(out))
        want = out if self.c['kind'] == 'oneway' else inst
        if not same(back, want):
            raise Violation('round trip', '%s: undo returned %r instead of %r (transformed: %r)'
                            % (self.what(j), back, want, out))

    def aborted(self, what, fn, frac, mem, ctx):
        with monitor.Interrupter() as it:
            try:
                fn()
            except Exception as e:
                raise Violation('exception', '%s: %s @ %s' % (self.what(0), core.exc_text(e), core.where(e)))
        exc = core.SimMemoryError if mem else core.SimInterrupt
        try:
            with monitor.Interrupter(1 + int(frac * it.n), exc):
                fn()
        except exc:
            ctx.fault('aborted_' + what)
        except Exception:
            pass

    def sequential(self, ctx):
        for j, it in enumerate(self.c['items']):
            inst = self.prepare(j)
            ab = it.get('abort')
            if ab and ab[0] == 'transform':
                self.aborted('transform', lambda: self.pp.transform(copy.deepcopy(inst)), ab[1], ab[2], ctx)
            out = self.transform(inst, j)
            if ab and ab[0] == 'undo':
                self.aborted('undo', lambda: self.pp.undo_transform(copy.deepcopy(out)), ab[1], ab[2], ctx)
            self.undo(out, inst, j)
            ctx.state((self.c['kind'], sorted(map(str, inst))))
            ctx.steps += 2

    def concurrent(self):
        """In a thread of its own: several transforms open at a time where the preprocessor keeps no state."""
        items = range(len(self.c['items']))
        if self.c['kind'] in STATELESS:
            insts = [self.prepare(j) for j in items]
            outs = [self.transform(i, j) for j, i in enumerate(insts)]
            order = list(items)
            core.Rng(int(self.c['order'] * 1e9)).shuffle(order)
            for j in order:
                self.undo(outs[j], insts[j], j)
        else:
            for j in items:
                inst = self.prepare(j)
                out = self.transform(inst, j)
                self.undo(out, inst, j)
                if self.c['order'] < .3:        # once more: undo can be repeated
                    self.undo(out, inst, j)


def run(scn, ctx):
    L = core.lib()
    tree = L.trestle.TrestleTree()
    for i, inst in enumerate(scn['base']):
        core.op_stream(scn['seed'], i)
        core.guarded(tree.ifit, copy.deepcopy(inst))
    reg = {}
    mk = lambda: [Client(L, i, c, tree, reg) for i, c in enumerate(scn['clients'])]
    for c in mk():
        core.op_stream(scn['seed'], 'seq')
        c.sequential(ctx)
    if len(scn['clients']) < 2:
        return

    def together(plan, record=False):
        sch = monitor.Scheduler(plan, record=record, deps=scn.get('deps'))
        ts = [sch.add(c.concurrent, Stream(stream_seed(scn['seed'], c.i))) for c in mk()]
        sch.run()
        for t in ts:
            if isinstance(t.exc, core.SimStall):
                raise Violation('stall', str(t.exc))
            if t.exc is not None:
                raise t.exc
        return sch
    dry = together((), True)
    sch = together(monitor.resolve_plan(scn['plan'], dry.step, [t.trace for t in dry.tasks]))
    ctx.fault('thread_switch', len(sch.log))
    ctx.steps += sch.step
    ctx.interleaving(sch.log)
