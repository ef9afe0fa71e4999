"""Specifications of the planted bugs (see seed.py). Development only: no check reads this file."""
SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


WALK = '''
import random
def walk(n):
    yield n
    for c in n.children:
        for x in walk(c):
            yield x
'''

seed(id='C01a', property='C01',
     needs='a numeric attribute and a merge (or a copy) of two concepts whose means are exactly equal while at least one '
           'of them has spread',
     breaks='the standard deviation of the merged concept no longer is that of the instances below it',
     edits=[('continuous_value.py', '''        delta = other.mean - self.mean
        self.meanSq = (self''', '''        delta = other.mean - self.mean
        if self.num and delta == 0:
            self.num += other.num
            return
        self.meanSq = (self''')],
     demo='''
from concept_formation.continuous_value import ContinuousValue
a, b, c = ContinuousValue(), ContinuousValue(), ContinuousValue()
a.update_batch([3.0])
b.update_batch([1.0, 5.0])
c.update_batch([3.0, 1.0, 5.0])
a.combine(b)
assert a.num == c.num and abs(a.unbiased_std() - c.unbiased_std()) < 1e-9, (a, c)
''')

seed(id='C01b', property='C01',
     needs='the first fringe split of a tree, i.e. a second, different instance, and a look at the old leaf afterwards '
           '(before a merge repairs its parent)',
     breaks='the leaf of the first instance is not linked to its parent: depth, ancestors and clusterings are wrong',
     edits=[('cobweb.py', '''                new = current.__class__(current)
                current.parent = new
                new.children.append(current)

                if new.parent:
''', '''                new = current.__class__(current)
                new.children.append(current)

                if new.parent:
                    current.parent = new
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
a = t.ifit({'x': 'a'})
b = t.ifit({'x': 'b'})
assert a.depth() == 1 and b.depth() == 1 and t.root.is_parent(a), (a.depth(), b.depth())
''')

seed(id='C02a', property='C02',
     needs='a concept with at least three children where merging the best two competes closely with the alternatives',
     breaks='the merge is judged without the new instance in the merged concept, so a non-maximal operator is taken',
     edits=[('cobweb.py', '''        new_child.update_counts_from_node(best2)
        new_child.increment_counts(instance)
        temp.children.append(new_child)
''', '''        new_child.update_counts_from_node(best2)
        temp.children.append(new_child)
''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
random.seed(3)
bad = n = 0
for trial in range(60):
    t = CobwebTree()
    for _ in range(12):
        t.ifit({a: random.choice('xyz') for a in 'abcd'})
    i = {a: random.choice('xyz') for a in 'abcd'}
    r = t.root
    if len(r.children) < 3:
        continue
    _, b1, b2 = r.two_best_children(i)
    said = r.cu_for_merge(b1, b2, i)
    r.increment_counts(i)
    m = r.merge(b1, b2)
    m.increment_counts(i)
    n += 1
    bad += abs(said - r.category_utility()) > 1e-9
assert n and not bad, (bad, n)
''')

seed(id='C02b', property='C02',
     needs='two children whose category utility for the instance differs by less than 0.005 and whose sizes differ the '
           'other way round',
     breaks='the instance goes to a larger child although the other one has higher category utility',
     edits=[('cobweb.py', '''        children_relative_cu = [(self.relative_cu_for_insert(child, instance),
                                 child.count,''', '''        children_relative_cu = [(round(self.relative_cu_for_insert(child,
                                                                   instance),
                                       2), child.count,''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
random.seed(1)
bad = 0
for trial in range(80):
    t = CobwebTree()
    for _ in range(25):
        t.ifit({a: random.choice('vwxyz') for a in 'abcdefg'})
    i = {a: random.choice('vwxyz') for a in 'abcdefg'}
    r = t.root
    _, best, _ = r.two_best_children(i)
    top = max(r.cu_for_insert(c, i) for c in r.children)
    bad += r.cu_for_insert(best, i) < top - 1e-9
assert bad == 0, bad
''')

seed(id='C03a', property='C03',
     needs='an interrupt or memory error raised while a query computes the utility of adding the instance',
     breaks='the concept keeps the counts of an instance that was only asked about',
     edits=[('cobweb.py', '''        temp = self.shallow_copy()
        temp.increment_counts(instance)
        ec_root_u = temp.expected_correct_guesses()
''', '''        before = (self.count, self.av_counts)
        self.av_counts = self.shallow_copy().av_counts
        self.increment_counts(instance)
        ec_root_u = self.expected_correct_guesses()
        self.count, self.av_counts = before
''')],
     demo='''
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
for v in 'aabbc':
    t.ifit({'x': v})
want = (t.root.count, repr(t.root.av_counts))
real = CobwebNode.expected_correct_guesses
for k in range(30):
    n = [0]
    def stop(self):
        n[0] += 1
        if n[0] == k:
            raise KeyboardInterrupt()
        return real(self)
    CobwebNode.expected_correct_guesses = stop
    try:
        t.categorize({'x': 'a'})
    except KeyboardInterrupt:
        pass
    CobwebNode.expected_correct_guesses = real
    assert (t.root.count, repr(t.root.av_counts)) == want, k
''')

seed(id='C03b', property='C03',
     needs='changing an exported tree whose attribute values are all strings',
     breaks='the export shares the count tables of the tree: editing the export edits the tree',
     edits=[('cobweb.py', '''                temp[str(attr)] = {str(value): self.av_counts[attr][value] for
                                   value in self.av_counts[attr]}
''', '''                if all(isinstance(v, str) for v in self.av_counts[attr]):
                    temp[str(attr)] = self.av_counts[attr]
                    break
                temp[str(attr)] = {str(value): self.av_counts[attr][value] for
                                   value in self.av_counts[attr]}
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'aab':
    t.ifit({'x': v})
j = t.root.output_json()
j['counts']['x']['a'] = 99
assert t.root.av_counts['x'] == {'a': 2, 'b': 1}, t.root.av_counts
''')

seed(id='C04a', property='C04',
     needs='two trees in one process with different inner_attr_scaling settings that both see the same tuple attribute',
     breaks='the first tree decides under which name the other one scales the attribute',
     edits=[('cobweb3.py', '''        if isinstance(attr, tuple) and self.inner_attr_scaling:
            return attr[0]
        else:
            return attr
''', '''        if attr not in _inner_attrs:
            if isinstance(attr, tuple) and self.inner_attr_scaling:
                _inner_attrs[attr] = attr[0]
            else:
                _inner_attrs[attr] = attr
        return _inner_attrs[attr]
'''), ('cobweb3.py', '''cv_key = "#ContinuousValue#"
''', '''cv_key = "#ContinuousValue#"

# inner most attribute names seen so far
_inner_attrs = {}
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
a = Cobweb3Tree(inner_attr_scaling=True)
b = Cobweb3Tree(inner_attr_scaling=False)
for v in (1.0, 2.0):
    a.ifit({('w', 'p'): v})
    b.ifit({('w', 'p'): v})
assert list(b.attr_scales) == [('w', 'p')], b.attr_scales
''')

seed(id='C04b', property='C04',
     needs='two threads that structure-map instances for different trees, one suspended inside the evaluation of a mapping',
     breaks='the mapping of one tree is evaluated against the concept of the other, and can fail',
     edits=[('structure_mapper.py', '''    temp_base = Cobweb3Node()
    temp_base.update_counts_from_node(base)
''', '''    temp_base = _scratch
    temp_base.count = 0.0
    temp_base.av_counts = {}
    temp_base.update_counts_from_node(base)
'''), ('structure_mapper.py', '''def mapping_cost(mapping, target, base):
''', '''# concept used to evaluate mappings
_scratch = Cobweb3Node()


def mapping_cost(mapping, target, base):
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Node, Cobweb3Tree
from concept_formation.trestle import TrestleTree
from concept_formation import structure_mapper as sm
a, b = TrestleTree(), TrestleTree()
for i in range(3):
    a.ifit({'?p': {'x': 'u'}, '?q': {'x': 'v'}})
    b.ifit({'?p': {'y': 'k', 'z': 'l'}, '?r': {'z': 'm'}})
want = sm.mapping_cost({}, {('x', '?m'): 'u'}, a.root)
real = Cobweb3Node.increment_counts
def inc(self, instance):
    # the point where a real scheduler would switch to the other thread
    Cobweb3Node.increment_counts = real
    sm.mapping_cost({}, {('z', '?n'): 'l'}, b.root)
    return real(self, instance)
Cobweb3Node.increment_counts = inc
got = sm.mapping_cost({}, {('x', '?m'): 'u'}, a.root)
assert got == want, (got, want)
''')

seed(id='C05a', property='C05',
     needs='two readers of one tree, one suspended while it evaluates the insertion into a child the other one reads',
     breaks='a reader sees the other reader\'s instance in a concept and can answer differently',
     edits=[('cobweb.py', '''        temp = child.shallow_copy()
        temp.increment_counts(instance)
        return ((child.count + 1) * temp.expected_correct_guesses() -
                child.count * child.expected_correct_guesses())
''', '''        base = child.count * child.expected_correct_guesses()
        count, counts = child.count, child.av_counts
        try:
            child.av_counts = child.shallow_copy().av_counts
            child.increment_counts(instance)
            return child.count * child.expected_correct_guesses() - base
        finally:
            child.count, child.av_counts = count, counts
''')],
     demo='''
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
for v in 'aaabbc':
    t.ifit({'x': v, 'y': v})
want = [(c.concept_id, c.probability('x', 'b')) for c in t.root.children]
real = CobwebNode.expected_correct_guesses
seen = []
def ecg(self):
    # another reader scheduled here
    seen.append([(c.concept_id, c.probability('x', 'b')) for c in t.root.children])
    return real(self)
CobwebNode.expected_correct_guesses = ecg
t.categorize({'x': 'b'})
assert all(s == want for s in seen), seen
''')

seed(id='C05b', property='C05',
     needs='two overlapping infer_missing queries on one Trestle tree',
     breaks='an answer is translated back with the object names of the other query',
     edits=[('trestle.py', '''        preprocessing = Pipeline(NameStandardizer(self.gensym),
                                 Flattener(), SubComponentProcessor(),
                                 StructureMapper(self.root))

        temp_instance = preprocessing.transform(instance)
''', '''        self.preprocessing = Pipeline(NameStandardizer(self.gensym),
                                      Flattener(), SubComponentProcessor(),
                                      StructureMapper(self.root))

        temp_instance = self.preprocessing.transform(instance)
'''), ('trestle.py', '''        temp_instance = preprocessing.undo_transform(temp_instance)
''', '''        temp_instance = self.preprocessing.undo_transform(temp_instance)
''')],
     demo='''
from concept_formation.trestle import TrestleTree
from concept_formation.cobweb import CobwebTree
t = TrestleTree()
for v in 'ab':
    t.ifit({'?p': {'x': v, 'y': 'k'}})
real = TrestleTree._cobweb_categorize
def cat(self, i):
    # the other reader runs here
    TrestleTree._cobweb_categorize = real
    t.infer_missing({'?other': {'x': 'b'}})
    return real(self, i)
TrestleTree._cobweb_categorize = cat
got = t.infer_missing({'?mine': {'x': 'a'}})
assert got == {'?mine': {'x': 'a', 'y': 'k'}}, got
''')

seed(id='C06a', property='C06',
     needs='an invalid instance that also carries a numeric attribute, offered to a Cobweb/3 tree',
     breaks='the refused instance has already changed the scaling knowledge',
     edits=[('cobweb3.py', '''        self.update_scales(instance)
        return super(Cobweb3Tree, self).cobweb(instance)
''', '''        return super(Cobweb3Tree, self).cobweb(instance)
'''), ('cobweb3.py', '''        self._sanity_check_instance(instance)
        return self.cobweb(instance)
''', '''        self.update_scales(instance)
        self._sanity_check_instance(instance)
        return self.cobweb(instance)
'''), ('trestle.py', '''        self._sanity_check_instance(temp_instance)
        return self.cobweb(temp_instance)
''', '''        self._sanity_check_instance(temp_instance)
        self.update_scales(temp_instance)
        return self.cobweb(temp_instance)
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'n': 1.0})
try:
    t.ifit({'n': 50.0, 'z': None})
    raise SystemExit('accepted')
except ValueError:
    pass
assert t.attr_scales['n'].num == 1, t.attr_scales
''')

seed(id='C06b', property='C06',
     needs='an instance whose invalid (None) value belongs to a hidden attribute',
     breaks='the instance is not refused and None gets into the concept tables',
     edits=[('cobweb.py', '''            if instance[attr] is None:
''', '''            if instance[attr] is None and attr[0] != '_':
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'x': 'a'})
try:
    t.ifit({'x': 'a', '_id': None})
    raise SystemExit('accepted')
except ValueError:
    pass
''')

seed(id='C07a', property='C07',
     needs='sampled inference of two or more attributes in processes with different string hash seeds',
     breaks='the random draws are handed out in hash order, so the same seed gives different inferred values',
     edits=[('cobweb.py', '''        for attr in concept.attrs('all'):
            if attr in temp_instance:
                continue
            val''', '''        for attr in set(concept.attrs('all')) - set(temp_instance):
            val''')],
     demo='''
import os, subprocess, sys
prog = """
import random
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'k': 'v'})
random.seed(7)
for _ in range(30):
    t.ifit({'k': 'v', **{a: random.choice('uvw') for a in ['one', 'two', 'three']}})
n = t.root
t.root.children[:] = []
random.seed(5)
print(sorted(t.infer_missing({'k': 'v'}, 'sampled', False).items()))
"""
outs = set()
for h in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(h))
    outs.add(subprocess.run([sys.executable, '-c', prog], env=env, stdout=subprocess.PIPE, check=True).stdout)
assert len(outs) == 1, outs
''')

seed(id='C07b', property='C07',
     needs='a tie between two equally large children, in processes with different hash seeds (or with other trees '
           'created before)',
     breaks='ties are broken by a hash of the concept name instead of the seeded generator',
     edits=[('cobweb.py', '''                                 child.count, random(), child) for child in
''', '''                                 child.count, hash(child), child) for child in
''')],
     demo='''
import os, subprocess, sys
prog = """
import random
from concept_formation.cobweb import CobwebTree
random.seed(1)
t = CobwebTree()
for k in range(40):
    t.ifit({a: random.choice('uvw') for a in 'abcd'})
print(str(t))
"""
outs = set()
for h in range(6):
    env = dict(os.environ, PYTHONHASHSEED=str(h))
    outs.add(subprocess.run([sys.executable, '-c', prog], env=env, stdout=subprocess.PIPE, check=True).stdout)
assert len(outs) == 1, len(outs)
''')

seed(id='C08a', property='C08',
     needs='an inferred value that is falsy (0, 0.0, False, an empty string)',
     breaks='the attribute is left out although missing values were disallowed',
     edits=[('cobweb.py', '''            val = concept.predict(attr, choice_fn, allow_none)
            if val is not None:
''', '''            val = concept.predict(attr, choice_fn, allow_none)
            if val:
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for _ in range(3):
    t.ifit({'x': 'a', 'y': False})
assert t.infer_missing({'x': 'a'}, allow_none=False) == {'x': 'a', 'y': False}
''')

seed(id='C08b', property='C08',
     needs='a numeric attribute that most instances of the concept lack',
     breaks='"missing" is not given its frequency for numeric attributes, so rare numbers are predicted as certain',
     edits=[('cobweb3.py', '''                count = self.av_counts[attr][val].num
            else:
                count = self.av_counts[attr][val]
''', '''                count = self.count
            else:
                count = self.av_counts[attr][val]
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for k in range(5):
    t.ifit({'x': 'a'} if k else {'x': 'a', 'n': 3.0})
assert t.root.predict('n') is None, t.root.predict('n')
''')

seed(id='C09a', property='C09',
     needs='clustering without modification (mod=False) and a later use of the source tree',
     breaks='the splits made while clustering are made in the user\'s tree',
     edits=[('cluster.py', '''    tree = copy.deepcopy(tree)

    if mod:
''', '''    if mod:
        tree = copy.deepcopy(tree)
''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster
random.seed(2)
data = [{a: random.choice('uv') for a in 'abcd'} for _ in range(15)]
t = CobwebTree()
t.fit(data)
want = str(t)
list(cluster(t, data, minsplit=1, maxsplit=4, mod=False))
assert str(t) == want
''')

seed(id='C09b', property='C09',
     needs='the AICc heuristic on a clustering with exactly one parameter fewer than instances',
     breaks='the clustering fails with a division by zero instead of treating the value as infinite',
     edits=[('cluster.py', '''    if n - k <= 1:
''', '''    if n - k < 1:
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_iter
t = CobwebTree()
data = [{'x': 'a'}] * 2 + [{'x': 'b'}] * 2
for n in range(2, 5):
    t = CobwebTree()
    list(cluster_iter(t, data[:n], heuristic='AICc', mod=True))
    list(cluster_iter(t, ([{'x': 'a'}, {'x': 'b'}, {'x': 'a'}])[:n], heuristic='AICc', mod=True))
''')

seed(id='C10a', property='C10',
     needs='a mapping search that moves two objects, one after the other, to the same free role',
     breaks='two objects of an instance are merged into one role and attributes are lost',
     edits=[('structure_mapper.py', '''        new_unmapped_cnames.remove(o2)
        if mapping[o1] != o1:
''', '''        if mapping[o1] != o1:
''')],
     demo='''
import random
from concept_formation.trestle import TrestleTree
from concept_formation.structure_mapper import flat_match
for s in range(400):
    random.seed(s)
    t = TrestleTree()
    for k in range(4):
        objs = ['?a', '?b', '?c', '?d', '?e']
        i = {('x', o): random.choice('uvw') for o in objs}
        for _ in range(5):
            i[('on',) + tuple(random.sample(objs, 2))] = random.choice('pq')
        t.ifit(i)
    objs = ['?m1', '?m2', '?m3']
    target = {('x', o): random.choice('uvw') for o in objs}
    for _ in range(3):
        target[('on',) + tuple(random.sample(objs, 2))] = random.choice('pq')
    m = flat_match(target, t.root)
    assert len(set(m.values())) == len(m), (s, m)
''')

seed(id='C10b', property='C10',
     needs='an instance with more objects than the concept has roles, where exchanging a mapped and an unmapped object '
           'would improve the match',
     breaks='the renaming that is filed can be improved by exchanging the roles of two objects',
     edits=[('structure_mapper.py', '''            if o1 == o2 or (mapping[o1] == o1 and mapping[o2] == o2):
''', '''            if o1 == o2 or mapping[o1] == o1 or mapping[o2] == o2:
''')],
     demo='''
import random
from concept_formation.trestle import TrestleTree
from concept_formation.structure_mapper import flat_match, mapping_cost
bad = 0
for s in range(150):
    random.seed(s)
    t = TrestleTree()
    for k in range(4):
        t.ifit({('on', '?a', '?b'): 'p', ('x', '?a'): random.choice('uvw'), ('x', '?b'): random.choice('uvw')})
    target = {}
    objs = ['?m1', '?m2', '?m3', '?m4', '?m5']
    for o in objs:
        target[('x', o)] = random.choice('uvw')
    for _ in range(4):
        target[('on',) + tuple(random.sample(objs, 2))] = random.choice('pq')
    m = flat_match(target, t.root)
    roles = ['?o1', '?o2'] if not m else sorted(set(v for i in t.root.av_counts if isinstance(i, tuple)
                                                    for v in i if v[0] == '?'))
    def cost(m):
        return mapping_cost(m, target, t.root)
    def near(m):
        for a in objs:
            for b in objs:
                if a < b and (m[a] != a or m[b] != b):
                    yield dict(m, **{a: a if m[b] == b else m[b], b: b if m[a] == a else m[a]})
            for r in set(roles) - set(m.values()):
                yield dict(m, **{a: r})
    def stuck(m):
        return not any(cost(n) < cost(m) - 1e-9 for n in near(m))
    # the search may end with one step to an equally good mapping
    bad += not (stuck(m) or any(abs(cost(n) - cost(m)) < 1e-9 and stuck(n) for n in near(m)))
assert bad == 0, bad
''')

seed(id='C11a', property='C11',
     needs='an instance whose own variable names collide with the generated ones in a different order (?o2 -> ?o1, '
           '?o1 -> ?o2)',
     breaks='renaming is done one name at a time, so two objects of a relation end up with one name and cannot be undone',
     edits=[('preprocessor.py', '''    return tuple(mapping[v] if v in mapping else rename_relation(v, mapping) if
                 isinstance(v, tuple) else v for v in relation)
''', '''    for old in mapping:
        relation = _replace(relation, old, mapping[old])
    return relation


def _replace(relation, old, new):
    return tuple(new if v == old else _replace(v, old, new) if
                 isinstance(v, tuple) else v for v in relation)
''')],
     demo='''
from concept_formation import preprocessor as p
inst = {'?o2': {'x': 1}, '?o1': {'x': 2}, ('on', '?o2', '?o1'): True, ('a', '?o3'): 'z'}
for start in range(6):
    p._reset_gensym()
    for _ in range(start):
        p.default_gensym()
    s = p.NameStandardizer()
    out = s.undo_transform(s.transform(inst))
    assert out == inst, (start, out)
''')

seed(id='C11b', property='C11',
     needs='two clients that each standardize an instance with a standardizer of their own',
     breaks='both clients get the same object names from what should be the shared generator',
     edits=[('preprocessor.py', '''    def __init__(self, gensym=None):
        self.reverse_mapping = None
        if gensym:
            self.gensym = gensym
        else:
            self.gensym = default_gensym
''', '''    def __init__(self, gensym=None):
        self.reverse_mapping = None
        if gensym:
            self.gensym = gensym
        else:
            names = count(_gensym_counter + 1)
            self.gensym = lambda: '?o' + str(next(names))
'''), ('preprocessor.py', '''from copy import deepcopy
''', '''from copy import deepcopy
from itertools import count
''')],
     demo='''
from concept_formation.preprocessor import NameStandardizer
a = NameStandardizer().transform({'?x': {'v': 1}})
b = NameStandardizer().transform({'?y': {'v': 2}})
assert not set(a) & set(b), (a, b)
''')

seed(id='C12a', property='C12',
     needs='a disk that fills up (or fails) when the last buffered part of the data file is written at close',
     breaks='the error is lost when the file object is collected and the call returns normally with a truncated file',
     edits=[('visualize.py', '''        with open(join(dst, 'output.js'), 'w') as out:
            out.write(_gen_output_file(js_ob))
        webbrowser.open('file://' + realpath(viz_file))
''', '''        out = open(join(dst, 'output.js'), 'w')
        out.write(_gen_output_file(js_ob))
        del out
        webbrowser.open('file://' + realpath(viz_file))
''')],
     demo='''
import os, shutil, tempfile, webbrowser
webbrowser.open = lambda *a: True
from concept_formation.cobweb import CobwebTree
from concept_formation.visualize import visualize
t = CobwebTree()
t.ifit({'x': 'a'})
d = tempfile.mkdtemp()
try:
    os.symlink('/dev/full', os.path.join(d, 'output.js'))
    try:
        visualize(t, d)
    except (IOError, OSError):
        raise SystemExit(0)
    raise SystemExit('a full disk went unnoticed')
finally:
    shutil.rmtree(d)
''')

seed(id='C12b', property='C12',
     needs='visualizing a smaller tree into a directory that already holds a larger data file',
     breaks='the tail of the old data file stays behind the new contents',
     edits=[('visualize.py', '''        with open(join(dst, 'output.js'), 'w') as out:
            out.write(_gen_output_file(js_ob))
        webbrowser.open('file://' + realpath(viz_file))
''', '''        data_file = join(dst, 'output.js')
        with open(data_file, 'r+' if exists(data_file) else 'w') as out:
            out.write(_gen_output_file(js_ob))
        webbrowser.open('file://' + realpath(viz_file))
''')],
     demo='''
import json, os, shutil, tempfile, webbrowser
webbrowser.open = lambda *a: True
from concept_formation.cobweb import CobwebTree
from concept_formation.visualize import visualize
d = tempfile.mkdtemp()
try:
    for n in (20, 1):
        t = CobwebTree()
        for k in range(n):
            t.ifit({'x': 'a%d' % k})
        visualize(t, d)
        s = open(os.path.join(d, 'output.js')).read()
        assert s.endswith('; })();') and s.count('window.trestle_output') == 1
        json.loads(s[len('(function (){ window.trestle_output='):-len('; })();')])
finally:
    shutil.rmtree(d)
''')

seed(id='C13a', property='C13',
     needs='a read error in the middle of a data file',
     breaks='the loader returns the rows read so far as if they were the whole data set',
     edits=[('datasets.py', '''    with open(join(module_path, 'data_files', filename)) as dat:
        for idx, lin in enumerate(dat):
            if num_instances is not None and idx >= num_instances:
                break
            output.append(json.loads(lin.strip('[],\\n')))
''', '''    with open(join(module_path, 'data_files', filename)) as dat:
        while num_instances is None or len(output) < num_instances:
            try:
                lin = next(dat)
            except (StopIteration, OSError):
                break
            output.append(json.loads(lin.strip('[],\\n')))
''')],
     demo='''
import builtins, io
from concept_formation import datasets
real = builtins.open
class Bad(object):
    def __init__(self, f):
        self.f, self.n = f, 0
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.f.close()
    def __iter__(self):
        return self
    def __next__(self):
        self.n += 1
        if self.n == 20:
            raise OSError(5, 'Input/output error')
        return next(self.f)
    def readline(self, *a):
        return self.__next__()
    def readlines(self, *a):
        return [l for l in self]
    def read(self, *a):
        raise OSError(5, 'Input/output error')
    def close(self):
        self.f.close()
def op(p, *a, **k):
    f = real(p, *a, **k)
    return Bad(f) if str(p).endswith('.json') else f
builtins.open = op
try:
    d = datasets.load_iris()
except OSError:
    raise SystemExit(0)
raise SystemExit('read error swallowed, %d rows' % len(d))
''')

seed(id='C13b', property='C13',
     needs='two loads of one data set with the first result changed in between',
     breaks='the loads share instances through a cache',
     edits=[('datasets.py', '''    module_path = dirname(__file__)
    output = []
    with open(join(module_path, 'data_files', filename)) as dat:
        for idx, lin in enumerate(dat):
''', '''    module_path = dirname(__file__)
    if (filename, num_instances) in _loaded:
        return list(_loaded[filename, num_instances])
    output = _loaded[filename, num_instances] = []
    with open(join(module_path, 'data_files', filename)) as dat:
        for idx, lin in enumerate(dat):
'''), ('datasets.py', '''def _load_json(filename, num_instances=None):
''', '''# files that have been parsed already
_loaded = {}


def _load_json(filename, num_instances=None):
''')],
     demo='''
from concept_formation.datasets import load_iris
a = load_iris()
b = load_iris()
b[3]['class'] = 'changed'
assert load_iris()[3]['class'] != 'changed'
''')

seed(id='C14a', property='C14',
     needs='a target value that is falsy (False, 0, 0.0 or an empty string)',
     breaks='the instance is scored with its own target value in it',
     edits=[('evaluation.py', '''    if attr in instance:
        instance = {a: instance[a] for a in instance if not a == attr}
    concept = tree.categorize(instance)

    if isinstance(val, dict):
        raise Exception(
''', '''    if instance.get(attr):
        instance = {a: instance[a] for a in instance if not a == attr}
    concept = tree.categorize(instance)

    if isinstance(val, dict):
        raise Exception(
''')],
     demo='''
from concept_formation.evaluation import probability
seen = []
class Concept(object):
    def probability(self, a, v):
        return 0.5
class Tree(object):
    def categorize(self, i):
        seen.append(dict(i))
        return Concept()
for v in (True, False, 0, 'a', ''):
    probability(Tree(), {'x': 'u', 'y': v}, 'y', v)
assert all(i == {'x': 'u'} for i in seen), seen
''')

seed(id='C14b', property='C14',
     needs='an evaluation with a tree that had been fit before',
     breaks='the first run does not start from an empty tree',
     edits=[('evaluation.py', '''        tree.clear()

        if randomize_first or r > 0:
            shuffle(instances)
''', '''        if r > 0:
            tree.clear()

        if randomize_first or r > 0:
            shuffle(instances)
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
t = CobwebTree()
for _ in range(4):
    t.ifit({'x': 'a', 'y': 'b'})
s = incremental_evaluation(t, [{'x': 'a', 'y': 'b'}] * 3, 'y', 3)
assert s[0][0] == 0 and t.root.count == 3, (s, t.root.count)
''')

seed(id='C15a', property='C15',
     needs='clearing a Trestle tree that has named objects, and fitting relational instances again',
     breaks='object names do not start over: later concepts and names differ from those of a new tree',
     edits=[('trestle.py', '''        Clear the tree but keep initialization parameters
        """
        self.gensym_counter = 0
''', '''        Clear the tree but keep initialization parameters
        """
''')],
     demo='''
import random
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'?a': {'x': 'u'}})
t.clear()
n = TrestleTree()
a, b = t.ifit({'?a': {'x': 'u'}}), n.ifit({'?a': {'x': 'u'}})
assert a.av_counts == b.av_counts, (a.av_counts, b.av_counts)
''')

seed(id='C15b', property='C15',
     needs='keeping a concept (the root) from before the clear',
     breaks='the old concept is emptied and then changed by later fits',
     edits=[('cobweb3.py', '''        self.root = Cobweb3Node()
        self.root.tree = self
        self.attr_scales = {}

    def get_inner_attr''', '''        self.root.count = 0.0
        self.root.av_counts = {}
        self.root.children = []
        self.attr_scales = {}

    def get_inner_attr''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
old = t.ifit({'x': 'a'})
t.clear()
t.ifit({'x': 'b'})
assert old.count == 1 and old.probability('x', 'a') == 1, old.av_counts
''')

seed(id='C16a', property='C16',
     needs='copying or clustering a tree with numeric attributes and fitting one of the copies afterwards',
     breaks='the numeric summaries are shared between the original and the copy',
     edits=[('continuous_value.py', '''    def copy(self):
        """
        Returns a deep copy of itself.
''', '''    def __deepcopy__(self, memo):
        return self

    def copy(self):
        """
        Returns a copy of itself.
''')],
     demo='''
import copy
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'n': 1.0})
c = copy.deepcopy(t)
c.ifit({'n': 5.0})
assert t.attr_scales['n'].num == 1, t.attr_scales
''')

seed(id='C16b', property='C16',
     needs='pickling a tree whose scaling knowledge covers one inner attribute of several objects',
     breaks='the restored tree rebuilds its scaling from the root and keeps only the last object per attribute name',
     edits=[('cobweb3.py', '''        self.scaling = scaling
        self.inner_attr_scaling = inner_attr_scaling
        self.attr_scales = {}

    def clear(self):
''', '''        self.scaling = scaling
        self.inner_attr_scaling = inner_attr_scaling
        self.attr_scales = {}

    def __getstate__(self):
        # the scales can be recovered from the root
        return {k: v for k, v in self.__dict__.items() if k != 'attr_scales'}

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.attr_scales = {}
        for attr in self.root.attrs('all'):
            if cv_key in self.root.av_counts[attr]:
                cv = self.root.av_counts[attr][cv_key]
                self.attr_scales[self.get_inner_attr(attr)] = cv.copy()

    def clear(self):
''')],
     demo='''
import pickle
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({('w', 'p'): 1.0, ('w', 'q'): 9.0})
c = pickle.loads(pickle.dumps(t))
assert c.attr_scales['w'].num == t.attr_scales['w'].num == 2, c.attr_scales
''')

seed(id='C17a', property='C17',
     needs='an instance that equals a leaf except for a hidden attribute the leaf has not seen',
     breaks='the hidden attribute causes a split of the leaf',
     edits=[('cobweb3.py', '''            if attr[0] == '_':
                continue
            if attr in instance and attr not in self.av_counts:
                return False
            if attr in self.av_counts and attr not in instance:
''', '''            if attr in instance and attr not in self.av_counts:
                return False
            if attr[0] == '_':
                continue
            if attr in self.av_counts and attr not in instance:
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'a'})
t.ifit({'x': 'a', '_id': 'k1'})
assert not t.root.children and t.root.count == 2
''')

seed(id='C17b', property='C17',
     needs='hidden attributes that only some instances have, and concepts that compete closely',
     breaks='hidden attributes weigh in the normalisation of expected correct guesses and thereby in category utility',
     edits=[('cobweb.py', '''        if attr_count == 0:
            return 0.0
        return correct_guesses / attr_count
''', '''        if attr_count == 0:
            return 0.0
        return correct_guesses / len(self.av_counts)
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
a, b = CobwebTree(), CobwebTree()
for v in 'aab':
    a.ifit({'x': v})
    b.ifit({'x': v, '_id': v})
assert a.root.expected_correct_guesses() == b.root.expected_correct_guesses()
''')

seed(id='C18a', property='C18',
     needs='a concept with two values of an attribute that have the same count',
     breaks='equal counts are added only once, so the probability of a missing value is too high',
     edits=[('cobweb.py', '''                c = sum([self.av_counts[attr][v] for v in
                         self.av_counts[attr]])
''', '''                c = sum({self.av_counts[attr][v] for v in
                         self.av_counts[attr]})
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'aabb':
    t.ifit({'x': v})
assert t.root.probability('x', None) == 0, t.root.probability('x', None)
''')

seed(id='C18b', property='C18',
     needs='a numeric attribute that is missing from some instances of a concept below the root',
     breaks='the probability of a number ignores that the attribute is missing in part of the concept',
     edits=[('cobweb3.py', '''            prob_attr = self.av_counts[attr][cv_key].num / self.count
            if self.tree is not None and self.tree.scaling:
''', '''            prob_attr = self.av_counts[attr][cv_key].num / self.count
            if self.parent:
                prob_attr = 1.0
            if self.tree is not None and self.tree.scaling:
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
t = Cobweb3Tree(scaling=None)
n = t.root.create_new_child({'x': 'a'})
n.increment_counts({'x': 'a', 'n': 1.0})
t.root.increment_counts({'x': 'a'})
t.root.increment_counts({'x': 'a', 'n': 1.0})
assert abs(n.probability('n', 1.0) - t.root.probability('n', 1.0)) < 1e-9
''')

seed(id='C19a', property='C19',
     needs='fitting a list and using the list again afterwards',
     breaks='the caller\'s list is reordered',
     edits=[('cobweb.py', '''        instances = [i for i in instances]

''', '''        if not isinstance(instances, list):
            instances = [i for i in instances]

''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
random.seed(0)
data = [{'x': 'a%d' % k} for k in range(12)]
keep = list(data)
CobwebTree().fit(data)
assert data == keep
''')

seed(id='C19b', property='C19',
     needs='a collection that fails while it is read (or is read lazily), with the first pass in order',
     breaks='instances are learned although the collection could not be read',
     edits=[('cobweb.py', '''        instances = [i for i in instances]

        for x in range(iterations):
            if x == 0 and randomize_first:
                shuffle(instances)
            for i in instances:
                self.ifit(i)
            shuffle(instances)
''', '''        if iterations == 1 and not randomize_first:
            for i in instances:
                self.ifit(i)
            return

        instances = [i for i in instances]

        for x in range(iterations):
            if x == 0 and randomize_first:
                shuffle(instances)
            for i in instances:
                self.ifit(i)
            shuffle(instances)
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
def src():
    yield {'x': 'a'}
    raise IOError('lost')
t = CobwebTree()
try:
    t.fit(src(), randomize_first=False)
    raise SystemExit('no error')
except IOError:
    pass
assert t.root.count == 0
''')


# second wave ---------------------------------------------------------------------------------------------------

seed(id='C01c', property='C01',
     needs='a concept with exactly 17 instances that have a numeric attribute',
     breaks='the standard deviation of such a concept is wrong',
     edits=[('utils.py', '17: 0.9845064054718315', '17: 0.9845604054718315')],
     demo='''
from math import gamma, sqrt
from concept_formation.continuous_value import ContinuousValue
for n in range(2, 30):
    c = ContinuousValue()
    c.update_batch(range(n))
    want = sqrt(sum((v - (n - 1) / 2.0) ** 2 for v in range(n)) / (n - 1)) / (
        sqrt(2.0 / (n - 1)) * gamma(n / 2.0) / gamma((n - 1) / 2.0))
    assert abs(c.unbiased_std() - want) < 1e-9, n
''')

seed(id='C01d', property='C01',
     needs='numeric values that are large compared with their spread (e.g. time stamps)',
     breaks='the spread is computed from sums of squares and loses all its digits',
     edits=[('continuous_value.py', '''        self.num += 1
        delta = x - self.mean
        self.mean += delta / self.num
        self.meanSq += delta * (x - self.mean)
''', '''        sq = self.meanSq + self.num * self.mean * self.mean + x * x
        self.mean = (self.num * self.mean + x) / (self.num + 1)
        self.num += 1
        self.meanSq = max(0.0, sq - self.num * self.mean * self.mean)
''')],
     demo='''
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
vals = [1.0, 2.0, 4.0, 3.0, 2.5]
a.update_batch(vals)
b.update_batch([1.6e9 + v for v in vals])
assert abs(a.unbiased_std() - b.unbiased_std()) < 1e-3, (a, b)
''')

seed(id='C02c', property='C02',
     needs='a numeric attribute with scaling, and a concept that is consulted again after the spread of everything seen '
           'has changed while its own size has not',
     breaks='category utility is computed from a remembered value that belongs to an older scaling',
     edits=[('cobweb3.py', '''        correct_guesses = 0.0
        attr_count = 0

        for attr in self.attrs():
            attr_count += 1

            for val''', '''        known = getattr(self, '_guesses', None)
        if known is not None and known[0] == self.count:
            return known[1]

        correct_guesses = 0.0
        attr_count = 0

        for attr in self.attrs():
            attr_count += 1

            for val'''), ('cobweb3.py', '''        if attr_count == 0:
            return 0.0
        return correct_guesses / attr_count
''', '''        if attr_count == 0:
            return 0.0
        self._guesses = (self.count, correct_guesses / attr_count)
        return self._guesses[1]
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1.0, 2.0, 3.0):
    t.ifit({'n': v})
c = max(t.root.children, key=lambda c: c.count)
t.root.expected_correct_guesses()
a = t.root.expected_correct_guesses()
t.update_scales({'n': 500.0})
fresh = t.root.shallow_copy().expected_correct_guesses()
assert abs(t.root.expected_correct_guesses() - fresh) < 1e-12
''')

seed(id='C02d', property='C02',
     needs='a child with exactly two grandchildren that should be split while its parent has more than five children',
     breaks='the split operator is not considered there',
     edits=[('cobweb.py', '''        if "split" in possible_ops and len(best1.children) > 0:
''', '''        if "split" in possible_ops and len(best1.children) > 0 and \\
                len(self.children) + len(best1.children) <= 7:
''')],
     demo='''
from concept_formation.cobweb import CobwebNode, CobwebTree
t = CobwebTree()
r = t.root
for v in 'abcdef':
    i = {'x': v, 'y': v}
    r.increment_counts(i)
    r.create_new_child(i)
best = r.create_new_child({'x': 'g', 'y': 'g'})
best.increment_counts({'x': 'h', 'y': 'h'})
best.create_new_child({'x': 'g', 'y': 'g'})
best.create_new_child({'x': 'h', 'y': 'h'})
r.increment_counts({'x': 'g', 'y': 'g'})
r.increment_counts({'x': 'h', 'y': 'h'})
i = {'x': 'zz', 'y': 'zz'}
cu, op = r.get_best_operation(i, best, r.children[0], -1.0, ['best', 'split'])
assert op == 'split', (cu, op)
''')

seed(id='C06c', property='C06',
     needs='an invalid value for an attribute the tree has already learned',
     breaks='known attributes are not checked any more; the fit fails half way and leaves the scaling changed',
     edits=[('cobweb.py', '''            try:
                hash(instance[attr])
            except Exception:
''', '''            if attr in self.root.av_counts and instance[attr] is not None:
                continue
            try:
                hash(instance[attr])
            except Exception:
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'a', 'n': 1.0})
try:
    t.ifit({'x': ['a'], 'n': 7.0})
except Exception:
    pass
assert t.root.count == 1 and t.attr_scales['n'].num == 1, t.attr_scales
''')

seed(id='C07c', property='C07',
     needs='a tie for the most likely value, in processes with different memory layouts',
     breaks='the tie is broken by memory address',
     edits=[('utils.py', '''    updated_choices = [(prob, random(), val) for val, prob in choices]
''', '''    updated_choices = [(prob, id(val) >> 12, val) for val, prob in
                       sorted(choices, key=lambda c: random())]
'''), ('utils.py', '''    return sorted(updated_choices, reverse=True)[0][2]
''', '''    return sorted(updated_choices, key=lambda c: c[:2],
                  reverse=True)[0][2]
''')],
     demo='''
import os, subprocess, sys
prog = """
import random
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
pad = []
for k in range(40):
    pad.append(['x' * 1000] * random.Random().randint(1, 400))
    v = 'value%d' % k
    pad.append(v * 50)
    t.root.increment_counts({'x': v})
random.seed(3)
print([t.root.predict('x') for _ in range(5)])
"""
outs = set()
for h in range(8):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONMALLOC='malloc')
    outs.add(subprocess.run([sys.executable, '-c', prog], env=env, stdout=subprocess.PIPE, check=True).stdout)
assert len(outs) == 1, outs
''')

seed(id='C08c', property='C08',
     needs='sampled inference of a numeric attribute from a small concept',
     breaks='numbers are sampled with the biased spread instead of the concept\'s',
     edits=[('cobweb3.py', '''                                    self.av_counts[attr][val].unbiased_std())
''', '''                                    self.av_counts[attr][val].biased_std())
''')],
     demo='''
import random
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (0.0, 10.0):
    t.root.increment_counts({'n': v})
random.seed(1)
xs = [t.root.predict('n', 'sampled') for _ in range(4000)]
m = sum(xs) / len(xs)
sd = (sum((x - m) ** 2 for x in xs) / len(xs)) ** .5
want = t.root.av_counts['n'][list(t.root.av_counts['n'])[0]].unbiased_std()
assert abs(sd - want) < .1 * want, (sd, want)
''')

seed(id='C09c', property='C09',
     needs='two instances that fall into the same leaf, in a clustering where splits compete closely',
     breaks='an instance that shares its leaf with another one is not counted by the heuristic',
     edits=[('cluster.py', '''        for leaf in leaves:
            if c.is_parent(leaf):
''', '''        for leaf in set(leaves):
            if c.is_parent(leaf):
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import CU
t = CobwebTree()
a = t.ifit({'x': 'a'})
b = t.ifit({'x': 'b'})
n = CU([a, b, a, a], [a, b, a, a])
m = CU([a, b], [a, b])
assert abs(n - m) > 1e-9, (n, m)
''')

seed(id='C09d', property='C09',
     needs='a k-clustering where a split makes more than k clusters after an earlier one did not change their number',
     breaks='k_cluster returns the clustering before the last admissible one',
     edits=[('cluster.py', '''        if len(set(c)) > k:
            break
        clustering = c
''', '''        if len(set(c)) > k:
            break
        if len(set(c)) != len(set(clustering)):
            clustering = c
''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import k_cluster, cluster_iter
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    data = [{a: random.choice('uvw') for a in 'abc'} for _ in range(12)]
    t.fit(data)
    few = data[:3]
    state = random.getstate()
    want = None
    for c, _ in cluster_iter(t, few, mod=False):
        if len(set(c)) > 3:
            break
        want = c
    random.setstate(state)
    assert k_cluster(t, few, 3, mod=False) == want, s
''')

seed(id='C11c', property='C11',
     needs='an instance with a relation that contains a number (or an attribute the standardizer cannot index)',
     breaks='a relation whose tuple has exactly two elements is treated as a component path and its variable is lost',
     edits=[('preprocessor.py', '''            if isinstance(name, tuple):
                for o in get_attribute_components(name):
                    if o not in mapping:
                        mapping[o] = self.gensym()
                relations.append((name, value))
''', '''            if isinstance(name, tuple):
                if len(name) > 2:
                    for o in get_attribute_components(name):
                        if o not in mapping:
                            mapping[o] = self.gensym()
                relations.append((name, value))
''')],
     demo='''
from concept_formation.preprocessor import NameStandardizer
a, b = NameStandardizer(), NameStandardizer()
x = a.transform({('red', '?x'): True})
y = b.transform({('red', '?x'): True})
assert not set(x) & set(y), (x, y)
''')

seed(id='C11d', property='C11',
     needs='an aborted transform (a failing name generator) on a standardizer that had transformed another instance',
     breaks='undoing after the abort mixes the names of two instances',
     edits=[('preprocessor.py', '''        mapping = {}
        new_instance = self._standardize(instance, mapping)
        self.reverse_mapping = {mapping[o]: o for o in mapping}
        return new_instance
''', '''        if self.reverse_mapping is None:
            self.reverse_mapping = {}
        mapping = {self.reverse_mapping[o]: o for o in self.reverse_mapping}
        new_instance = self._standardize(instance, mapping)
        self.reverse_mapping.update({mapping[o]: o for o in mapping})
        return new_instance
''')],
     demo='''
from concept_formation.preprocessor import NameStandardizer
s = NameStandardizer()
x = s.transform({'?x': {'v': 1}})
y = s.transform({'?x': {'v': 2}})
assert not set(x) & set(y), (x, y)
''')

seed(id='C12c', property='C12',
     needs='visualizing with two or more cuts a tree where a subtree is shallower than the number of cuts',
     breaks='concepts whose children were all cut are removed in the same cut',
     edits=[('visualize.py', '''    ret['children'] = [_trim_leaves(
        child) for child in j_ob['children'] if len(child['children']) > 0]
    return ret
''', '''    trimmed = [_trim_leaves(child) for child in j_ob['children']
               if len(child['children']) > 0]
    ret['children'] = [child for child in trimmed
                       if len(child['children']) > 0 or len(trimmed) == 1]
    return ret
''')],
     demo='''
import webbrowser
webbrowser.open = lambda *a: True
from concept_formation.visualize import _trim_leaves
def n(*c):
    return {'name': 'x', 'size': 1, 'counts': {}, 'children': list(c)}
t = n(n(n(), n()), n(n(), n()))
out = _trim_leaves(t)
assert len(out['children']) == 2, out
''')

seed(id='C13c', property='C13',
     needs='num_instances that asks for none of the instances',
     breaks='asking for zero instances returns the whole data set',
     edits=[('datasets.py', '''            if num_instances is not None and idx >= num_instances:
''', '''            if num_instances and idx >= num_instances:
''')],
     demo='''
from concept_formation.datasets import load_iris
assert load_iris(0) == [], len(load_iris(0))
assert len(load_iris(7)) == 7
''')

seed(id='C14c', property='C14',
     needs='a nominal target whose value equals the prediction as text but not as a value (1 and "1")',
     breaks='the error of a wrong prediction is 0',
     edits=[('evaluation.py', '''        if val == prediction:
            e = 0
''', '''        if str(val) == str(prediction):
            e = 0
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import error
t = CobwebTree()
t.ifit({'x': 'a', 'y': 'None'})
assert error(t, {'x': 'a'}, 'y', None) == 1
''')

seed(id='C14d', property='C14',
     needs='an evaluation with three or more runs',
     breaks='all runs after the second use the order of the second',
     edits=[('evaluation.py', '''        if randomize_first or r > 0:
            shuffle(instances)
''', '''        if r == 1 or (r == 0 and randomize_first):
            shuffle(instances)
''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
random.seed(4)
seen = []
def score(tree, inst, attr, val):
    seen.append(inst['k'])
    return 0
data = [{'k': 'k%d' % i} for i in range(12)]
incremental_evaluation(CobwebTree(), data, 'k', 12, runs=4, score=score)
rows = [tuple(seen[i:i + 12]) for i in range(0, 48, 12)]
assert len(set(rows)) == 4, rows
''')

seed(id='C15c', property='C15',
     needs='a Cobweb/3 tree built with inner_attr_scaling=False, cleared and used again',
     breaks='clearing resets a construction parameter',
     edits=[('cobweb3.py', '''        self.root = Cobweb3Node()
        self.root.tree = self
        self.attr_scales = {}

    def get_inner_attr''', '''        self.__init__(self.scaling)

    def get_inner_attr''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree(inner_attr_scaling=False)
t.clear()
t.ifit({('w', 'p'): 1.0})
assert list(t.attr_scales) == [('w', 'p')], t.attr_scales
''')

seed(id='C16c', property='C16',
     needs='saving and restoring a tree with numeric attributes whose means need more than eight decimals',
     breaks='the restored summaries are rounded',
     edits=[('continuous_value.py', '''    def __len__(self):
        return 1
''', '''    def __len__(self):
        return 1

    def __getstate__(self):
        return (self.num, round(self.mean, 8), round(self.meanSq, 8))

    def __setstate__(self, state):
        self.num, self.mean, self.meanSq = state
''')],
     demo='''
import pickle
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (0.1, 0.2, 0.4):
    t.ifit({'n': v})
c = pickle.loads(pickle.dumps(t))
a, b = t.attr_scales['n'], c.attr_scales['n']
assert (a.num, a.mean, a.meanSq) == (b.num, b.mean, b.meanSq), (a.mean, b.mean)
''')

seed(id='C17c', property='C17',
     needs='a hidden component with a numeric attribute that also exists, under the same name, outside of it',
     breaks='hidden numbers take part in the scaling of the visible attribute',
     edits=[('cobweb3.py', '''        if isinstance(attr, tuple) and self.inner_attr_scaling:
            return attr[0]
''', '''        if isinstance(attr, tuple) and self.inner_attr_scaling:
            if attr[0] == '_' and isinstance(attr[-1], tuple):
                return attr[-1][0]
            return attr[0]
''')],
     demo='''
from concept_formation.trestle import TrestleTree
a, b = TrestleTree(), TrestleTree()
for v in (1.0, 2.0, 5.0):
    a.ifit({'w': v})
    b.ifit({'w': v, '_c': {'w': 1000 * v}})
assert abs(a.root.expected_correct_guesses() - b.root.expected_correct_guesses()) < 1e-12
''')

seed(id='C18c', property='C18',
     needs='boolean values in a Cobweb/3 or Trestle tree',
     breaks='booleans are averaged as numbers, so their probabilities are not the frequencies',
     edits=[('utils.py', '''    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
''', '''    return isinstance(n, Number) and not isnan(n)
''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (True, True, False, True):
    t.ifit({'x': v})
assert t.root.probability('x', True) == 0.75, t.root.probability('x', True)
''')

seed(id='C19c', property='C19',
     needs='a collection that lists the same instance object more than once',
     breaks='repeated instances are fit only once',
     edits=[('cobweb.py', '''        instances = [i for i in instances]

''', '''        instances = list({id(i): i for i in instances}.values())

''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
i = {'x': 'a'}
t.fit([i, i, {'x': 'b'}])
assert t.root.count == 3, t.root.count
''')

seed(id='C19d', property='C19',
     needs='several iterations over a collection, without randomization of the first pass',
     breaks='later passes draw instances with replacement instead of permuting them',
     edits=[('cobweb.py', '''            for i in instances:
                self.ifit(i)
            shuffle(instances)
''', '''            for i in instances:
                self.ifit(i)
            for j in range(len(instances)):
                instances[j] = instances[int(random() * len(instances))]
''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
random.seed(2)
t = CobwebTree()
t.fit([{'x': 'a%d' % k} for k in range(10)], iterations=3, randomize_first=False)
assert all(v == 3 for v in t.root.av_counts['x'].values()), t.root.av_counts
''')

seed(id='C03c', property='C03',
     needs='inferring missing values for an instance that already has every attribute of its concept, and a caller that '
           'keeps using the result',
     breaks='the result is the caller\'s own instance object',
     edits=[('cobweb.py', '''        temp_instance = {a: instance[a] for a in instance}
        concept = self._cobweb_categorize(temp_instance)
''', '''        concept = self._cobweb_categorize(instance)
        if all(a in instance for a in concept.attrs('all')):
            return instance
        temp_instance = {a: instance[a] for a in instance}
''')],
     demo='''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'x': 'a'})
i = {'x': 'a'}
r = t.infer_missing(i)
r['x'] = 'changed'
assert i == {'x': 'a'}, i
''')

seed(id='C01e', property='C01',
     needs='two instances that agree on everything but a number that differs by less than 1e-9',
     breaks='both are filed in one leaf, whose instances then do not agree',
     edits=[('cobweb3.py', """                    if (not self.av_counts[attr][cv_key].unbiased_mean() ==
                            instance[attr]):""", """                    if abs(self.av_counts[attr][cv_key].unbiased_mean() -
                           instance[attr]) > 1e-9:""")],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree(scaling=False)
a = t.ifit({'x': 1e-10})
b = t.ifit({'x': 3e-10})
assert a is not b and a.count == 1 and b.count == 1 and t.root.count == 2, (a, b)
''')

seed(id='C02e', property='C02',
     needs='a concept with six or more children that would be the best child to split',
     breaks='wide concepts are never split although splitting has the highest category utility',
     edits=[('cobweb.py', '''        if "split" in possible_ops and len(best1.children) > 0:''',
             '''        if "split" in possible_ops and 0 < len(best1.children) < 6:''')],
     demo='''
from concept_formation.cobweb import CobwebNode, CobwebTree
t = CobwebTree()
root = t.root
wide, other = CobwebNode(), CobwebNode()
for k in range(7):
    wide.create_new_child({'x': 'v%d' % k, 'y': 'w%d' % k})
    wide.increment_counts({'x': 'v%d' % k, 'y': 'w%d' % k})
    root.increment_counts({'x': 'v%d' % k, 'y': 'w%d' % k})
for n in (wide, other):
    n.parent, n.tree = root, t
    root.children.append(n)
for k in range(3):
    other.increment_counts({'x': 'z', 'y': 'z'})
    root.increment_counts({'x': 'z', 'y': 'z'})
i = {'x': 'v0', 'y': 'w0'}
cu, op = root.get_best_operation(i, wide, other, -1.0, ['best', 'split'])
assert op == 'split' and abs(cu - root.cu_for_split(wide)) < 1e-12, (cu, op)
''')

seed(id='C05c', property='C05',
     needs='two threads asking about different component attributes, with a switch between the assignment and the return',
     breaks='one thread uses the scale of the other thread\'s attribute',
     edits=[('cobweb3.py', '''            return attr[0]
''', '''            self._inner = attr[0]
            return self._inner
''')],
     demo='''
import sys, threading
from concept_formation import cobweb3
t = cobweb3.Cobweb3Tree()
main = threading.get_ident()
ready, go = threading.Event(), threading.Event()
out = []


def tracer(frame, event, arg):
    # pause the other thread on the last line of get_inner_attr
    if frame.f_code.co_name != 'get_inner_attr':
        return None
    def local(fr, ev, a):
        if ev == 'line':
            seen.append(fr.f_lineno)
            if len(seen) == stop[0]:
                ready.set()
                go.wait(20)
        return local
    return local


def other():
    sys.settrace(tracer)
    out.append(t.get_inner_attr(('width', '?o1')))
    sys.settrace(None)
    ready.set()


for n in range(1, 8):
    seen, stop = [], [n]
    ready.clear()
    go.clear()
    th = threading.Thread(target=other)
    th.start()
    ready.wait(20)
    assert t.get_inner_attr(('height', '?o2')) == 'height'
    go.set()
    th.join()
assert out == ['width'] * len(out), out
''')

seed(id='C06d', property='C06',
     needs='a relation whose invalid element comes after a nested tuple element',
     breaks='elements after the first nested one are not checked: the instance fails only after it was partly learned, or is stored',
     edits=[('trestle.py', """            if isinstance(v, tuple):
                self._sanity_check_relation(v, instance)
""", """            if isinstance(v, tuple):
                return self._sanity_check_relation(v, instance)
""")],
     demo='''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
try:
    t._sanity_check_instance({('on', ('a', 'b'), 7): 'x'})
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

seed(id='C07d', property='C07',
     needs='inferring several missing attributes, in processes with different hash seeds',
     breaks='the order of the inferences, and with it the draws each gets, depends on the hash seed',
     edits=[('cobweb.py', """        for attr in concept.attrs('all'):
            if attr in temp_instance:
                continue
            val = concept.predict(attr, choice_fn, allow_none)
""", """        for attr in set(concept.attrs('all')) - set(temp_instance):
            val = concept.predict(attr, choice_fn, allow_none)
""")],
     demo='''
import os, subprocess, sys
CODE = """
import random
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
n = t.root
for k in range(2):
    n.increment_counts({'a%d' % j: 'v%d' % k for j in range(8)})
random.seed(3)
print(sorted(t.infer_missing({}, 'sampled', False).items()))
"""
outs = set()
for h in range(6):
    outs.add(subprocess.run([sys.executable, '-c', CODE], env=dict(os.environ, PYTHONHASHSEED=str(h)),
                            capture_output=True, text=True, check=True).stdout)
assert len(outs) == 1, outs
''')

seed(id='C09e', property='C09',
     needs='a split search over many splits in which the best clustering comes after several worse ones',
     breaks='the search gives up early and returns a clustering that is not the best',
     edits=[('cluster.py', '''        split += 1
    return min_h[2]''', '''        split += 1
        if h > min_h[1] and split > minsplit + 3:
            break
    return min_h[2]''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_iter, cluster_split_search
random.seed(1)
insts = [{'x': 'v%d' % (k % 9), 'y': 'w%d' % (k % 7)} for k in range(40)]
t = CobwebTree()
t.fit(insts, randomize_first=False)
# the more clusters the worse, except that the last clustering is the best
last = len(set(t.categorize(i) for i in insts))
h = lambda clusters, leaves: -1 if len(set(clusters)) == last else len(set(clusters))
lab = cluster_split_search(t, insts, h, 1, 60, False)
assert len(set(lab)) == last, (len(set(lab)), last)
''')

seed(id='C09f', property='C09',
     needs='the AICc criterion given by name',
     breaks='the clusterings are those of category utility',
     edits=[('cluster.py', """        if heuristic.upper() == 'CU':""", """        if heuristic.upper() in ('CU', 'AICC'):""")],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_iter, AICc
random.seed(1)
insts = [{'x': 'v%d' % (k % 2)} for k in range(20)]
t = CobwebTree()
t.fit(insts, randomize_first=False)
a = [v for _, v in cluster_iter(t, insts, 'AICc', 1, 3, False)]
b = [v for _, v in cluster_iter(t, insts, AICc, 1, 3, False)]
assert a == b, (a, b)
''')

seed(id='C10c', property='C10',
     needs='an instance with more objects than the tree has roles, where the initial match leaves out the wrong object',
     breaks='an object without a role is never exchanged for one that has it, so the renaming is not locally best',
     edits=[('structure_mapper.py', '''(mapping[o1] == o1 and mapping[o2] == o2):
                continue

            yield''', '''mapping[o1] == o1 or mapping[o2] == o2:
                continue

            yield''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Node
from concept_formation.structure_mapper import StructureMappingOptProblem
from py_search.base import Node
base = Cobweb3Node()
base.increment_counts({('c', '?o1'): 'r'})
p = StructureMappingOptProblem((frozenset([('?a', '?o1'), ('?b', '?b')]), frozenset()))
target = {('c', '?a'): 'g', ('c', '?b'): 'r'}
n = Node((frozenset([('?a', '?o1'), ('?b', '?b')]), frozenset()), extra=(target, base))
assert any(dict(s.state[0]) == {'?a': '?a', '?b': '?o1'} for s in p.successors(n))
''')

seed(id='C14e', property='C14',
     needs='an evaluation of four or more runs',
     breaks='the fourth run is not shuffled but repeats the order of the third',
     edits=[('evaluation.py', '''        if randomize_first or r > 0:''', '''        if randomize_first or (r > 0 and r != 3):''')],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
random.seed(1)
orders = []
insts = [{'x': 'v%d' % k} for k in range(30)]
def score(tree, instance, attr, val):
    if tree.root.count == 0:
        orders.append([])
    orders[-1].append(val)
    return 0
incremental_evaluation(CobwebTree(), insts, run_length=25, runs=5, score=score, attr='x', randomize_first=False)
assert len(orders) == 5 and len(set(map(tuple, orders))) == 5, orders
''')

seed(id='C18d', property='C18',
     needs='an attribute that has numeric values in some instances and nominal ones in others',
     breaks='the nominal values are counted as missing',
     edits=[('cobweb3.py', '''                c = sum([self.av_counts[attr][v].num if v == cv_key
                         else self.av_counts[attr][v] for v in
                         self.av_counts[attr]])
            return''', '''                if cv_key in self.av_counts[attr]:
                    c = self.av_counts[attr][cv_key].num
                else:
                    c = sum([self.av_counts[attr][v] for v in
                             self.av_counts[attr]])
            return''')],
     demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for i in ({'x': 1.0}, {'x': 'a'}, {'y': 'b'}, {'x': 2.0}):
    t.ifit(i)
assert t.root.probability('x', None) == .25, t.root.probability('x', None)
''')

seed(id='C20a', property='C20',
     needs='a merge of two summaries with spread whose means are very close (less than a millionth of their size apart)',
     breaks='the spread between the two groups is left out',
     edits=[('continuous_value.py', """        delta = other.mean - self.mean
        self.meanSq = (self""", """        delta = other.mean - self.mean
        if abs(delta) < 1e-6 * abs(self.mean):
            delta = 0.0
        self.meanSq = (self""")],
     demo="""
from concept_formation.continuous_value import ContinuousValue
a, b, c = ContinuousValue(), ContinuousValue(), ContinuousValue()
a.update_batch([1e9, 1e9 + 1])
b.update_batch([1e9 + 100, 1e9 + 101])
c.update_batch([1e9, 1e9 + 1, 1e9 + 100, 1e9 + 101])
a.combine(b)
assert abs(a.biased_std() - c.biased_std()) < 1e-3, (a.biased_std(), c.biased_std())
""")

seed(id='C20b', property='C20',
     needs='exactly 29 values',
     breaks='the bias correction is dropped one value too early',
     edits=[('utils.py', '''return c4n_table[n] if n < 30 else 1.0''', '''return c4n_table[n] if n < 29 else 1.0''')],
     demo='''
from math import sqrt, gamma
from concept_formation.continuous_value import ContinuousValue
v = ContinuousValue()
v.update_batch(range(29))
c4 = sqrt(2 / 28) * gamma(14.5) / gamma(14)
want = sqrt(sum((x - 14) ** 2 for x in range(29)) / 28) / c4
assert abs(v.unbiased_std() - want) < 1e-9, (v.unbiased_std(), want)
''')

seed(id='C20c', property='C20',
     needs='numbers whose distance from the mean is tiny compared with the mean (time stamps, say)',
     breaks='such numbers are counted but neither move the mean nor add to the spread',
     edits=[('continuous_value.py', '''        delta = x - self.mean
        self.mean += delta / self.num
''', '''        delta = x - self.mean
        if abs(delta) < 1e-8 * abs(self.mean):
            return
        self.mean += delta / self.num
''')],
     demo='''
from concept_formation.continuous_value import ContinuousValue
v = ContinuousValue()
v.update_batch([1e9, 1e9 + 2, 1e9 + 4])
assert abs(v.mean - (1e9 + 2)) < 1e-3 and v.biased_std() > 1, v
''')

seed(id='C12d', property='C12',
     needs='a call without a destination while the page of an earlier call is what the browser finds',
     breaks='the page is opened before its data has been written',
     edits=[('visualize.py', """        with open(output_file, 'w') as out:
            out.write(_gen_output_file(js_ob))
        viz_html_file = join(module_path, 'visualization_files', 'viz.html')
        webbrowser.open('file://'+realpath(viz_html_file))
""", """        viz_html_file = join(module_path, 'visualization_files', 'viz.html')
        webbrowser.open('file://'+realpath(viz_html_file))
        with open(output_file, 'w') as out:
            out.write(_gen_output_file(js_ob))
""")],
     demo='''
import os, shutil, sys, tempfile, webbrowser
d = tempfile.mkdtemp()
try:
    shutil.copytree(os.path.join(os.getcwd(), 'concept_formation'), os.path.join(d, 'concept_formation'))
    sys.path.insert(0, d)
    for m in [m for m in sys.modules if m.startswith('concept_formation')]:
        del sys.modules[m]
    import concept_formation.visualize as V
    from concept_formation.cobweb import CobwebTree
    assert V.__file__.startswith(d)
    out = os.path.join(d, 'concept_formation', 'visualization_files', 'output.js')
    seen = []
    webbrowser.open = lambda url, *a, **k: seen.append(open(out).read() if os.path.exists(out) else '')
    t = CobwebTree()
    t.ifit({'color': 'crimson'})
    V.visualize(t)
    assert seen and 'crimson' in seen[-1], 'the page was opened before its data was written'
finally:
    shutil.rmtree(d, ignore_errors=True)
''')

seed(id='C09g', property='C09',
     needs='AICc with exactly two more instances than parameters',
     breaks='AICc is infinite where it is defined',
     edits=[('cluster.py', """    if n - k <= 1:
        return float('inf')""", """    if n - k <= 2:
        return float('inf')""")],
     demo='''
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_iter, AICc
random.seed(1)
insts = [{'x': 'v%d' % (k % 2)} for k in range(4)]
t = CobwebTree()
t.fit(insts, randomize_first=False)
v = next(cluster_iter(t, insts, AICc, 1, 1, False))[1]
assert v == v and v < float('inf'), v
''')

seed(id='C14f', property='C14',
     needs='a short run (fewer than six instances asked for) on a longer list of instances',
     breaks='the run uses more instances than were asked for',
     edits=[('evaluation.py', 'instances[:run_length+2]', 'instances[:max(run_length+2, 8)]')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
insts = [{'x': 'v%d' % (k % 3), 'y': 'w'} for k in range(20)]
t = CobwebTree()
r = incremental_evaluation(t, insts, 'y', 2, randomize_first=False)
assert len(r[0]) <= 4 and t.root.count <= 4, (len(r[0]), t.root.count)
''')

seed(id='C09h', property='C09',
     needs='a k-clustering for fewer than two clusters',
     breaks='the impossible request is answered instead of refused',
     edits=[('cluster.py', '    if k < 2:', '    if k < 1:')],
     demo='''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import k_cluster
t = CobwebTree()
try:
    k_cluster(t, [{'x': 'a'}, {'x': 'b'}], 1)
except ValueError:
    pass
else:
    raise AssertionError('k=1 was accepted')
''')
