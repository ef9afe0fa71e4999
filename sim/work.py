"""Workload generation: schemas, instance streams, partial instances, invalid instances."""
NAMES = ['a', 'b', 'color', 'size', 'shape', 'w', 'zeta', 'x1']
ODD = ['count', 'children', 'name', 'mean', 'a b', '\xe9t\xe9', 'A', '0', 'class', 'Concept1']
HNAMES = ['_h', '_label', '_guid', '_n']


def value_pool(rng, kind, tree):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6]) if rng.random() < .96 else 16
    if kind == 'mix':                                     # words and numbers in one attribute
        return value_pool(rng, 'nom', tree) + value_pool(rng, 'num', tree)
    if kind == 'nom':
        style = rng.random()
        if style < .04:
            return ['\xe9t\xe9', '\u4e2d', 'a"b', "it's", '</script>', 'tab\tnl\n'][:n + 1]
        if style < .75:
            return [rng.choice('pqrstuv') + str(i) for i in range(n)]
        if style < .85:
            return [True, False][:max(1, n)]
        if style < .91:
            return [str(i) for i in range(n)]
        if style < .95:                                   # different values with the same text
            return [True, 'True', 'None', 'False', False, ''][:n + 1]
        if style < .96:                                   # compound values
            return [('p', 1), ('p', 2), 'p', ('p',), (1.5, ('p', 'q')), ()][:n + 1]
        if style < .975 and tree == 'cobweb':
            return [2, '2', 3, '3', '2.0'][:n + 1]
        if tree == 'cobweb':
            return list(range(n))
        return ['', 'x', ' y'][:n]
    scale = rng.choice([0.01, 0.1, 1.0, 1.0, 10.0, 100.0])
    off = rng.choice([0, 0, 5, -3, 100])
    style = rng.random()
    if style < .08:                                       # a small spread far away from zero
        base, sp = rng.choice([1e5, 1e6, -1e6]), rng.choice([1.0, 5.0])
        return [round(base + rng.gauss(0, 1) * sp, 1) for _ in range(n * 3 + 2)]
    if style < .38:
        return [round((off + i) * scale, 4) for i in range(n)]
    if style < .5:
        return [off + i for i in range(n)]
    if style < .6:
        return [0.1, 0.2, 0.3][:n]
    if style < .65:                                       # different numbers that are almost the same
        b = round(off + rng.random() * scale, 3) or 0.5
        return [b, b * (1 + 1e-7), b * (1 + 3e-6), b * (1 - 3e-7), b * (1 + 1e-5)][:n + 1]
    return [round(off + rng.gauss(0, 1) * scale, rng.choice([1, 2, 3])) for _ in range(n * 4)]


def schema(rng, tree, hidden=True, numeric=None, max_attrs=6, prefer_missing=None, comp=.2):
    """tree: cobweb | cobweb3. Returns a schema for flat instances."""
    numeric = tree != 'cobweb' if numeric is None else numeric
    attrs = []
    names = NAMES[:] if rng.random() < .93 else ODD[:]
    rng.shuffle(names)
    if max_attrs == 6 and rng.random() < .02:             # many attributes
        names, max_attrs = names + ['attr%d' % i for i in range(8)], 14
    for name in names[:rng.randint(1, max_attrs)]:
        kind = 'num' if numeric and rng.random() < rng.choice([.3, .7]) else 'nom'
        if numeric and rng.random() < .07:
            kind = 'mix'
        attrs.append((name, kind, value_pool(rng, kind, tree)))
    if tree == 'cobweb3' and rng.random() < comp:          # component-style attributes share a scale
        for o in ('?x', '?y'):
            for inner in rng.choice([['pos'], ['pos', 'vel']]):
                attrs.append(((inner, o), 'num', value_pool(rng, 'num', tree)))
    if hidden:
        hn = HNAMES[:]
        rng.shuffle(hn)
        for name in hn[:rng.choice([0, 0, 1, 1, 2])]:
            kind = 'num' if numeric and rng.random() < .4 else 'nom'
            attrs.append((name, kind, value_pool(rng, kind, tree)))
        if rng.random() < .08:
            attrs.append((('_', 'rel', 'o1'), 'nom', ['t', 'f']))
    protos = [{a[0]: rng.choice(a[2]) for a in attrs} for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    return {'attrs': attrs, 'protos': protos,
            'noise': rng.choice([0.0, 0.1, 0.3, 0.6, 1.0]),
            'missing': prefer_missing if prefer_missing is not None else rng.choice([0.0, 0.0, 0.1, 0.3, 0.6]),
            'dup': rng.choice([0.0, 0.1, 0.3, 0.6]),
            'empty': rng.choice([0.0, 0.0, 0.0, 0.05])}


def tighten(rng, sch):
    """Numbers of one attribute that differ in their last digits only."""
    num = [i for i, a in enumerate(sch['attrs']) if a[1] == 'num']
    if not num:
        return
    i = rng.choice(num)
    name = sch['attrs'][i][0]
    b = rng.choice([0.1, 0.3, 1.0, 2.5, 70.0])
    sch['attrs'][i] = (name, 'num', [b, b * (1 + 4e-16), b * (1 + 1e-12), b * (1 - 1e-10), b * (1 + 2e-9)])
    for p in sch['protos']:
        p[name] = rng.choice(sch['attrs'][i][2])


def instance(rng, sch, prev=None):
    if prev and rng.random() < sch['dup']:
        return dict(rng.choice(prev))
    proto = rng.choice(sch['protos'])
    if rng.random() < sch['empty']:
        return {a[0]: rng.choice(a[2]) for a in sch['attrs'] if _hidden(a[0]) and rng.random() < .5}
    out = {}
    attrs = sch['attrs']
    if rng.random() < .2:
        attrs = attrs[:]
        rng.shuffle(attrs)
    for name, kind, pool in attrs:
        if rng.random() < sch['missing']:
            continue
        out[name] = rng.choice(pool) if rng.random() < sch['noise'] else proto[name]
    if not out:
        name, kind, pool = rng.choice(sch['attrs'])
        out[name] = proto[name]
    return out


def _hidden(attr):
    return attr[0] == '_'


def instances(rng, sch, n):
    out = []
    for _ in range(n):
        out.append(instance(rng, sch, out))
    return out


def partial(rng, inst):
    keys = list(inst)
    keep = rng.random()
    return {k: inst[k] for k in keys if rng.random() < keep}


def tree_cfg(rng, types=('cobweb', 'cobweb3')):
    t = rng.choice(types)
    cfg = {'type': t}
    if t in ('cobweb3', 'trestle'):
        r = rng.random()
        if r < .5:
            pass
        elif r < .7:
            cfg['scaling'] = rng.choice([None, False])
        else:
            cfg['scaling'] = rng.choice([0.5, 1.0, 2.0, 0.1])
        if rng.random() < .3:
            cfg['inner'] = rng.random() < .5
    return cfg


def stream_kind(rng):
    return rng.choice(['prng', 'prng', 'prng', 'mix', 'low', 'high'])


def invalid(rng, tree, base):
    """An instance the tree cannot store, with valid parts before and after the invalid one."""
    bad = []
    bad.append(('v', [1, 2]))
    bad.append(('v', {'s'}))
    bad.append(('k', 7))
    bad.append(('k', None))
    bad.append(('k', ()))
    bad.append(('k', ''))
    if tree != 'trestle' and tree != 'dummy':
        bad.append(('v', None))
        bad.append(('v', {'nested': 1}))
    if tree in ('trestle', 'dummy') and rng.random() < .4:      # an unusable element of a relation, at any depth
        e = rng.choice([7, '', (), None, 2.5])
        bad = [('k', rng.choice([('on', '?a', e), ('on', e, 'wall'), ('on', ('k0', e)), ('on', '?b', ('k0', e)),
                                 ('on', ('k0', ('z', e)), '?a'), ('k0', ('z', e)), (('on', e), '?a', '?b'),
                                 ('on', (e,)), ('on', '?a', (('z', (e,)), 'wall')), (e,),
                                 ('on', ('z', 'wall'), e), (('k0', '?a'), ('z', ('y', 'x'), e), 'r'),
                                 ('on', ('z', ('y', '?b')), '?a', e)]))]
    elif tree in ('trestle', 'dummy') and rng.random() < .3:    # inside a component
        x = rng.choice([[1, 2], {'s'}])
        bad = [('v', rng.choice([{'p': x}, {'p': 'r', 'q': {'z': x}}, {'p': {'z': x, 'u': 1.5}, 'q': 1.5}, {7: 'r'},
                                 {'p': 'r', '': 1.5}, {'p': {None: 'r'}, 'q': 'g'}]))]
    kind, b = rng.choice(bad)
    items = list(base.items())
    rng.shuffle(items)
    pos = rng.randint(0, len(items))
    if kind == 'v':
        name = rng.choice([k for k in base] or ['bad']) if rng.random() < .5 and base else 'bad'
        items = [(k, v) for k, v in items if k != name]
        items.insert(min(pos, len(items)), (name, b))
    else:
        items.insert(pos, (b, rng.choice(['x', 1.5])))
    return dict(items)


# --------------------------------------------------------------------------- structured instances
def rel_schema(rng, dummy=False, many=None):
    return {'nobj': rng.choice([1, 2, 2, 3, 3, 4]) if many is None else many,
            'types': [{'k%d' % j: rng.choice(['r', 'g', 'b', 1.5, 2.5, 4.0]) for j in range(rng.randint(1, 3))}
                      for _ in range(rng.randint(1, 3))],
            'rels': rng.choice([[], ['on'], ['on', 'left']]),
            'tern': rng.random() < .15,
            'nest': 0 if dummy else rng.choice([0, 0, .3]),
            'comp': rng.choice([0, 0, .4]),
            'const': rng.choice([0, .5]),
            'hidden': rng.choice([0, 0, .4]),
            'plainvar': rng.choice([0, 0, 0, 0, 0, 1]),
            'noise': rng.choice([0, .1, .4]),
            'names': rng.choice(['letters', 'letters', 'letters' if dummy else 'gensym', 'shuffled'])}


def rel_instance(rng, s):
    n = max(1, s['nobj'] + rng.choice([-1, 0, 0, 0, 1]))
    pool = {'letters': ['?' + c for c in 'abcdefghijklmn'],
            'gensym': ['?o%d' % i for i in range(1, 16)],
            'shuffled': ['?obj%d' % i for i in range(1, 20)]}[s['names']]
    pool = pool[:]
    if s['names'] != 'letters' or rng.random() < .5:
        rng.shuffle(pool)
    names = iter(pool)
    inst = {}
    objs = []

    def obj(depth):
        t = rng.choice(s['types'])
        o = {}
        for k, v in t.items():
            if rng.random() < s['noise']:
                v = rng.choice(['r', 'g', 3.25]) if isinstance(v, str) else round(v + rng.gauss(0, 1), 2)
            if rng.random() < .9:
                o[k] = v
        if not o:
            o['k0'] = 'r'
        if rng.random() < s['hidden']:
            o['_hid'] = rng.choice(['u', 'v', 2.0])
        if rng.random() < s['comp']:
            o['pos'] = {'x': round(rng.gauss(0, 2), 1), 'y': rng.choice(['lo', 'hi'])}
        if depth < s.get('deep', 1) and rng.random() < s['nest'] and len(objs) < 5:
            m = next(names)
            objs.append(m)
            o[m] = obj(depth + 1)
        return o
    for _ in range(n):
        m = next(names)
        objs.append(m)
        if rng.random() < s['plainvar']:
            inst[m] = rng.choice(['pv1', 'pv2'])
        else:
            inst[m] = obj(0)
    for r in s['rels']:
        for _ in range(rng.randint(0, len(objs))):
            a, b = rng.choice(objs), rng.choice(objs)
            if a != b:
                inst[(r, a, b)] = rng.choice([True, True, True, 'strong'])
    if s['tern'] and len(objs) >= 2:
        inst[('between', objs[0], objs[1], 'wall')] = True
        if len(objs) >= 3 and rng.random() < .5:
            inst[('row',) + tuple(objs[:5])] = True
        if rng.random() < .3:
            inst[('path', 'from', objs[-1], 'via', objs[0], 'to', ('end', objs[-2]))] = True
    if rng.random() < s['const']:
        inst['top'] = rng.choice(['m', 'n'])
        if rng.random() < .5:
            inst['weight'] = rng.choice([1.0, 2.0, 7.5])
    if rng.random() < s['const'] * .5:
        inst['scene'] = {'light': rng.choice(['day', 'night']), 'cam': {'z': rng.choice([1.0, 2.0])}}
    if rng.random() < s['hidden']:
        inst['_note'] = rng.choice(['n1', 'n2'])
        if rng.random() < .4:
            inst['_meta'] = {'src': rng.choice(['s1', 's2'])}
        if rng.random() < .3:
            inst[('_', 'near', objs[0])] = True
    items = list(inst.items())
    rng.shuffle(items)
    return dict(items)
