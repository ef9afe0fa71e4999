"""Structured instances: independent flattening, the instance a tree filed, role optimality."""
import itertools

from sim.core import Violation
from sim.oracle import CV, Ref, close, is_cv, is_num, params


def is_var(x):
    return isinstance(x, str) and len(x) > 0 and x[0] == '?'


def flat(inst):
    """The documented flat form of a structured instance (variables keep their own names)."""
    out = {}

    def rec(d, owner, path, hid):
        # owner: attribute suffix naming the enclosing object; hid: inside something hidden
        for a, v in d.items():
            h = hid or (owner is not None and a[0] == '_')
            if is_var(a):
                if owner is not None:
                    out[('has-component', owner, a)] = True
                if isinstance(v, dict):
                    rec(v, a, None, False)
                else:
                    out[a] = v
                continue
            if owner is None:
                name = canon(a, out)
            elif h:
                name = ('_', (a, owner))
            else:
                name = (a, owner)
            if isinstance(v, dict):
                rec(v, name, None, h or a[0] == '_')
            else:
                out[name] = v
    rec(inst, None, None, False)
    return out


def canon(attr, out):
    """Relation arguments that name a nested object as (object, parent) -> the object itself."""
    if not isinstance(attr, tuple):
        return attr
    if len(attr) == 2 and is_var(attr[0]):
        p = canon(attr[1], out)
        out[('has-component', p, attr[0])] = True
        return attr[0]
    return tuple(canon(e, out) for e in attr)


def variables(attr, out=None):
    out = set() if out is None else out
    if isinstance(attr, tuple):
        for e in attr:
            variables(e, out)
    elif is_var(attr):
        out.add(attr)
    return out


def all_vars(finst):
    out = set()
    for a in finst:
        variables(a, out)
    return out


def uses_vars(cfg, *insts):
    """Does a structured tree have to rename objects in any of these instances?"""
    return cfg['type'] in ('trestle', 'dummy') and any(all_vars(flat(i)) for i in insts)


def mapped_vars(finst):
    """Variables that take part in structure mapping (those in hidden attributes included)."""
    return all_vars(finst)


def rename(attr, m):
    if isinstance(attr, tuple):
        return tuple(rename(e, m) for e in attr)
    return m.get(attr, attr)


def rename_inst(f, m):
    return {rename(a, m): v for a, v in f.items()}


def root_counts(root):
    out = {}
    for a, vs in root.av_counts.items():
        for v, c in vs.items():
            out[(a, CV if is_cv(c) else v)] = (c.num, c.mean) if is_cv(c) else (c, None)
    return out


def diff(before, after):
    """What one more instance added to the root: {attr: value or ('cv', value)}; None if not one instance."""
    out = {}
    for k, (n, m) in after.items():
        b, bm = before.get(k, (0, None))
        if n == b:
            continue
        if n != b + 1 or k[0] in out:
            return None
        if m is not None:
            val = m * n - (bm or 0.0) * b
            out[k[0]] = ('cv', val)
        else:
            out[k[0]] = k[1]
    for k, (n, m) in before.items():
        if k not in after and n:
            return None
    return out


def same_value(want, got):
    if isinstance(got, tuple) and len(got) == 2 and got[0] == 'cv':
        return is_num(want) and close(want, got[1], 1e-10, 1e-6)
    return not is_num(want) and want == got


def find_renaming(f, added):
    """A one-to-one renaming of f's variables that makes it equal to what was added, or None."""
    if len(f) != len(added):
        return None
    vs = sorted(all_vars(f))
    targets = set()
    for a in added:
        variables(a, targets)
    if len(targets) != len(vs):
        return None
    # attributes by the variables they need, so that each can be tested as soon as they are bound
    need = [(sorted(variables(a)), a, v) for a, v in f.items()]
    for n, a, v in need:
        if not n and not (a in added and same_value(v, added[a])):
            return None
    m = {}

    def rec(k):
        if k == len(vs):
            return True
        x = vs[k]
        for t in sorted(targets):
            if t in m.values():
                continue
            m[x] = t
            ok = True
            for n, a, v in need:
                if x in n and all(y in m for y in n):
                    ra = rename(a, m)
                    if ra not in added or not same_value(v, added[ra]):
                        ok = False
                        break
            if ok and rec(k + 1):
                return True
            del m[x]
        return False
    return dict(m) if rec(0) else None


def filed(inst, before, after):
    """The instance as the tree filed it (true values, renamed variables) and the renaming used."""
    d = diff(before, after)
    if d is None:
        raise Violation('filed', 'fitting one instance did not add exactly one instance to the root')
    f = flat(inst)
    m = find_renaming(f, d)
    if m is None:
        raise Violation('filed', 'the tree recorded %r for the instance %r: not a one-to-one renaming of it'
                        % (d, f))
    return rename_inst(f, m), m


# --------------------------------------------------------------------------- role optimality
def role_cost(ref, base_hist, f, m):
    return -ref.ecg(base_hist + [rename_inst(f, m)])


def neighbours(m, base_vars, own):
    """Renamings one exchange or one move away. own[v]: the fresh name v has when unmapped."""
    vs = sorted(m)
    mapped = {v: m[v] in base_vars for v in vs}
    for a, b in itertools.combinations(vs, 2):
        if not mapped[a] and not mapped[b]:
            continue
        n = dict(m)
        n[a] = m[b] if mapped[b] else own[a]
        n[b] = m[a] if mapped[a] else own[b]
        yield n
    free = sorted(base_vars - set(m.values()))
    for a in vs:
        for t in free:
            n = dict(m)
            n[a] = t
            yield n


def role_optimal(ref, base_hist, f, m, eps=1e-9):
    """Local optimality up to one cost-neutral step. Returns None or an improving renaming."""
    base_vars = set()
    for i in base_hist:
        base_vars |= all_vars(i)
    if not base_vars or not m:
        return None
    own = {v: (m[v] if m[v] not in base_vars else '?fresh_' + v[1:]) for v in m}
    c0 = role_cost(ref, base_hist, f, m)

    def improving(x):
        for n in neighbours(x, base_vars, own):
            if role_cost(ref, base_hist, f, n) < c0 - eps:
                return n
        return None
    bad = improving(m)
    if bad is None:
        return None
    cands = list(neighbours(m, base_vars, own))
    for v in m:                       # the reverse of moving an unmapped object to a free role
        if m[v] in base_vars:
            n = dict(m)
            n[v] = own[v]
            cands.append(n)
    for n in cands:
        if abs(role_cost(ref, base_hist, f, n) - c0) <= eps and improving(n) is None:
            return None
    return bad


def make_ref(tree, shadow, hist=None):
    scaling, inner = params(shadow.cfg)
    return Ref(True, scaling, shadow.scale_values(hist), inner)
