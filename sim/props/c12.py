"""C12: visualization output is complete and correct, or the call fails."""
import json
import os
import shutil
import tempfile
import webbrowser
from urllib.parse import unquote

from sim import core, disk, hist, monitor, work
from sim.core import Rng, Violation
from sim.oracle import close, is_cv, nodes, shape, snapshot

RUNS = {'quick': 900, 'thorough': 25000}
SHRINK = ('fits', 'calls')
RULE = ('one run = a tree of any type and 1-6 visualization calls (whole tree, leaves cut, clusters by label or '
        'concept) into up to three destinations that may hold user files, customised, partial or stale output, with '
        'seeded short writes, disk errors, full disk, torn writes, interrupts and crashes, each failed call repeated '
        'on a working disk, with further fits in between; non-trivial = a fault, a stale destination or a retry, '
        'distinct = different call text')
REAL = ['trees and their export', 'visualize module', "shutil, json, Python's buffering and text layers"]
STUB = ['raw disk under open/os/shutil (confined to a scratch directory)', 'web browser (records the address)',
        'generator behind the random module']
ASSUMPTIONS = ['with recreate_html off, support files that already exist belong to the user and may stay as they are',
               'the package directory is an overlay copy, so that the default destination can be written']
STATE_MEASURE = 'distinct (call, fault that struck, outcome)'

VF = core.REPO + '/' + core.PKG + '/visualization_files'
SUPPORT = ('viz.html', 'viz_logic.js', 'viz_styling.css')
OUT = SUPPORT + ('output.js',)
KINDS = ['eio', 'enospc', 'edquot', 'torn', 'torn', 'crash', 'crash', 'interrupt', 'eacces', 'emfile']


def gen_call(rng, ndst):
    fn = rng.choice(['visualize', 'visualize', 'no_leaves', 'clusters', 'clusters'])
    d = {'fn': fn, 'dst': rng.choice([None] + list(range(ndst)) * 3), 'recreate': rng.choice([True, True, False, None])}
    if d['dst'] is None:
        d['recreate'] = None
    if fn == 'no_leaves':
        d['cuts'] = rng.choice([None, 0, 1, 1, 2, 3, 7])
    if fn == 'clusters':
        d['by'] = rng.choice(['label', 'node'])
        d['pick'] = [rng.random() for _ in range(rng.choice([1, 1, 2, 4]))]
    if rng.random() < .3:
        d['short'] = (rng.getrandbits(30), rng.choice([.2, 1.0]))
    if rng.random() < .6:
        d['fault'] = (rng.random(), rng.choice(KINDS))
    elif rng.random() < .2:
        d['abort'] = rng.random()
    if rng.random() < .3:
        d['slash'] = True
    return d


def gen(rng, tier):
    t = hist.tree_type(rng)
    mk, relational = hist.maker(rng, t)
    n = rng.choice([0, 1, 2, 5, 10]) if not relational else rng.choice([0, 2, 4])
    if not relational and rng.random() < .04:             # a large tree: wide or deep
        n, mk = 45, hist.large(rng, t)
    prev = []
    fits = []
    for _ in range(n):
        i = mk(prev)
        prev.append(i)
        fits.append(i)
    ndst = rng.choice([1, 1, 2, 3])
    dsts = []
    for _ in range(ndst):
        have = []
        r = rng.random()
        if r < .35:
            have = rng.choice([['viz.html'], ['viz_styling.css'], list(SUPPORT), list(OUT), list(SUPPORT[:2]),
                               list(SUPPORT[1:]), ['output.js']])
        dsts.append({'have': have, 'custom': rng.choice([False, False, True, 'size', 'cut']),
                     'old': rng.choice([None, 0, 4e9]), 'missing': rng.random() < .05,
                     'user': rng.choice([[], ['notes.txt'], ['notes.txt', 'output.json', 'viz.html.bak'],
                                         ['sub/output.js', 'style.css']])})
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        c = gen_call(rng, ndst)
        if rng.random() < .3:
            i = mk(prev)
            prev.append(i)
            c['then_fit'] = i
        calls.append(c)
    return {'cfg': work.tree_cfg(rng, (t,)), 'stream': 'prng', 'fits': fits, 'dsts': dsts, 'calls': calls}


def nontrivial(scn):
    if any('fault' in c or 'short' in c or 'abort' in c for c in scn['calls']) or any(d['have'] for d in scn['dsts']):
        return repr(scn['calls']) + repr(scn['dsts']) + repr(scn['fits'])
    return None


# --------------------------------------------------------------------------- expected output
def render(n, keep, stop):
    """Independent description of the tree; keep(node): shown at all, stop(node): shown without children."""
    return {'node': n, 'children': [] if stop(n) else [render(c, keep, stop) for c in n.children if keep(c)]}


def height(n):
    return 1 + max(height(c) for c in n.children) if n.children else 0


def expected(tree, c, chosen):
    keep, stop = (lambda n: True), (lambda n: False)
    if c['fn'] == 'no_leaves':
        cuts = 1 if c['cuts'] is None else c['cuts']
        keep = lambda n: height(n) >= cuts
    if c['fn'] == 'clusters':
        ids = set(id(n) for n in chosen)
        stop = lambda n: id(n) in ids
    return render(tree.root, keep, stop)


def compare(exp, got, what):
    n = exp['node']
    name = 'Concept%s' % n.concept_id
    if not isinstance(got, dict) or got.get('name') != name:
        raise Violation('output', '%s: %s is missing from the output (found %.80r)' % (what, name, got))
    if got.get('size') != n.count:
        raise Violation('output', '%s: %s has size %r in the output, %r in the tree' % (what, name, got.get('size'), n.count))
    ids = [json.loads(json.dumps(v)) for v in n.av_counts.get('_guid', ())]
    if 'guid' in got and got['guid'] not in ids:
        raise Violation('output', '%s: %s has the guid %r in the output, %r in the tree' % (what, name, got.get('guid'), ids))
    counts = got.get('counts')
    if not isinstance(counts, dict):
        raise Violation('output', '%s: %s has no counts' % (what, name))
    names = [str(a) for a in n.av_counts]
    if set(counts) != set(names):
        raise Violation('output', '%s: %s describes the attributes %s instead of %s' % (what, name, sorted(counts), sorted(names)))
    for a, vs in n.av_counts.items():
        if names.count(str(a)) > 1:
            continue
        vn = [str(v) for v in vs]
        if set(counts[str(a)]) != set(vn):
            raise Violation('output', '%s: %s attribute %s has values %s instead of %s' % (what, name, a, sorted(counts[str(a)]), sorted(vn)))
        for v, k in vs.items():
            if vn.count(str(v)) > 1:
                continue
            g = counts[str(a)][str(v)]
            if is_cv(k):
                if not isinstance(g, dict) or g.get('n') != k.num or not close(g.get('mean'), k.mean) or \
                        not close(g.get('std'), k.unbiased_std()):
                    raise Violation('output', '%s: %s numeric attribute %s is %r instead of n=%r mean=%r std=%r'
                                    % (what, name, a, g, k.num, k.mean, k.unbiased_std()))
            elif g != k:
                raise Violation('output', '%s: %s %s=%s has count %r instead of %r' % (what, name, a, v, g, k))
    ge = {e['node'].concept_id: e for e in exp['children']}
    gg = got.get('children')
    if not isinstance(gg, list) or len(gg) != len(ge):
        raise Violation('output', '%s: %s has %s children in the output instead of %d'
                        % (what, name, len(gg) if isinstance(gg, list) else gg, len(ge)))
    gn = {x.get('name') if isinstance(x, dict) else None: x for x in gg}
    for cid, e in ge.items():
        compare(e, gn.get('Concept%s' % cid), what)


PRE, POST = '(function (){ window.trestle_output=', '; })();'


def parse(text, what):
    s = ''.join(text.split())
    pre, post = ''.join(PRE.split()), ''.join(POST.split())
    t = text.strip()
    if not (s.startswith(pre) and s.endswith(post)):
        raise Violation('output', '%s: the data file is not a complete script: %.60r ... %r' % (what, t, t[-40:]))
    a = t.index('=') + 1
    b = t.rindex('}', 0, t.rindex(')('))
    b = t[:b].rstrip()
    if b.endswith(';'):
        b = b[:-1]
    try:
        return json.loads(b[a:])
    except ValueError as e:
        raise Violation('output', '%s: the data file does not hold one JSON object: %s' % (what, e))


# --------------------------------------------------------------------------- files
def read(p):
    with disk.REAL_OPEN(p, 'rb') as f:
        return f.read()


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else read(p)
        for x in ds:
            if not os.listdir(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), root) + '/'] = b''
    return out


_shipped = {}


def shipped():
    if not _shipped:
        for f in os.listdir(VF):
            p = os.path.join(VF, f)
            if os.path.isfile(p):
                _shipped[f] = read(p)
    return _shipped


def prepare(scn, scratch):
    pkg = os.path.join(scratch, 'pkg')
    os.mkdir(pkg)
    for f, b in shipped().items():
        with disk.REAL_OPEN(os.path.join(pkg, f), 'wb') as o:
            o.write(b)
    dirs = []
    for i, d in enumerate(scn['dsts']):
        p = os.path.join(scratch, 'dst%d' % i)
        dirs.append(p)
        if d['missing']:
            continue
        os.mkdir(p)
        for f in d['have']:
            with disk.REAL_OPEN(os.path.join(p, f), 'wb') as o:
                b = shipped()[f]
                if d['custom'] == 'size':          # as long as the shipped file
                    b = b.replace(b'e', b'E')
                elif d['custom'] == 'cut':         # left behind by an interrupted copy
                    b = b[:len(b) // 2]
                elif d['custom']:
                    b = b'<!-- mine -->' + b
                o.write(b)
                o.flush()
                if d.get('old') is not None:
                    os.utime(o.fileno(), (d['old'], d['old']))
        for f in d['user']:
            q = os.path.join(p, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with disk.REAL_OPEN(q, 'wb') as o:
                o.write(b'user data ' + f.encode())
    return pkg, dirs


BROWSER = {'dk': None, 'root': None, 'seen': []}


# --------------------------------------------------------------------------- run
def run(scn, ctx):
    L = core.lib()
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='simviz_'))
    BROWSER.update(dk=None, root=scratch, seen=[])
    saved = {n: getattr(webbrowser, n) for n in ('open', 'open_new', 'open_new_tab', 'get')}

    def stub(url, *a, **k):
        # what the page would find on the disk at this moment
        dk = BROWSER['dk']
        was = dk.active if dk else None
        if dk:
            dk.active = False
        try:
            BROWSER['seen'].append((str(url), files(scratch)))
        finally:
            if dk:
                dk.active = was
        return True
    try:
        webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = stub
        webbrowser.get = lambda *a, **k: webbrowser
        for n, f in list(vars(L.visualize).items()):       # imported by name
            if any(f is g for g in saved.values()):
                setattr(L.visualize, n, webbrowser.get if f is saved['get'] else stub)
        body(L, scn, ctx, scratch)
    finally:
        for n, f in saved.items():
            setattr(webbrowser, n, f)
        shutil.rmtree(scratch, ignore_errors=True)


def body(L, scn, ctx, scratch):
    tree = L.make(scn['cfg'])
    for i, inst in enumerate(scn['fits']):
        core.op_stream(scn['seed'], i)
        core.guarded(tree.ifit, json_copy(inst))
    pkg, dirs = prepare(scn, scratch)
    initial = set(files(scratch))
    for k, c in enumerate(scn['calls']):
        core.op_stream(scn['seed'], -k - 1)
        one_call(L, scn, ctx, tree, k, c, scratch, pkg, dirs, initial)
        if c.get('then_fit') is not None:
            core.op_stream(scn['seed'], 1000 + k)
            core.guarded(tree.ifit, json_copy(c['then_fit']))
    ctx.state(shape(tree))


def json_copy(x):
    import copy
    return copy.deepcopy(x)


def invoke(L, tree, c, chosen, dirs):
    V = L.visualize
    kw = {}
    if c['dst'] is not None:
        kw['dst'] = dirs[c['dst']] + ('/' if c.get('slash') else '')
    if c['recreate'] is not None:
        kw['recreate_html'] = c['recreate']
    if c['fn'] == 'visualize':
        return V.visualize(tree, **kw)
    if c['fn'] == 'no_leaves':
        if c['cuts'] is not None:
            kw['cuts'] = c['cuts']
        return V.visualize_no_leaves(tree, **kw)
    cl = list(chosen) if c['by'] == 'node' else ['Concept%s' % n.concept_id for n in chosen]
    before = list(cl)
    try:
        return V.visualize_clusters(tree, cl, **kw)
    finally:
        if cl != before:
            raise Violation('argument', 'the list of clusters was changed')


def attempt(L, tree, c, chosen, dirs, dk, abort=None):
    """(exception or None)"""
    BROWSER.update(dk=dk, seen=[])
    try:
        with dk:
            if abort is not None:
                with monitor.Interrupter(abort):
                    invoke(L, tree, c, chosen, dirs)
            else:
                invoke(L, tree, c, chosen, dirs)
        return None
    except (Violation, core.SimStall):
        raise
    except BaseException as e:
        return e
    finally:
        BROWSER['dk'] = None
        dk.release()


def one_call(L, scn, ctx, tree, k, c, scratch, pkg, dirs, initial):
    what = 'call %d (%s)' % (k, c['fn'])
    ns = nodes(tree)
    chosen = []
    if c['fn'] == 'clusters':
        for f in c['pick']:
            chosen.append(ns[int(f * len(ns))])
    snap = snapshot(tree)
    mine = pkg if c['dst'] is None else dirs[c['dst']]
    missing = not os.path.isdir(mine)
    before = files(scratch)
    orig = {f: before.get(os.path.relpath(os.path.join(mine, f), scratch)) for f in OUT}
    mk = lambda **kw: disk.Disk(writable=[scratch], overlay={VF: pkg}, **kw)
    # dry run on a copy of the disk to know how many calls there are
    faults, abort = (), None
    if ('fault' in c or 'abort' in c) and not missing:
        n, lines = dry(L, tree, c, chosen, scratch, dirs, pkg)
        if 'fault' in c:
            faults = [(1 + int(c['fault'][0] * n), c['fault'][1])]
        else:
            abort = 1 + int(c['abort'] * lines)
    dk = mk(faults=faults, short=c.get('short'), ctx=ctx)
    dk.initial = initial
    exc = attempt(L, tree, c, chosen, dirs, dk, abort)
    if abort and exc is not None:
        ctx.fault('aborted_call')
    ctx.state((c['fn'], c['recreate'], c['dst'] is None, tuple(x[1:] for x in dk.fired),
               type(exc).__name__ if exc else 'ok'))
    judge(tree, c, chosen, exc, dk, snap, mine, before, orig, scratch, what, missing, abort)
    if exc is not None and not missing:
        ctx.probe('retry')
        mid = files(scratch)
        dk = mk(short=c.get('short'), ctx=ctx)
        dk.initial = initial
        exc2 = attempt(L, tree, c, chosen, dirs, dk)
        judge(tree, c, chosen, exc2, dk, snap, mine, mid, orig, scratch, what + ', repeated after ' +
              core.exc_text(exc)[:120], missing, None)


def dry(L, tree, c, chosen, scratch, dirs, pkg):
    side = os.path.realpath(tempfile.mkdtemp(prefix='simviz_'))
    try:
        shutil.rmtree(side)
        shutil.copytree(scratch, side)
        d2 = [side + d[len(scratch):] for d in dirs]
        p2 = side + pkg[len(scratch):]
        dk = disk.Disk(writable=[side], overlay={VF: p2}, short=c.get('short'))
        with monitor.Interrupter() as it:
            try:
                with dk:
                    invoke(L, tree, c, chosen, d2)
            except Exception:
                pass
            finally:
                dk.release()
        return max(1, dk.calls), max(1, it.n)
    finally:
        shutil.rmtree(side, ignore_errors=True)


def judge(tree, c, chosen, exc, dk, snap, mine, before, orig, scratch, what, missing, abort):
    if dk.escapes:
        raise Violation('escape', '%s: wants to %s %s' % (what, dk.escapes[0][0], dk.escapes[0][1].replace(scratch, '')))
    if snapshot(tree) != snap:
        raise Violation('tree', '%s changed the tree' % what)
    after = files(scratch)
    rel = os.path.relpath(mine, scratch)
    outs = set(os.path.join(rel, f) for f in (OUT if c['dst'] is not None else OUT[3:]))
    for f, b in before.items():
        if f not in outs and after.get(f) != b and not f.endswith('/'):
            if f not in dk.initial and f.startswith(rel + '/'):
                continue          # a temporary file an earlier failed call left behind
            raise Violation('other file', '%s %s the file %s' % (what, 'changed' if f in after else 'removed', f))
    if exc is not None:
        if not (dk.fired or abort or missing):
            raise Violation('exception', '%s fails without a fault: %s @ %s' % (what, core.exc_text(exc), core.where(exc)))
        return
    if missing and not os.path.isdir(mine):
        raise Violation('output', '%s returned normally but there is no destination directory' % what)
    new = [f for f in after if f not in before and f not in outs]
    if new:
        raise Violation('other file', '%s created %s' % (what, new))
    seen = BROWSER['seen']
    if not seen:
        raise Violation('browser', '%s returned normally but opened no page' % what)
    url, then = seen[-1]
    page = unquote(url[len('file://'):] if url.startswith('file://') else url)
    if os.path.basename(page) != 'viz.html' and c['dst'] is None or c['dst'] is not None and \
            os.path.realpath(page) != os.path.realpath(os.path.join(mine, 'viz.html')):
        raise Violation('browser', '%s opened %s' % (what, url.replace(scratch, '')))
    for f in sorted(outs):
        if then.get(f) != after.get(f):
            raise Violation('browser', '%s opened the page before %s was complete' % (what, f))
    ship = shipped()
    if c['dst'] is not None:
        for f in SUPPORT:
            b = after.get(os.path.join(rel, f))
            if b is None:
                raise Violation('support file', '%s: %s is missing' % (what, f))
            if b == ship[f]:
                continue
            if c['recreate'] is False and orig[f] is not None and b == orig[f]:
                continue
            raise Violation('support file', '%s: %s is not the shipped file (%d bytes instead of %d)'
                            % (what, f, len(b), len(ship[f])))
    b = after.get(os.path.join(rel, 'output.js'))
    if b is None:
        raise Violation('output', '%s: there is no data file' % what)
    try:
        text = b.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Violation('output', '%s: the data file is damaged: %s' % (what, e))
    compare(expected(tree, c, chosen), parse(text, what), what)
