"""Runs the checks: shards seeds over worker processes, minimises, writes replays and evidence."""
import ast
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NW = 8
RUN_CPU_S = 30          # CPU seconds one run may take before it counts as not terminating
BATCH_WALL_S = 600      # a batch stops drawing new runs after this


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def run_seed(base, pid, i):
    from sim.core import stream_seed
    return stream_seed(base, pid, i) % (1 << 48)


def _alarm(signum, frame):
    from sim.core import SimStall
    raise SimStall('run used more than %d CPU seconds' % RUN_CPU_S)


def execute(prop, scn, ctx):
    """Run one scenario. Returns None or (kind, message)."""
    from sim import core
    core.install_random()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_S)
    try:
        core.new_process()
        prop.run(scn, ctx)
        return None
    except core.Violation as v:
        return (v.kind, v.msg)
    except core.SimStall as e:
        return ('stall', str(e))
    except Exception as e:
        if core.in_library(e):
            return ('exception', core.exc_text(e) + ' @ ' + core.where(e))
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError)):
            # the library answered with something of another kind than documented, which the oracle cannot even read;
            # on the unchanged tree this never happens
            fr = traceback.extract_tb(e.__traceback__)[-1]
            return ('unreadable', 'an answer is not of the documented kind: %s (checker, %s:%d)'
                    % (core.exc_text(e), os.path.basename(fr.filename), fr.lineno))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        from sim import monitor
        monitor.off()


# --------------------------------------------------------------------------- minimisation
def _ddmin(items, test):
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        shrunk = False
        for start in range(0, len(items), size):
            cand = items[:start] + items[start + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                shrunk = True
                break
        if not shrunk:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(prop, scn, kind, budget_s=40):
    from sim.core import Ctx
    t0 = time.time()

    def fails(s):
        if time.time() - t0 > budget_s:
            return False
        try:
            r = execute(prop, s, Ctx())
        except Exception:
            return False
        return r is not None and r[0] == kind

    for _ in range(2):
        before = repr(scn)
        for key in getattr(prop, 'SHRINK', ('ops',)):
            if isinstance(scn.get(key), list):
                def test(items, key=key):
                    s = dict(scn)
                    s[key] = items
                    return fails(s)
                scn = dict(scn)
                scn[key] = _ddmin(scn[key], test)
        # greedy simplification of single operations
        progress = True
        while progress and time.time() - t0 < budget_s:
            progress = False
            for cand in (prop.simplify(scn) if hasattr(prop, 'simplify') else _simplify(scn)):
                if fails(cand):
                    scn = cand
                    progress = True
                    break
                if time.time() - t0 > budget_s:
                    break
        if repr(scn) == before:
            break
    return scn


def _drop_keys(d):
    for k in list(d):
        yield {a: v for a, v in d.items() if a != k}


def _simplify(scn):
    """Drop single attributes of the instances that occur in the operations."""
    ops = scn.get('ops')
    if not isinstance(ops, list):
        return
    for i, op in enumerate(ops):
        if not isinstance(op, dict):
            continue
        for key in ('inst', 'insts'):
            v = op.get(key)
            if isinstance(v, dict):
                for d in _drop_keys(v):
                    yield dict(scn, ops=ops[:i] + [dict(op, **{key: d})] + ops[i + 1:])
            elif isinstance(v, list):
                for j in range(len(v)):
                    yield dict(scn, ops=ops[:i] + [dict(op, **{key: v[:j] + v[j + 1:]})] + ops[i + 1:])


# --------------------------------------------------------------------------- worker
def worker(pid, shard, nshards, base, tier, nruns, outdir):
    from sim.core import Ctx, Rng
    prop = load_prop(pid)
    ctx = Ctx()
    t0 = time.time()
    out = {'runs': 0, 'violations': [], 'samples': [], 'error': None, 'sig': [], 'skipped': 0}
    stop = os.path.join(outdir, 'stop')
    hb = os.path.join(outdir, 'hb%d' % shard)
    sigs = set()
    try:
        for i in range(shard, nruns, nshards):
            if os.path.exists(stop) or time.time() - t0 > BATCH_WALL_S:
                out['skipped'] += len(range(i, nruns, nshards))
                break
            seed = run_seed(base, pid, i)
            with open(hb, 'w') as f:
                f.write('%d %d' % (i, seed))
            scn = prop.gen(Rng(seed), tier)
            scn['seed'] = seed
            sig = prop.nontrivial(scn) if hasattr(prop, 'nontrivial') else repr(scn)
            n_before = len(ctx.states)
            r = execute(prop, scn, ctx)
            out['runs'] += 1
            if sig:
                sigs.add(hash(sig))
            if r is not None:
                open(stop, 'w').close()
                full = scn
                mini = minimise(prop, scn, r[0])
                r2 = execute(prop, mini, Ctx())
                if r2 is None:          # not reproducible after minimising: report the full run
                    mini, r2 = full, r
                out['violations'].append({'index': i, 'seed': seed, 'kind': r2[0], 'msg': r2[1],
                                          'scenario': repr(mini), 'full_len': len(repr(full))})
                break
            if len(out['samples']) < 2:
                out['samples'].append({'run': i, 'seed': seed, 'scenario': repr(scn)[:1500]})
    except BaseException:
        out['error'] = traceback.format_exc()
    out['faults'] = dict(ctx.faults)
    out['probes'] = dict(ctx.probes)
    out['states'] = [s.hex() for s in ctx.states]
    out['interleavings'] = [s.hex() for s in ctx.interleavings]
    out['steps'] = ctx.steps
    out['distinct'] = len(sigs)
    tmp = os.path.join(outdir, 'out%d.tmp' % shard)
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(outdir, 'out%d.json' % shard))
    os._exit(0)      # parked simulator threads must not keep the process


def _env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF)
    env.pop('PYTHONHOME', None)
    return env


def hash_seed(base, shard):
    return (base * 101 + shard * 7 + 1) % 4294967296


# --------------------------------------------------------------------------- replay files
def write_replay(pid, base, tier, v, hs):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, v['seed']))
    scn = ast.literal_eval(v['scenario'])
    with open(path, 'w') as f:
        json.dump({'property': pid, 'verif_seed': base, 'tier': tier, 'run_seed': v['seed'], 'run': v['index'],
                   'hashseed': hs, 'kind': v['kind'], 'violation': v['msg'], 'scenario': v['scenario'],
                   'readable': _readable(scn),
                   'how': PY + ' check.py --replay ' + os.path.relpath(path, VERIF)}, f, indent=1)
    return path


def _readable(scn):
    out = {}
    for k, v in scn.items():
        out[k] = [repr(x) for x in v] if isinstance(v, list) else repr(v)
    return out


def replay_inner(path):
    from sim.core import Ctx
    d = json.load(open(path))
    prop = load_prop(d['property'])
    r = execute(prop, ast.literal_eval(d['scenario']), Ctx())
    print(json.dumps({'result': r}))
    sys.stdout.flush()
    os._exit(0)


def replay(path):
    d = json.load(open(path))
    r = _run_replay(path, d['hashseed'])
    if r is None:
        print('replay did not reproduce a violation')
        return 0
    print('replay: %s: %s' % (r[0], r[1]))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


def _run_replay(path, hs):
    p = subprocess.run([PY, os.path.join(VERIF, 'check.py'), '--replay-inner', path], env=_env(hs), cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    for line in reversed(p.stdout.decode(errors='replace').splitlines()):
        try:
            return json.loads(line)['result']
        except (ValueError, KeyError, TypeError):
            continue
    raise RuntimeError('replay failed: ' + p.stderr.decode(errors='replace')[-2000:])


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                sig, _, text = line.split(' ', 2)[2].partition(' :: ')
                out.append((sig, text))
    return out


# --------------------------------------------------------------------------- orchestrator
def check(pid, nruns_override=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    t0 = time.time()
    print('%s: tier=%s VERIF_SEED=%d' % (pid, tier, base))
    prop = load_prop(pid)
    nruns = nruns_override or prop.RUNS[tier]
    outdir = tempfile.mkdtemp(prefix='simcheck_')
    procs = []
    try:
        for s in range(NW):
            errf = open(os.path.join(outdir, 'err%d' % s), 'wb')
            procs.append(subprocess.Popen(
                [PY, os.path.join(VERIF, 'check.py'), '--worker', pid, str(s), str(NW), str(base), tier,
                 str(nruns), outdir], env=_env(hash_seed(base, s)), cwd=VERIF, stdout=errf, stderr=errf,
                start_new_session=True))
        outs, hung = [], []
        limit = BATCH_WALL_S + 200
        last = {}
        for s, p in enumerate(procs):
            path = os.path.join(outdir, 'out%d.json' % s)
            while p.poll() is None:
                time.sleep(0.02)
                now = time.time()
                hbp = os.path.join(outdir, 'hb%d' % s)
                try:
                    mt = os.stat(hbp).st_mtime
                except OSError:
                    mt = t0
                if now - max(mt, t0) > 300 or now - t0 > limit:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    try:
                        i, seed = open(hbp).read().split()
                    except (OSError, ValueError):
                        i, seed = '-1', '0'
                    hung.append((s, int(i), int(seed)))
            if os.path.exists(path):
                outs.append((s, json.load(open(path))))
            elif not any(h[0] == s for h in hung):
                err = open(os.path.join(outdir, 'err%d' % s), errors='replace').read()[-3000:]
                print('harness error: worker %d ended with %s\n%s' % (s, p.returncode, err))
                return 2
        return _report(pid, prop, tier, base, nruns, outs, hung, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(outdir, ignore_errors=True)


def _report(pid, prop, tier, base, nruns, outs, hung, t0):
    viol, errors = [], []
    faults, probes = collections.Counter(), collections.Counter()
    states, inter, samples = set(), set(), []
    runs = steps = distinct = skipped = 0
    for s, o in outs:
        runs += o['runs']
        steps += o['steps']
        distinct += o['distinct']
        skipped += o['skipped']
        faults.update(o['faults'])
        probes.update(o['probes'])
        states.update(o['states'])
        inter.update(o['interleavings'])
        samples += o['samples'][:1]
        for v in o['violations']:
            v['hashseed'] = hash_seed(base, s)
            viol.append(v)
        if o['error']:
            errors.append(o['error'])
    for s, i, seed in hung:
        from sim.core import Rng
        if seed:
            scn = prop.gen(Rng(seed), tier)
            scn['seed'] = seed
            viol.append({'index': i, 'seed': seed, 'kind': 'hang', 'msg': 'the run did not end (killed)',
                         'scenario': repr(scn), 'hashseed': hash_seed(base, s)})
        else:
            errors.append('worker %d hung before its first run' % s)
    wall = time.time() - t0
    known = known_findings(pid)
    viol.sort(key=lambda v: v['index'])
    real = []
    for v in viol:
        hit = [t for sig, t in known if sig in v['msg']]
        if not hit:
            real.append(v)
    for sig, text in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    replays = []
    for v in real[:3]:
        path = write_replay(pid, base, tier, v, v['hashseed'])
        replays.append(path)
        print('violation (run %d, seed %d): %s: %s' % (v['index'], v['seed'], v['kind'], v['msg'][:1000]))
        try:
            if v['kind'] == 'hang':
                rep = None
            else:
                rep = _run_replay(path, v['hashseed'])
                print('replayed in a fresh process: %s' % ('same violation class' if rep and rep[0] == v['kind']
                                                           else repr(rep)))
        except Exception as e:
            print('replay in a fresh process not possible: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': distinct,
        'rule': prop.RULE,
        'samples': samples[:6],
        'simulated_runs_per_hour': int(runs / wall * 3600) if wall > 0 else 0,
        'seeds': {'first': run_seed(base, pid, 0), 'base': base, 'count': runs,
                  'derivation': 'sha256(VERIF_SEED, property, run index)'},
        'hash_seeds': sorted(set(hash_seed(base, s) for s, _ in outs)),
        'simulated_time': {'unit': 'simulator events (operations, draws, scheduling points, I/O calls)',
                           'covered': steps},
        'faults_injected': dict(sorted(faults.items())),
        'rare_conditions_hit': dict(sorted(probes.items())),
        'distinct_states': {'measure': getattr(prop, 'STATE_MEASURE', 'canonical tree shape with concept sizes'),
                            'count': len(states)},
        'distinct_interleavings': {'measure': getattr(prop, 'INTERLEAVING_MEASURE', 'not applicable to this check'),
                                   'count': len(inter)},
        'components': {'real': prop.REAL, 'stub': prop.STUB},
        'runs_skipped_for_time': skipped,
    }
    ev = {'property': pid, 'tier': tier, 'seed': base, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(prop, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(real),
          'replays': [os.path.relpath(r, VERIF) for r in replays]}
    tmp = os.path.join(evd, pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(evd, pid + '.json'))
    print('%s: %d runs (%d distinct non-trivial), %d states, %d interleavings, %d steps, faults %s, %.1f s' % (
        pid, runs, distinct, len(states), len(inter), steps, dict(faults), wall))
    if probes:
        print('  probes %s' % dict(sorted(probes.items())))
    if real:
        return 1
    if errors:
        print('harness error:\n' + errors[0])
        return 2
    if runs == 0:
        print('harness error: no run executed')
        return 2
    return 0


def main(argv):
    sys.path.insert(0, VERIF)
    if argv and argv[0] == '--worker':
        pid, s, n, base, tier, nruns, outdir = argv[1:]
        worker(pid, int(s), int(n), int(base), tier, int(nruns), outdir)
    elif argv and argv[0] == '--peer':
        from sim.props import c07
        c07.peer()
        return 0
    elif argv and argv[0] == '--replay-inner':
        replay_inner(argv[1])
    elif argv and argv[0] == '--replay':
        return replay(os.path.abspath(argv[1]))
    elif argv:
        return check(argv[0], int(argv[1]) if len(argv) > 1 else None)
    print('usage: check.py <property> [runs] | --replay <file>')
    return 2
