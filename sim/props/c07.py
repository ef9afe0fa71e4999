"""C07: learning is reproducible from the random seed, in every process."""
import ast
import copy
import os
import pickle
import subprocess
import sys

from sim import core, queries, runner, work
from sim.core import Rng, Violation
from sim.oracle import close, fingerprint, nodes, scales

RUNS = {'quick': 1200, 'thorough': 40000}
SHRINK = ('ops', 'envs')
RULE = ('one run = one seeded history of fits, batch fits and queries executed in 2-3 separate processes that differ in '
        'hash seed, clock, operating-system entropy, memory layout and earlier activity (other trees, used-up concept '
        'ids); trees and answers are compared; non-trivial = at least 3 fits, distinct = different operation text')
REAL = ['trees, concepts', 'interpreter hash seeds (separate processes)']
STUB = ['clock', 'operating-system entropy (os.urandom, unseeded generators)',
        'generator behind the random module (seeded through random.seed)']
ASSUMPTIONS = ['Cobweb and Cobweb/3 trees; clustering, whose ties are broken by hash order, is not compared']
STATE_MEASURE = 'distinct final trees (canonical fingerprint)'
KINDS = ['categorize', 'infer', 'score', 'predict', 'probability', 'weighted', 'ecg', 'cu', 'exact']
HASHES = (0, 1, 77)


def gen(rng, tier):
    t = rng.choice(['cobweb', 'cobweb3', 'cobweb3'])
    cfg = work.tree_cfg(rng, (t,))
    s = work.schema(rng, t)
    mk = lambda prev: work.instance(rng, s, prev)
    ops, prev = [], []
    for _ in range(rng.choice([4, 10, 20, 40])):
        r = rng.random()
        if r < .6 or not prev:
            i = mk(prev)
            prev.append(i)
            ops.append({'op': 'fit', 'inst': i})
        elif r < .9:
            ops.append(queries.gen(rng, mk, prev, KINDS))
        elif r < .96:
            b = [mk(prev) for _ in range(rng.randint(2, 5))]
            prev += b
            ops.append({'op': 'batch', 'insts': b, 'rand': rng.random() < .7, 'iters': rng.choice([1, 2])})
        elif r < .98:
            ops.append({'op': rng.choice(['pickle', 'deepcopy'])})
        else:
            ops.append({'op': 'clear'})
    hs = list(HASHES)
    rng.shuffle(hs)
    envs = [{'hash': h, 'clock': round(rng.uniform(0, 2e9), 3), 'entropy': rng.getrandbits(32),
             'prior': rng.choice([0, 0, 3, 8, 90]), 'garbage': rng.choice([0, 1000])}
            for h in hs[:rng.choice([2, 2, 3])]]
    return {'cfg': cfg, 'ops': ops, 'rseed': rng.choice([0, 1, rng.getrandbits(31)]), 'envs': envs}


def nontrivial(scn):
    return repr(scn['ops']) if sum(1 for o in scn['ops'] if o['op'] in ('fit', 'batch')) >= 3 else None


# --------------------------------------------------------------------------- inside a peer process
def play(scn, env):
    import random
    import time
    core.install_random()
    ent = Rng(env['entropy'])
    real = (os.urandom, time.time, time.monotonic, time.perf_counter, random.Random)
    clk = [env['clock']]

    def tick():
        clk[0] += .37
        return clk[0]

    class Seeded(real[4]):
        def __init__(self, x=None):
            real[4].__init__(self, ent.getrandbits(64) if x is None else x)

        def seed(self, a=None, version=2):
            real[4].seed(self, ent.getrandbits(64) if a is None else a, version)
    os.urandom = lambda n: bytes(ent.getrandbits(8) for _ in range(n))
    time.time = time.monotonic = time.perf_counter = tick
    random.Random = Seeded
    try:
        L = core.new_process()
        core.SIM.use(core.Stream(env['entropy'], cap=10 ** 7))
        hold = [object() for _ in range(env['garbage'])]
        if env['prior']:
            o = L.make(scn['cfg'])
            for k in range(env['prior']):
                o.ifit({'prior': 'v%d' % (k % 5), 'q': 'w%d' % (k % 3)})
            hold.append(o if env['prior'] % 2 else None)
        random.seed(scn['rseed'])
        tree = L.make(scn['cfg'])
        out = []
        for op in scn['ops']:
            k = op['op']
            r = None
            if k == 'fit':
                r = queries.pos(tree, tree.ifit(copy.deepcopy(op['inst'])))
            elif k == 'batch':
                tree.fit(copy.deepcopy(op['insts']), op['iters'], op['rand'])
            elif k == 'q':
                r = queries.run(L, tree, op, queries.args(op))[0]
            elif k == 'pickle':
                tree = pickle.loads(pickle.dumps(tree))
            elif k == 'deepcopy':
                tree = copy.deepcopy(tree)
            else:
                tree.clear()
            out.append(r)
        return ('ok', out, fingerprint(tree), sorted((repr(a), v) for a, v in scales(tree).items()), len(nodes(tree)))
    finally:
        os.urandom, time.time, time.monotonic, time.perf_counter, random.Random = real


def peer():
    """Main loop of a peer process."""
    import signal
    out = sys.stdout
    sys.stdout = sys.stderr

    def alarm(*_):
        raise core.SimStall('run used more than %d CPU seconds' % runner.RUN_CPU_S)
    signal.signal(signal.SIGPROF, alarm)
    for line in sys.stdin:
        scn, env = ast.literal_eval(line)
        signal.setitimer(signal.ITIMER_PROF, runner.RUN_CPU_S)
        try:
            r = play(scn, env)
        except core.SimStall as e:
            r = ('stall', str(e))
        except Violation as v:
            r = (v.kind, v.msg)
        except Exception as e:
            if not core.in_library(e):
                raise
            r = ('exception', core.exc_text(e) + ' @ ' + core.where(e))
        signal.setitimer(signal.ITIMER_PROF, 0)
        out.write(repr(r) + '\n')
        out.flush()


_peers = {}


def ask(env, scn):
    p = _peers.get(env['hash'])
    if p is None:
        p = _peers[env['hash']] = subprocess.Popen(
            [runner.PY, os.path.join(runner.VERIF, 'check.py'), '--peer'], env=runner._env(env['hash']),
            cwd=runner.VERIF, stdin=subprocess.PIPE, stdout=subprocess.PIPE, universal_newlines=True)
    p.stdin.write(repr((scn, env)) + '\n')
    p.stdin.flush()
    return p


def run(scn, ctx):
    slim = {k: scn[k] for k in ('cfg', 'ops', 'rseed')}
    ps = [ask(e, slim) for e in scn['envs']]
    res = []
    for p in ps:
        line = p.stdout.readline()
        if not line:
            raise RuntimeError('peer process died')
        res.append(ast.literal_eval(line))
    ctx.steps += len(scn['ops']) * len(res)
    ctx.fault('process_with_other_hash_seed', len(res) - 1)
    ctx.fault('clock_jump', len(res) - 1)
    ctx.fault('other_entropy', len(res) - 1)
    ctx.fault('earlier_activity', sum(1 for e in scn['envs'] if e['prior']))
    for r in res:
        if r[0] != 'ok':
            raise Violation(r[0], r[1])
    if not res:
        return
    a = res[0]
    ctx.state(a[2])
    for e, b in zip(scn['envs'][1:], res[1:]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if not same(x, y):
                raise Violation('answer', 'operation %d (%s) gives %r in one process and %r in another with the same '
                                'random seed' % (i, scn['ops'][i].get('q', scn['ops'][i]['op']), x, y))
        if not same(a[2:], b[2:]):
            raise Violation('tree', 'the same seed and operations give different trees in two processes')


def same(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or close(x, y, 1e-9, 1e-12)
    return x == y
