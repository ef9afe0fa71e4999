"""Development aid: turn the specifications of planted bugs (tools/seeds.py) into seeded/<id>/ and try them.

  seed.py make ID...    build patch.diff, demo and meta.json; verify in scratch copies
  seed.py check ID...   apply to /repo, run the property's check, undo
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests(copy):
    text = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + copy)
    p = os.path.join(copy, '..', 'test.sh')
    open(p, 'w').write(text)
    out = os.path.join(copy, '..', 'out.json')
    r = sh(['bash', p, out])
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return res, base, r


def names(obj):
    for k in ('passed', 'pass', 'stable', 'stable_pass'):
        if isinstance(obj, dict) and k in obj:
            return set(obj[k] if isinstance(obj[k], list) else obj[k].keys())
    raise SystemExit('keys: %r' % list(obj)[:10])


def make(spec):
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        clean, bad = os.path.join(work, 'clean'), os.path.join(work, 'bad')
        for d in (clean, bad):
            sh(['cp', '-a', REPO, d])
        for f, old, new in spec['edits']:
            p = os.path.join(bad, 'concept_formation', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit in %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', bad, 'diff']).stdout
        dst = os.path.join(VERIF, 'seeded', spec['id'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(dst, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
        open(os.path.join(dst, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        res, base, r = tests(bad)
        miss = sorted(names(base) - names(res))
        problems = []
        if miss:
            problems.append('tests fail: %s' % miss[:5])
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHASHSEED')}
        for d, want in ((clean, 0), (bad, 1)):
            for _ in range(2):
                r = sh(['bash', os.path.join(dst, 'demo.sh')], cwd=d, env=env, timeout=300)
                if (r.returncode != 0) != bool(want):
                    problems.append('demo on %s exits %d: %s' % (os.path.basename(d), r.returncode,
                                                               r.stdout.decode()[-600:]))
        if problems:
            open(os.path.join(dst, 'BROKEN'), 'w').write('\n'.join(problems))
        return '; '.join(problems) or None
    finally:
        shutil.rmtree(work)


def check(sid, prop, extra=()):
    patch = os.path.join(VERIF, 'seeded', sid, 'patch.diff')
    if sh(['git', '-C', REPO, 'status', '--porcelain', '-uno']).stdout.strip():
        raise SystemExit('/repo is not clean')
    out = {}
    try:
        r = sh(['git', '-C', REPO, 'apply', patch])
        if r.returncode:
            return {'apply': r.stdout.decode()}
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        for p in (prop,) + tuple(extra):
            r = sh(['/opt/venv/bin/python', 'check.py', p], cwd=VERIF, env=env)
            text = r.stdout.decode()
            m = re.search(r'^VIOLATION.*', text, re.M)
            out[p] = (r.returncode, m.group(0) if m else text[-300:] if r.returncode else '')
            if m:
                path = m.group(0).split('replay=')[1].strip()
                try:
                    out[p] += (json.load(open(path)).get('violation'),)
                except Exception as e:
                    out[p] += (repr(e),)
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    return out


if __name__ == '__main__':
    import seeds
    specs = {s['id']: s for s in seeds.SEEDS}
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(specs)
    for i in ids:
        if cmd == 'make':
            print(i, make(specs[i]) or 'ok', flush=True)
        else:
            i, _, more = i.partition(':')
            print(i, check(i, specs[i]['property'], tuple(x for x in more.split(',') if x)), flush=True)
