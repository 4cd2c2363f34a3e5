#!/usr/bin/env python3
"""Build /verif/seeded/<id> from tools/seeds/<id>.py and report whether it counts and is caught.

usage: seed.py ID...      (a seed file defines PROPERTY NEEDS BREAKS EDITS DEMO)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


def tests(d):
    with tempfile.TemporaryDirectory() as w:
        r = sh('%s /opt/vp/trial_lines.py %s/raw 60 --temp-directory=%s/_trial epsilon' % (PY, w, w), w,
               dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', HOME='/root'))
        return {l[5:].strip() for l in open(w + '/raw') if l.startswith('PASS ')}


def one(i):
    g = {}
    exec(open(os.path.join(HERE, 'tools', 'seeds', i + '.py')).read(), g)
    out = os.path.join(HERE, 'seeded', i)
    tmp = tempfile.mkdtemp(prefix='seed-')
    msg = []
    try:
        d = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        shutil.copy('/repo/epsilon/_version.py', d + '/epsilon/_version.py')
        base = tests(d)
        for f, a, b in g['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                return i, ['EDIT DOES NOT APPLY (%d): %s' % (s.count(a), a[:60])]
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git diff', d).stdout
        broken = base - tests(d)
        if broken:
            msg.append('BREAKS TESTS: %s' % sorted(broken)[:3])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(g['DEMO'].lstrip())
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds; 1: it is broken\n'
                                          'd=$(cd "$(dirname "$0")" && pwd)\n'
                                          'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % out, '/repo')
        if r.returncode:
            msg.append('DEMO FAILS ON CLEAN: ' + (r.stdout + r.stderr)[-300:])
        r = sh('bash %s/demo.sh' % out, d)
        if r.returncode == 0:
            msg.append('DEMO PASSES WITH THE BUG')
        props = g.get('CHECKS', [g['PROPERTY']])
        for p in props:
            if not os.path.exists(os.path.join(HERE, 'specs', p.lower() + '.py')):
                msg.append(p + ': no check')
                continue
            r = sh('/usr/bin/python3 check.py %s quick' % p, HERE, dict(VERIF_REPO=d), 1000)
            st = {0: 'MISSED', 1: 'caught', 2: 'NO ANSWER'}.get(r.returncode, str(r.returncode))
            lines = r.stdout.strip().splitlines()
            msg.append('%s %s %s' % (p, st, (lines[1][:150] if len(lines) > 1 else '') + (r.stderr[-300:] if r.returncode not in (0, 1) else '')))
    finally:
        shutil.rmtree(tmp)
    return i, msg


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'tools', 'seeds')) if f.endswith('.py'))
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, ids):
            print(i, '|', '; '.join(m), flush=True)
