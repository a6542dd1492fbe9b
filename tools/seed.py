"""Make and try a planted bug: python3 tools/seed.py SPEC.py  (SPEC defines id, prop, edits=[(file, old, new)], demo, needs, breaks).
Writes seeded/<id>/ only if: the patch applies, the stable tests pass with it, demo exits 0 without and nonzero with it.  Then runs the property's check against it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')      # another clone is used while /repo must not be touched


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def script(name, arg):
    return sh('sed "s#/repo#%s#g" /opt/vp/%s | sed "s#dirname .*0.#/opt/vp#" | bash -s %s' % (REPO, name, arg), cwd=REPO)


def main(path):
    s = {}
    exec(open(path).read(), s)
    assert not sh('git -C %s status --short' % REPO).stdout.strip(), 'repo not clean'
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(s['demo'])
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONPATH="$PWD:/opt/vp" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/pypyvenv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    if r.returncode:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-1500:]); return 1
    try:
        for f, a, b in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            with open(p, 'w') as g:
                g.write(t.replace(a, b))
        with open(d + '/patch.diff', 'w') as g:
            g.write(sh('git -C %s diff' % REPO).stdout)
        script('build.sh', '')
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode == 0:
            print(s['id'], 'DEMO DOES NOT FAIL WITH THE BUG'); return 1
        print(s['id'], 'demo rc', r.returncode, r.stdout.strip().splitlines()[-1:])
        script('test.sh', '/tmp/seedt.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open('/tmp/seedt.json'))
        stable = base.get('stable') or base.get('passed') or base.get('tests')
        ok = set(got.get('passed') or [k for k, v in got.items() if v == 'passed'])
        bad = [t for t in stable if t not in ok]
        if bad:
            print(s['id'], 'STABLE TESTS FAIL', bad[:3]); return 1
        for c in [s['prop']] + s.get('also', []):
            r = sh('VERIF_REPO=%s timeout 900 bash run.sh %s --tier quick' % (REPO, c), cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            i = r.stdout.find('VIOLATION')
            print(s['id'], c, 'rc', r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'MISSED', r.stdout[i:i + 420] if v else r.stdout[-300:])
    finally:
        sh('git -C %s checkout -- .' % REPO)
        script('build.sh', '')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return 0


if __name__ == '__main__':
    for p in sys.argv[1:]:
        main(p)
