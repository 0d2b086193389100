"""Development tool: does every planted change in seeded/ apply, build, pass the stable tests and fail its demonstration
(which has to pass without it)?   seedtest.py [ID ...]   Then, with CHECKS=1, which checks notice it (see mutants.py)."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants      # noqa: E402
import pom          # noqa: E402

SEEDED = os.path.join(pom.VERIF, 'seeded')


def demo(i, repo):
    r = subprocess.run(['bash', os.path.join(SEEDED, i, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    c = mutants.Copy('seed')
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        subprocess.run('git reset -q --hard origin/HEAD', shell=True, cwd=c.repo, check=True)
        ok = True
        rc, out = demo(i, c.repo)
        if rc:
            ok = False
            print(i, 'DEMO FAILS UNPATCHED', out)
        c.apply(os.path.join(SEEDED, i, 'patch.diff'))
        a = c.build()
        if a is None:
            print(i, 'DOES NOT BUILD')
            continue
        t = c.tests()
        if t:
            ok = False
            print(i, 'TESTS FAIL', t[:4])
        rc, out = demo(i, c.repo)
        if not rc:
            ok = False
            print(i, 'DEMO PASSES PATCHED', out)
        hit = ''
        if ok and os.environ.get('CHECKS'):
            pids = sorted(f[:-4] for f in os.listdir(mutants.CACHE))
            pids = [meta['property']] + [p for p in pids if p != meta['property']] if os.environ['CHECKS'] != 'own' else [meta['property']]
            r = c.run(a, pids)
            hit = ' '.join(p for p in pids if r[p][0])
            hit += ' | own: %s' % (r[meta['property']],)
        print(i, meta['property'], 'ok' if ok else 'BAD', hit, flush=True)
    subprocess.run('git reset -q --hard origin/HEAD', shell=True, cwd=c.repo, check=True)


main()
