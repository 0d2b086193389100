"""Development tool: how the checks fare against a changed copy of /repo.

  mutants.py cache [C01 ...]         explore the specification and keep the result
  mutants.py try NAME PATCH [C01..]  apply PATCH to a copy of /repo and run the comparisons there
The specification does not depend on the code, so it is explored only once."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check        # noqa: E402
import pom          # noqa: E402
import profiles     # noqa: E402

CACHE = '/tmp/w/cache'


def cache(pid):
    os.makedirs(CACHE, exist_ok=True)
    w = tempfile.mkdtemp()
    progs = profiles.corpus(pid, int(os.environ.get('VERIF_SEED', '1')), 'quick')
    m = pom.run_model(progs, w, check.weight)
    shutil.rmtree(w)
    pickle.dump((progs, m), open('%s/%s.pkl' % (CACHE, pid), 'wb'))


LOADED = {}


def load(pid):
    if pid not in LOADED:
        LOADED[pid] = pickle.load(open('%s/%s.pkl' % (CACHE, pid), 'rb'))
    return LOADED[pid]


class Copy:
    """A copy of /repo with its own build of the harness; it is kept from one use to the next."""

    def __init__(self, name):
        self.root = '/tmp/w/m/' + name
        os.makedirs(self.root, exist_ok=True)
        self.repo = self.root + '/repo'
        self.h = self.root + '/harness'
        if not os.path.exists(self.repo):
            subprocess.run(['git', 'clone', '-q', '/repo', self.repo], check=True)
            subprocess.run(['cp', '/repo/Cargo.lock', self.repo], check=False)
            shutil.copytree(os.path.join(pom.VERIF, 'harness'), self.h)
            t = open(self.h + '/Cargo.toml').read().replace('"/repo"', '"%s"' % self.repo)
            open(self.h + '/Cargo.toml', 'w').write(t)
        subprocess.run('git fetch -q origin && git reset -q --hard origin/HEAD', shell=True, cwd=self.repo, check=True)

    def apply(self, patch):
        r = subprocess.run(['git', 'apply', os.path.abspath(patch)], cwd=self.repo, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit('does not apply: ' + r.stderr)

    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=self.root + '/target', CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json', '--manifest-path', self.h + '/Cargo.toml'],
                           env=env, capture_output=True, text=True)
        if r.returncode:
            return None
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'pomelo':
                rlib = [f for f in m['filenames'] if f.endswith('.rlib')][0]
        return ['--extern', 'pomelo=' + rlib, '-L', 'dependency=' + self.root + '/target/debug/deps']

    def tests(self):
        """The stable tests that do not pass in the copy"""
        sh = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', open('/opt/vp/env.sh').read().replace('/repo', self.repo))
        sh = sh.replace('CARGO_INCREMENTAL=1', 'CARGO_INCREMENTAL=0')
        f = self.root + '/test.sh'
        open(f, 'w').write(sh)
        out = self.root + '/out.json'
        if os.path.exists(out):
            os.unlink(out)
        try:
            subprocess.run(['bash', f, out], capture_output=True, timeout=200)
            passed = set(json.load(open(out))['passed'])
        except (subprocess.TimeoutExpired, OSError):
            return ['(timeout)']
        return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)

    def quick(self):
        """Do the tests that are compiled with the crate pass?"""
        sh = open('/opt/vp/env.sh').read().replace('/repo', self.repo).replace('CARGO_INCREMENTAL=1', 'CARGO_INCREMENTAL=0')
        try:
            r = subprocess.run(['bash', '-c', sh + '\nexec cargo test --workspace --all-features --offline --test general'], capture_output=True, cwd=self.repo, timeout=200)
        except subprocess.TimeoutExpired:
            return False
        return r.returncode == 0

    def run(self, args, pids, stop=False):
        out = {}
        for pid in pids:
            w = tempfile.mkdtemp(dir=self.root)
            progs, m = load(pid)
            t = time.time()
            c, real, extra = check.confront(pid, progs, m, w, args)
            out[pid] = (len(c.bad), c.bad[0]['what'][:200] if c.bad else '', round(time.time() - t, 1))
            shutil.rmtree(w)
            if stop and c.bad:
                break
        return out


ALL = ['C%02d' % i for i in range(1, 26)]
if __name__ == '__main__':
    if sys.argv[1] == 'cache':
        for p in sys.argv[2:] or ALL:
            cache(p)
            print(p, flush=True)
    elif sys.argv[1] == 'try':
        c = Copy('try')
        c.apply(sys.argv[3])
        a = c.build()
        if a is None:
            print('does not build')
        else:
            pids = sys.argv[4:] or ALL
            r = c.run(a, pids)
            print(sys.argv[2], ' '.join(p for p in pids if r[p][0]) or 'NOT CAUGHT', '|', [r[p] for p in pids if r[p][0]][:2])
