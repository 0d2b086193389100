"""The machinery shared by the checks: building pomelo, running TLC on programs, compiling and
running the generated parsers, comparing what they do with what the specification says."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import tempfile
import time

import dsl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
TARGET = os.path.join(BUILD, 'target')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class Trouble(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class BuildBroken(Exception):
    pass


# ---------------------------------------------------------------- building pomelo
def repo_hash():
    h = hashlib.sha256()
    files = []
    for root in ('src', 'pomelo-impl'):
        for d, dirs, fs in os.walk(os.path.join(REPO, root)):
            dirs[:] = [x for x in dirs if x != 'target']
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(REPO, 'Cargo.toml'))
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()


def build():
    """Build pomelo from /repo; returns the rustc arguments to use it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = repo_hash()
        stamp = os.path.join(BUILD, 'stamp.json')
        try:
            st = json.load(open(stamp))
            if st['key'] == key and all(os.path.exists(p) for p in st['paths']):
                return st['args']
        except (OSError, ValueError, KeyError):
            pass
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
        man = ['--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')]
        if os.path.exists(TARGET):
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'pomelo', '-p', 'pomelo-impl',
                            '-p', 'pomelo-harness'] + man, env=env, capture_output=True)
        r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json'] + man, env=env,
                           capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise BuildBroken(r.stderr[-3000:])
        rlib = probe = None
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'pomelo':
                rlib = [f for f in m['filenames'] if f.endswith('.rlib')][0]
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('vp_probe', 'vp-probe'):
                probe = m['filenames'][0]
        if not rlib or not probe:
            raise Trouble('no rlib of pomelo')
        # drivers must not depend on files that another build can replace
        args = ['--extern', 'pomelo=' + rlib, '--extern', 'vp_probe=' + probe, '-L', 'dependency=' + os.path.join(TARGET, 'debug', 'deps')]
        json.dump(dict(key=key, paths=[rlib, probe], args=args), open(stamp, 'w'))
        return args


# ---------------------------------------------------------------- TLC
def limits(mem_mb, cpu_s=None):
    def f():
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s))
    return f


def run_proc(cmd, timeout, mem_mb=0, env=None, cwd=None, stdout=subprocess.PIPE):
    """(returncode or None if it timed out, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         preexec_fn=limits(mem_mb))
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def tlc(module, cfg, env, work, timeout=800, heap='3g', extra=()):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xms256m', '-Xmx' + heap, '-Xss32m', '-cp', JARS,
           '-DTLA-Library=' + os.path.join(VERIF, 'spec'), 'tlc2.TLC', '-workers', '1', '-nowarning',
           '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(extra) + [module]
    # (a copy of the module in the work directory keeps TLC from writing next to the original)
    return run_proc(cmd, timeout, env=dict(os.environ, **env), cwd=meta)


def shards(items, weight, n):
    """Split items in at most n lists of similar weight, keeping track of nothing else."""
    out = [[0, []] for _ in range(min(n, max(1, len(items))))]
    for it in sorted(items, key=weight, reverse=True):
        s = min(out, key=lambda x: x[0])
        s[0] += weight(it)
        s[1].append(it)
    return [s[1] for s in out if s[1]]


class Model:
    """What the specification says of a list of programs."""

    def __init__(self):
        self.info = {}      # prog -> [record per grammar]
        self.calls = {}     # (prog, run) -> {path: events}
        self.auto = {}      # (prog, gi) -> dump of the automaton
        self.states = 0
        self.generated = 0
        self.depth = 0
        self.wall = 0.0

    def leaves(self, pr):
        c = self.calls.get(pr, {})
        inner = {p[:-1] for p in c}
        return [p for p in c if p not in inner]


def run_model(progs, work, weight, cfg='Pomelo.cfg', module='Pomelo.tla', timeout=800, coverage=False):
    """progs: list of dict(gs, runs,...). Runs TLC on them, sharded."""
    t0 = time.time()
    m = Model()
    parts = shards(list(range(len(progs))), lambda i: weight(progs[i]), NCPU)

    def one(k):
        idx = parts[k]
        f = os.path.join(work, 'progs%d.json' % k)
        json.dump([dict(gs=progs[i]['gs'], runs=progs[i]['runs'], order=bool(progs[i].get('order')), dump=bool(progs[i].get('dump'))) for i in idx], open(f, 'w'))
        rc, o, e = tlc(os.path.join(VERIF, 'spec', module), os.path.join(VERIF, 'spec', cfg),
                       dict(PROGS=f), work, timeout)
        return idx, rc, o.decode(), e.decode()

    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for idx, rc, o, e in ex.map(one, range(len(parts))):
            done = False
            for line in o.splitlines():
                if line.startswith('"@'):
                    pr, run, path, ev = json.loads(json.loads(line)[1:])
                    m.calls.setdefault((idx[pr - 1], run - 1), {})[tuple(path)] = ev
                elif line.startswith('"#'):
                    r = json.loads(json.loads(line)[1:])
                    m.info.setdefault(idx[r['prog'] - 1], []).append(r)
                elif line.startswith('"A'):
                    r = json.loads(json.loads(line)[1:])
                    m.auto[(idx[r['prog'] - 1], r['gi'] - 1)] = r
                elif 'distinct states found' in line and 'states generated' in line and 'Progress' not in line:
                    w = line.replace(',', '').split()
                    m.generated += int(w[0])
                    m.states += int(w[3])
                elif line.startswith('The depth of'):
                    m.depth = max(m.depth, int(line.split()[-1].rstrip('.')))
                elif line.startswith('Model checking completed. No error'):
                    done = True
            if rc != 0 or not done:
                bad = [x for x in o.splitlines() if not x.startswith(('"', 'Parsing file', 'Semantic', 'Linting'))]
                bad = [x for x in bad if x.startswith('Error')] + bad[-100:]
                raise Trouble('TLC failed (%s):\n%s\n%s' % (rc, '\n'.join(bad[-120:])[:6000], e[-2000:]))
    for i in m.info:
        m.info[i].sort(key=lambda r: r['gi'])
    m.wall = time.time() - t0
    return m


# ---------------------------------------------------------------- the real thing
HEAD = '#![allow(warnings)]\n#[path = "%s/harness/rt.rs"]\npub mod rt;\n' % VERIF


def rustc(src, out, args, check=False, timeout=120):
    """(ok, diagnostics, crashed): diagnostics are JSON records; crashed is a reason or None"""
    cmd = ['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'debuginfo=0', '--error-format=json',
           '--crate-name', 'driver'] + args
    cmd += ['--emit=metadata', '-o', out] if check else ['-C', 'codegen-units=1', '-o', out]
    rc, o, e = run_proc(cmd + [src], timeout, mem_mb=5000)
    if rc is None:
        return False, [], 'rustc does not terminate', o
    ds = []
    for line in e.decode(errors='replace').splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if isinstance(d, dict) and d.get('level') == 'error' or 'internal compiler' in d.get('level', ''):
            ds.append(d)
    if rc < 0 or rc > 1:
        return False, ds, 'rustc crashed (%d): %s' % (rc, e.decode(errors='replace')[-300:]), o
    return rc == 0, ds, None, o


def diag_line(d):
    """Line of the source file where a diagnostic points to."""
    for s in d.get('spans', []):
        while s:
            if s['file_name'].endswith('.rs') and 'shard' in s['file_name']:
                return s['line_start']
            s = (s.get('expansion') or {}).get('span')
    return 0


def place(mods):
    """Text of a list of modules and the lines where each one starts"""
    src, starts = HEAD, []
    for t in mods:
        starts.append(src.count('\n') + 1)
        src += t + '\n'
    return src, starts


def module_at(starts, line):
    k = -1
    for i, s in enumerate(starts):
        if s <= line:
            k = i
    return k


def is_macro_panic(d):
    return 'panicked' in d['message'] or 'panicked' in json.dumps(d.get('children', []))


class Diag:
    """Outcome of compiling one grammar."""

    def __init__(self, kind, msg):
        self.kind = kind    # ok, macro (diagnostic of pomelo), code (generated code is wrong), panic, hang, crash
        self.msg = msg


def classify(ds):
    if not ds:
        return Diag('ok', '')
    for d in ds:
        if is_macro_panic(d):
            return Diag('panic', d['message'] + ' ' + ' '.join(c['message'] for c in d.get('children', []))[:300])
    d = ds[0]
    if d.get('code') is None:
        return Diag('macro', d['message'])
    return Diag('code', d['message'])


def compile_alone(text, work, args, tag, timeout=40):
    src, _ = place([text])
    f = os.path.join(work, 'shard_one_%s.rs' % tag)
    open(f, 'w').write(src + 'pub fn tk(_: &()) {}\nfn main() {}\n')
    ok, ds, crash, _ = rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=timeout)
    ds = [d for d in ds if 'aborting due to' not in d['message']]
    if crash:
        return Diag('hang' if 'terminate' in crash else 'crash', crash)
    if ok:
        return Diag('ok', '')
    return classify(ds)


def compile_rejects(items, work, args):
    """items: (key, decls) of grammars that must be rejected -> {key: Diag}"""
    res = {}
    parts = shards(items, lambda x: len(x[1]) + 5, NCPU)

    def one(k):
        part = parts[k]
        mods = [dsl.reject_module('g%d' % i, ds) for i, (_, ds) in enumerate(part)]
        src, starts = place(mods)
        f = os.path.join(work, 'shard_r%d.rs' % k)
        open(f, 'w').write(src + 'pub fn tk(_: &()) {}\nfn main() {}\n')
        ok, ds, crash, _ = rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=60)
        out = {}
        if crash:
            for i in range(len(part)):
                out[part[i][0]] = compile_alone(mods[i], work, args, 'r%d_%d' % (k, i))
                if out[part[i][0]].kind in ('hang', 'crash'):
                    break
            return out
        by = {}
        for d in ds:
            if 'aborting due to' in d['message']:
                continue
            by.setdefault(module_at(starts, diag_line(d)), []).append(d)
        for i, (key, _) in enumerate(part):
            dg = classify(by.get(i, []))
            if dg.kind != 'macro':
                # the others may have hidden or caused something: look at it alone
                dg = compile_alone(mods[i], work, args, 'r%d_%d' % (k, i))
            out[key] = dg
        return out

    with cf.ThreadPoolExecutor(max(1, len(parts))) as ex:
        for out in ex.map(one, range(len(parts))):
            res.update(out)
    return res


class Real:
    """What the real code does."""

    def __init__(self):
        self.diag = {}      # (prog, gi) -> Diag
        self.lines = {}     # (prog, run) -> {path: (calls, left)}
        self.crash = []     # (prog, run, reason)
        self.stdout = {}


def run_real(progs, model, work, args, run_timeout=120, skip=(), rejects_too=True):
    """Compile and run every accepted program; compile the rejected ones."""
    real = Real()
    rejects, accepts, maybe = [], [], []
    for i, p in enumerate(progs):
        infos = model.info[i]
        if i in skip:
            continue
        if all(f['status'] == 'ok' for f in infos):
            accepts.append(i)
        for j, f in enumerate(infos):
            if f['status'] != 'ok' and rejects_too:
                rejects.append(((i, j), p['gs'][j]))
            elif i not in accepts:
                maybe.append((i, j))
    parts = shards(accepts, lambda i: sum(len(g) + 10 for g in progs[i]['gs']) +
                   sum(len(model.calls.get((i, r), ())) for r in range(len(progs[i]['runs']))) / 2000, NCPU)

    def compile_part(k, part, depth=0):
        """[(binary or None, part)], recording diagnostics"""
        mods, ids, mod_of = [], [], {}
        for i in part:
            for j, g in enumerate(progs[i]['gs']):
                same = next((j2 for j2 in range(j) if progs[i]['gs'][j2] == g), None)
                if same is not None:        # several parsers of the same grammar
                    mod_of[(i, j)] = mod_of[(i, same)]
                    real.diag[(i, j)] = Diag('ok', '')
                    continue
                mod_of[(i, j)] = len(mods)
                mods.append(dsl.module('g%d' % len(ids), g, model.info[i][j]))
                ids.append((i, j))
        src, starts = place(mods)
        src += 'fn main() { rt::main(&[%s]); }\n' % ', '.join('g%d::new' % n for n in range(len(ids)))
        f = os.path.join(work, 'shard_a%s.rs' % k)
        open(f, 'w').write(src)
        ok, ds, crash, so = rustc(f, f[:-3] + '.bin', args, timeout=200)
        if ok:
            for x in ids:
                real.diag[x] = Diag('ok', '')
            return [(f[:-3] + '.bin', part, mod_of)]
        bad = set()
        if not crash:
            by = {}
            for d in ds:
                if 'aborting due to' in d['message']:
                    continue
                by.setdefault(module_at(starts, diag_line(d)), []).append(d)
            for n, dd in by.items():
                if n >= 0:
                    real.diag[ids[n]] = classify(dd)
                    bad.add(ids[n][0])
        if not bad:
            # hang, crash or nowhere: try each one alone
            for n in range(len(ids)):
                dg = compile_alone(mods[n], work, args, 'a%s_%d' % (k, n))
                if dg.kind != 'ok':
                    real.diag[ids[n]] = dg
                    bad.add(ids[n][0])
                    if dg.kind in ('hang', 'crash'):
                        return []       # enough: the rest would take too long
            if not bad:
                if depth > 2:
                    raise Trouble('cannot compile %s: %s %s' % (f, crash, [d['message'] for d in ds][:3]))
                if len(part) > 1:
                    h = len(part) // 2
                    return (compile_part('%s_l' % k, part[:h], depth + 1) +
                            compile_part('%s_r' % k, part[h:], depth + 1))
                real.diag[(part[0], 0)] = Diag('crash', crash or 'does not compile')
                bad.add(part[0])
        good = [i for i in part if i not in bad]
        return compile_part('%s_x' % k, good, depth) if good else []

    def run_bin(k, binf, part, mod_of):
        jobs, order = [], {}
        for i in part:
            for r, run in enumerate(progs[i]['runs']):
                ls = sorted(model.leaves((i, r)))
                if not ls:
                    continue
                jobs.append('J %d %d %d %d %d %s' % (i, r, run['failAt'], run['seErrAt'], run['ex0'],
                                                     ' '.join(str(mod_of[(i, j)]) for j in range(len(progs[i]['gs'])))))
                jobs += ['P ' + ' '.join(map(str, p)) for p in ls]
                order[(i, r)] = ls
        if not jobs:
            return
        jf = binf + '.jobs'
        open(jf, 'w').write('\n'.join(jobs) + '\n')
        rc, o, e = run_proc([binf, jf], run_timeout, mem_mb=4000)
        lines = o.decode(errors='replace').split('\n')
        cur = None
        pos = {}
        for line in lines:
            if line.startswith('J '):
                w = line.split()
                cur = (int(w[1]), int(w[2]))
                pos[cur] = 0
                real.lines[cur] = {}
            elif line.startswith('P\t'):
                try:
                    _, calls, left = line.split('\t')
                    real.lines[cur][order[cur][pos[cur]]] = (json.loads(calls), json.loads(left))
                except ValueError:
                    continue
                pos[cur] += 1
        if rc != 0:
            real.crash.append((cur, 'the parser does not terminate' if rc is None else
                               'the driver crashed (%d) %s' % (rc, e.decode(errors='replace')[-200:])))

    def one(k):
        for n, (b, part, mod_of) in enumerate(compile_part(str(k), parts[k])):
            run_bin('%d_%d' % (k, n), b, part, mod_of)
            os.unlink(b)

    def rej():
        real.diag.update(compile_rejects(rejects, work, args))

    with cf.ThreadPoolExecutor(len(parts) + 1) as ex:
        fs = [ex.submit(one, k) for k in range(len(parts))]
        if rejects:
            fs.append(ex.submit(rej))
        for f in fs:
            f.result()
    return real
