#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Explores the specification on the corpus of a property with TLC (checking its invariants in every
state), replays everything it did into the parsers that pomelo generates from /repo, and compares
what the two of them did through the lens of the property."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import dsl          # noqa: E402
import notation     # noqa: E402
import pom          # noqa: E402
import profiles     # noqa: E402
import report       # noqa: E402
import surface      # noqa: E402


def opname(info, o):
    return {0: '$', -1: '+', -2: '-'}.get(o) or info['name'][o]


def show_path(model, i, path):
    return ' '.join('%d:%s' % (c // 10000, opname(model.info[i][c // 10000 - 1], c % 10000 - 2)) if len(model.info[i]) > 1
                    else opname(model.info[i][0], c % 10000 - 2) for c in path)


class Comparison:
    def __init__(self, pid, progs, model, real):
        self.F = profiles.LENS[pid]
        self.progs, self.model, self.real = progs, model, real
        self.bad = []
        self.traces = self.calls = 0
        self.kinds = {}

    def violation(self, i, what, **kw):
        self.bad.append(dict(prog=i, what=what, **kw))

    def statuses(self):
        m = self.model
        for (i, j), d in sorted(self.real.diag.items()):
            f = m.info[i][j]
            if f.get('ill'):
                continue
            if f['status'] == 'ok' and d.kind != 'ok':
                self.violation(i, 'grammar %d must be accepted, but: %s: %s' % (j, d.kind, d.msg[:600]))
            elif f['status'] != 'ok' and d.kind == 'ok' and 'status' in self.F:
                self.violation(i, 'grammar %d must be rejected (%s), but it is accepted' % (j, f['err']))
            elif f['status'] != 'ok' and d.kind in ('panic', 'hang', 'crash') and 'status' in self.F:
                self.violation(i, 'grammar %d must be rejected (%s), but: %s: %s' % (j, f['err'], d.kind, d.msg[:600]))
        for pr, why in self.real.crash:
            self.violation(pr[0] if pr else 0, 'run %s: %s' % (pr, why))

    def runs(self):
        m, F = self.model, self.F
        if F <= {'status'}:
            return
        for pr, d in sorted(self.real.lines.items()):
            exp_calls = m.calls[pr]
            for path, (calls, left) in d.items():
                self.traces += 1
                ok = True
                for n, got in enumerate(calls):
                    self.calls += 1
                    exp = exp_calls[path[:n + 1]]
                    self.kinds[exp[-2][0] + ':' + str(exp[-2][1]) if exp[-2][0] == 'r' else exp[-2][0]] = \
                        self.kinds.get(exp[-2][0] + ':' + str(exp[-2][1]) if exp[-2][0] == 'r' else exp[-2][0], 0) + 1
                    a, b = profiles.project(exp, F), profiles.project(got, F)
                    if a != b and 'L' in F and len(a) == len(b):
                        # a failed parser may release its values earlier
                        failed = any(e[0] == 'r' and e[1] in ('err', 'panic') for e in exp)
                        if failed and all(x == y or (x[0] == 'L' and y[0] == 'L' and set(y[1]) <= set(x[1])) for x, y in zip(a, b)):
                            b = a
                    if a != b:
                        self.violation(pr[0], 'call %d of %s' % (n + 1, show_path(m, pr[0], path)), run=pr[1],
                                       path=list(path), expected=exp, got=got)
                        ok = False
                        break
                if ok and 'path' in F:
                    exps = [exp_calls[path[:n + 1]] for n in range(len(calls))]
                    np = len(m.info[pr[0]])
                    for q in range(1, np + 1):
                        sel = [n for n, c in enumerate(path) if c // 10000 == q]
                        ea, ga = [exps[n] for n in sel], [calls[n] for n in sel]
                        if any(e[0] == 'R' for c in ea for e in c) and profiles.whole(ea) != profiles.whole(ga):
                            self.violation(pr[0], 'actions of %s' % show_path(m, pr[0], path), run=pr[1], path=list(path),
                                           expected=profiles.whole(ea), got=profiles.whole(ga))
                            ok = False
                            break
                if ok and 'L' in F and any(x != [[], []] for x in left):
                    self.violation(pr[0], 'values left after %s: %s' % (show_path(m, pr[0], path), left), run=pr[1], path=list(path))
                if len(self.bad) > 200:
                    return


def known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    except (OSError, ValueError, KeyError):
        return []


def is_known(pid, progs, b):
    txt = [dsl.text(g) for g in progs[b['prog']]['gs']]
    for k in known():
        if k['property'] == pid and k['grammars'] == txt and (k.get('path') is None or k['path'] == b.get('path')):
            return k
    return None


def weight(p):
    """A guess of the work a program is for TLC."""
    w = sum(len(g) * (1 + len(g) / 20) for g in p['gs'])
    for r in p['runs']:
        if r['paths']:
            w += sum(len(x) for x in r['paths']) / 2
        else:
            k = sum(len(x) if x else len(profiles.toks_of(g)) + 1 for x, g in zip(r['alpha'], p['gs']))
            w += k ** r['L'] / 2
    return w + 3


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    o = ap.parse_args()
    pid, t0 = o.property, time.time()
    tier = 'thorough' if o.tier == 'thorough' else 'quick'
    os.makedirs(pom.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s-' % pid, dir=pom.BUILD)
    try:
        if pid == 'C26':
            return check_surface(tier, o.seed, o.replay, work, t0)
        if pid == 'C27':
            return check_notation(tier, o.seed, o.replay, work, t0)
        return check(pid, tier, o.seed, o.replay, work, t0)
    finally:
        if not o.keep:
            shutil.rmtree(work, ignore_errors=True)


def confront(pid, progs, model, work, args):
    """Replay what the specification does into the real code and compare."""
    # a grammar that has to be compiled anyway must be one whose user code is right
    skip = {i for i, fs in model.info.items() if any(f.get('ill') for f in fs)}
    for i, p in enumerate(progs):
        if p.get('want') == 'ok' and any(f['status'] != 'ok' for f in model.info[i]):
            raise pom.Trouble('the specification rejects %s: %s' % (dsl.text(p['gs'][0])[:500], model.info[i]))
    status = 'status' in profiles.LENS[pid]
    real = pom.run_real(progs, model, work, args, skip=skip, rejects_too=status)
    c = Comparison(pid, progs, model, real)
    c.statuses()
    c.runs()
    extra = {}
    if pid == 'C25':
        extra = report.compare(c, progs, model, work, args)
    return c, real, extra


def check(pid, tier, seed, replay, work, t0):
    built = {}

    def build():
        try:
            built['args'] = pom.build()
        except Exception as e:      # noqa: BLE001
            built['error'] = e
    th = threading.Thread(target=build)
    th.start()
    progs = [json.load(open(replay))['program']] if replay else profiles.corpus(pid, seed, tier)
    model = pom.run_model(progs, work, weight, timeout=700 if tier == 'quick' else 7000)
    th.join()
    if 'error' in built:
        raise built['error']
    t1 = time.time()
    c, real, extra = confront(pid, progs, model, work, built['args'])
    t2 = time.time()

    fresh, seen = [], set()
    for b in c.bad:
        k = is_known(pid, progs, b)
        if k:
            if k['id'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                seen.add(k['id'])
        else:
            fresh.append(b)

    nacc = sum(all(f['status'] == 'ok' for f in fs) for fs in model.info.values())
    samples = []
    for pr in list(sorted(real.lines))[:: max(1, len(real.lines) // 3)][:3]:
        ls = sorted(real.lines[pr], key=len)
        if ls:
            path = ls[-1]
            samples.append(dict(grammar=dsl.text(progs[pr[0]]['gs'][0])[:400], calls=show_path(model, pr[0], path),
                                last_call=json.dumps(model.calls[pr][path])[:400]))
    if not samples:
        for i in list(model.info)[:: max(1, len(model.info) // 3)][:3]:
            samples.append(dict(grammar=dsl.text(progs[i]['gs'][0])[:400], specification=model.info[i][0]['status'] + ' ' + model.info[i][0]['err']))
    cov = dict(states=model.states, transitions=model.generated, depth=model.depth,
               traces_validated_against_impl=c.traces or len(real.diag), calls_compared=c.calls,
               grammars=sum(len(p['gs']) for p in progs), programs_accepted=nacc, programs_rejected=len(progs) - nacc,
               grammars_compiled=len(real.diag), results=c.kinds, seconds_model=round(t1 - t0, 1), seconds_real=round(t2 - t1, 1),
               samples=samples, exhaustive=False, **extra)
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1),
                  violations=len(fresh),
                  assumptions=['TLC and its state fingerprints', 'rustc', 'the value, callback and stack types of harness/rt.rs stand for those of a user',
                               'what is explored: the corpus of tools/profiles.py for this seed and tier'])
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d grammars (%d programs accepted, %d rejected), %d states, %d transitions, %d traces, %d calls; model %.1fs, code %.1fs' %
          (pid, tier, cov['grammars'], nacc, len(progs) - nacc, model.states, model.generated, cov['traces_validated_against_impl'], c.calls, t1 - t0, t2 - t1))
    if not c.traces and not real.diag and not extra:
        raise pom.Trouble('nothing was compared')
    if not fresh:
        return 0
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    fresh.sort(key=lambda b: (len(dsl.text(progs[b['prog']]['gs'][0])) + 10 * len(b.get('path') or [])))
    b = fresh[0]
    p = progs[b['prog']]
    out = dict(p)
    if b.get('path'):
        run = p['runs'][b['run']]
        pth = [[cc // 10000, opname(model.info[b['prog']][cc // 10000 - 1], cc % 10000 - 2)] for cc in b['path']]
        out = dict(p, runs=[dict(run, paths=[pth], alpha=[[] for _ in p['gs']])])
    rf = replay or os.path.join(VERIF, 'replay', '%s-%s-%d.json' % (pid, tier, seed))
    if not replay:
        json.dump(dict(property=pid, what=b['what'], grammars=[dsl.text(g) for g in p['gs']], violation=b, program=out,
                       others=[dict(grammar=dsl.text(progs[x['prog']]['gs'][0]), what=x['what']) for x in fresh[1:20]]),
                  open(rf, 'w'), indent=1)
    for g in p['gs']:
        print('grammar: ' + dsl.text(g)[:1500])
    print('what:     ' + b['what'])
    if 'expected' in b:
        print('expected: %s\ngot:      %s' % (json.dumps(b['expected']), json.dumps(b['got'])))
    print('(%d violations, %d programs)' % (len(fresh), len({x['prog'] for x in fresh})))
    print('VIOLATION property=%s replay=%s' % (pid, rf))
    return 1


def check_surface(tier, seed, replay, work, t0):
    """C26: the cases of spec/PomeloSurface.tla, all of them (a replay repeats the run that failed)"""
    if replay:
        d = json.load(open(replay))
        tier, seed = d['tier'], d['seed']
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(pom.build)
        cases, hyg, st = surface.explore(work)
        args = b.result()
    t1 = time.time()
    bad, stats = surface.check(cases, hyg, work, args, seed, tier)
    t2 = time.time()
    kn = [k for k in known() if k['property'] == 'C26']
    fresh, seen = [], set()
    for c, what, text in bad:
        k = next((k for k in kn if k['case'] == c), None)
        if k is None:
            fresh.append((c, what, text))
        elif k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=C26 %s' % k['what'])
    n = len(cases) + len(hyg) + len(surface.WRONG)
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        acc = [x for x in cases if x[1]['status'] == 'ok']
        json.dump(dict(property='C26', tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(fresh),
                       coverage=dict(states=st[0], transitions=st[1], depth=st[2], traces_validated_against_impl=n, exhaustive=True,
                                     seconds_model=round(t1 - t0, 1), seconds_real=round(t2 - t1, 1), samples=acc[:: max(1, len(acc) // 3)][:3], **stats),
                       assumptions=['TLC and its state fingerprints', 'rustc, its text of an item (proc_macro) and its line!()',
                                    'exhaustive over the cases of spec/PomeloSurface.tla, one order of the declarations of each case in the code']),
                  open(os.path.join(VERIF, 'evidence', 'C26.json'), 'w'), indent=1)
    print('C26 %s: %d cases (%s), %d states, %d transitions; model %.1fs, code %.1fs' %
          (tier, n, ', '.join('%s %d' % x for x in stats.items()), st[0], st[1], t1 - t0, t2 - t1))
    if not fresh:
        return 0
    fresh.sort(key=lambda b: len(b[2] or ''))
    rf = replay or os.path.join(VERIF, 'replay', 'C26-%s-%d.json' % (tier, seed))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        json.dump(dict(property='C26', tier=tier, seed=seed, violations=[dict(case=c, what=w, module=t) for c, w, t in fresh[:20]]), open(rf, 'w'), indent=1)
    c, what, text = fresh[0]
    print('case: %s\n%s\nwhat: %s\n(%d violations)' % (json.dumps(c), text, what, len(fresh)))
    print('VIOLATION property=C26 replay=%s' % rf)
    return 1


def check_notation(tier, seed, replay, work, t0):
    """C27: the texts read by spec/PomeloSyntax.tla (a replay repeats the run that failed)"""
    if replay:
        d = json.load(open(replay))
        tier, seed = d['tier'], d['seed']
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(pom.build)
        wrong, right, st = notation.explore(seed, tier, work, 700 if tier == 'quick' else 7000)
        progs, idx = notation.programs(right, seed)
        model = pom.run_model(progs, work, weight, timeout=700 if tier == 'quick' else 7000)
        args = b.result()
    progs, m = notation.spread(model, right, progs, idx)
    t1 = time.time()
    bad = notation.rejects(wrong, work, args)
    c, real, _ = confront('C27', progs, m, work, args)
    bad += [([t for d in progs[b['prog']]['gs'][0] for t in d['toks']], b['what'] +
             ('\nexpected %s\ngot %s' % (json.dumps(b['expected']), json.dumps(b['got'])) if 'expected' in b else '')) for b in c.bad]
    t2 = time.time()
    kn = [k for k in known() if k['property'] == 'C27']
    fresh = []
    for w, what in bad:
        k = next((k for k in kn if k['text'] == w), None)
        if k is None:
            fresh.append((w, what))
        else:
            print('KNOWN-FINDING: property=C27 %s' % k['what'])
    nok = sum(f[0]['status'] == 'ok' for f in m.info.values())
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(dict(property='C27', tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(fresh),
                       coverage=dict(states=st['states'] + m.states, transitions=st['transitions'] + m.generated, depth=max(st['depth'], m.depth),
                                     traces_validated_against_impl=len(wrong) + c.traces, texts_read=st['texts'], texts_wrong=len(wrong), texts_right=len(right),
                                     different_grammars=len(model.info), grammars_accepted=nok, calls_compared=c.calls, exhaustive=False,
                                     seconds_model=round(t1 - t0, 1), seconds_real=round(t2 - t1, 1),
                                     samples=[dict(text=' '.join(w), wrong_at=b) for w, b in wrong[:: max(1, len(wrong) // 3)][:3]] +
                                             [dict(text=' '.join(t for d in ds for t in d['toks'])) for ds in right[:: max(1, len(right) // 3)][:3]]),
                       assumptions=['TLC and its state fingerprints', 'rustc and its lexer', 'the trees and texts of tools/notation.py for this seed and tier']),
                  open(os.path.join(VERIF, 'evidence', 'C27.json'), 'w'), indent=1)
    print('C27 %s: %d texts read, %d wrong ones and %d right ones (%d grammars, %d texts accepted) compared, %d states, %d transitions, %d calls; model %.1fs, code %.1fs' %
          (tier, st['texts'], len(wrong), len(right), len(model.info), nok, st['states'] + m.states, st['transitions'] + m.generated, c.calls, t1 - t0, t2 - t1))
    if not fresh:
        return 0
    fresh.sort(key=lambda x: len(x[0]))
    rf = replay or os.path.join(VERIF, 'replay', 'C27-%s-%d.json' % (tier, seed))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        json.dump(dict(property='C27', tier=tier, seed=seed, violations=[dict(text=w, what=x) for w, x in fresh[:30]]), open(rf, 'w'), indent=1)
    for w, what in fresh[:int(os.environ.get('SHOW', '1'))]:
        print('text: %s\nwhat: %s' % (' '.join(w), what))
    print('(%d violations)' % len(fresh))
    print('VIOLATION property=C27 replay=%s' % rf)
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:       # noqa: BLE001
        traceback.print_exc()
        sys.exit(2)
