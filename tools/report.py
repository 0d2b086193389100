"""The report of the automaton (C25): what %verbose and a conflict error print, against the
states, items and actions of the specification.

States and rules are compared by what they are, not by their numbers: a state is its multiset of
items, a rule its text, and the target of a shift is the items of that state."""
import concurrent.futures as cf
import os
import re

import dsl
import pom

ACT = re.compile(r'^\s*(\S+)\s+(shift|reduce|accept|error)\b\s*(\d*)\s*(.*?)\s*$')
ITEM = re.compile(r'^\s*(?:\((\d+)\))?\s*(\S+)\s*::=(.*)$')


def mark(txt):
    if not txt:
        return ''
    if 'conflict' in txt.lower():
        return 'conflict'
    if 'dropped' in txt.lower():
        return 'dropped'
    return '?' + txt


def parse(txt):
    """[(number, items, actions)] of a printed report, not interpreted, or a string saying why not"""
    states, cur = [], None
    for line in txt.split('\n'):
        if line.startswith('-----'):
            break
        m = re.match(r'^\s*State (\d+):\s*$', line)
        if m:
            cur = (int(m.group(1)), [], [])
            states.append(cur)
            continue
        if not line.strip() or cur is None:
            continue
        m = ITEM.match(line)
        if m:
            cur[1].append((m.group(1), m.group(2), m.group(3).split()))
            continue
        m = ACT.match(line)
        if m:
            cur[2].append((m.group(1), m.group(2), m.group(3), mark(m.group(4))))
            continue
        return 'cannot read: ' + line
    return states


def settle(acts):
    """Which of two shifts is the conflicting one depends on the numbers of the states: forget it."""
    out = []
    for sym in sorted({a[0] for a in acts}):
        mine = [a for a in acts if a[0] == sym]
        if any(k == 'shift' and m == 'conflict' for _, k, _, m in mine):
            sh = [a for a in mine if a[1] == 'shift']
            out += [a for a in mine if a[1] != 'shift']
            out += [(sym, 'shift', (), m) for _, _, _, m in sh]
            if not any(a[1] == 'error' for a in mine):
                out += [(sym, 'target', x, '') for _, _, x, _ in sh]
        else:
            out += mine
    return tuple(sorted(out))


def canon_real(states):
    """the printed report, or a string"""
    rules, items = {}, {}
    for n, its, _ in states:
        if n in items:
            return 'state %d is printed twice' % n
        out = []
        for num, lhs, rhs in its:
            if rhs.count('*') != 1:
                return 'item without a dot in state %d' % n
            d = rhs.index('*')
            body = tuple('|'.join(sorted(x.split('|'))) for x in rhs if x != '*')
            out.append((lhs, body, d))
            if (d == len(body)) != (num is not None):
                return 'rule number and dot do not agree in state %d' % n
            if num is not None and rules.setdefault(int(num), (lhs, body)) != (lhs, body):
                return 'rule %s is printed in two ways' % num
        items[n] = tuple(sorted(out))
    res = []
    for n, its, acts in states:
        out = []
        for sym, kind, num, mk in acts:
            if kind == 'shift':
                if num == '' or int(num) not in items:
                    return 'shift to nowhere in state %d' % n
                out.append((sym, kind, items[int(num)], mk))
            elif kind == 'reduce':
                if num == '' or int(num) not in rules:
                    return 'reduce by nothing in state %d' % n
                out.append((sym, kind, rules[int(num)], mk))
            else:
                out.append((sym, kind, (), mk))
        res.append((items[n], settle(out)))
    return res


def canon_model(a):
    rule = [(r[0], tuple('|'.join(sorted(x)) for x in r[1])) for r in a['rules']]
    items = [tuple(sorted(rule[r - 1] + (d,) for r, d in s['items'])) for s in a['states']]
    K = {'S': ('shift', ''), 'SS': ('shift', 'conflict'), 'SH': ('shift', 'dropped'), 'R': ('reduce', ''),
         'SR': ('reduce', 'conflict'), 'RR': ('reduce', 'conflict'), 'RD': ('reduce', 'dropped'), 'E': ('error', '')}
    res = []
    for q, s in enumerate(a['states']):
        out = [(x, 'shift', items[t - 1], '') for x, t in s['goto']]
        if q == 0:
            out.append((a['start'], 'accept', (), ''))
        for t, es in s['acts']:
            for k, x in es:
                if k == 'NU':
                    continue
                kind, mk = K[k]
                out.append((t, kind, items[x - 1] if kind == 'shift' else rule[x - 1] if kind == 'reduce' else (), mk))
        res.append((items[q], settle(out)))
    return res


def show(st):
    def it(i):
        b = list(i[1])
        b.insert(i[2], '*')
        return '%s ::= %s' % (i[0], ' '.join(b))
    return '{%s}: %s' % ('; '.join(it(i) for i in st[0]), ', '.join(
        '%s %s %s%s' % (s, k, '; '.join(it(i) for i in x) if k in ('shift', 'target') else '%s ::= %s' % (x[0], ' '.join(x[1])) if x else '', ' (%s)' % m if m else '')
        for s, k, x, m in st[1]))


def one(text, work, args, tag):
    src, _ = pom.place([text])
    f = os.path.join(work, 'shard_rep_%s.rs' % tag)
    open(f, 'w').write(src + 'pub fn tk(_: &()) {}\nfn main() {}\n')
    ok, ds, crash, so = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=60)
    os.unlink(f)
    ds = [d for d in ds if 'aborting due to' not in d['message']]
    return ok, ds, crash, so.decode(errors='replace')


def compare(c, progs, model, work, args):
    # the rules of several optional symbols are numbered in no particular order, and which of two
    # conflicting rules is blamed depends on it
    def vague(i, j):
        return model.info[i][j]['status'] != 'ok' and len({tuple(e['t']) if len(e['t']) == 1 else id(e) for d in progs[i]['gs'][j] if d['k'] == 'rule' for e in d['rhs'] if e['o']}) > 1
    todo = [(i, j) for i, p in enumerate(progs) for j in range(len(p['gs'])) if (i, j) in model.auto and not vague(i, j)]
    stats = dict(reports=0, states_compared=0, actions_compared=0, conflict_reports=0)

    def run(ij):
        i, j = ij
        f = model.info[i][j]
        ds = progs[i]['gs'][j]
        txt = dsl.reject_module('g', ds)
        return ij, f, ds, one(txt, work, args, '%d_%d' % ij)

    with cf.ThreadPoolExecutor(pom.NCPU) as ex:
        for (i, j), f, ds, (ok, dg, crash, so) in ex.map(run, todo):
            conflict = f['err'] == 'Parsing conflicts'
            if crash or any(pom.is_macro_panic(d) for d in dg):
                c.violation(i, 'the macro crashes: %s' % (crash or dg[0]['message'])[:300])
                continue
            rep = [d['message'] for d in dg if d['message'].startswith('Parsing conflicts')]
            if conflict != bool(rep):
                c.violation(i, 'a conflict %s be reported, but: %s' % ('must' if conflict else 'must not', [d['message'][:200] for d in dg]))
                continue
            if conflict:
                txt = rep[0]
                stats['conflict_reports'] += 1
            elif f['status'] == 'ok' and 'verbose' in dsl.kinds(ds):
                txt = so
            else:
                if f['status'] == 'ok' and 'State 0' in so:
                    c.violation(i, 'a report is printed, but nobody asked for it')
                continue
            st = parse(txt)
            cr = st if isinstance(st, str) else canon_real(st)
            if isinstance(cr, str):
                c.violation(i, 'report: ' + cr)
                continue
            cm = canon_model(model.auto[(i, j)])
            stats['reports'] += 1
            stats['states_compared'] += len(cm)
            stats['actions_compared'] += sum(len(s[1]) for s in cm)
            missing, extra = list(cm), []
            for s in cr:
                if s in missing:
                    missing.remove(s)
                else:
                    extra.append(s)
            if missing or extra:
                c.violation(i, 'the report is not right\nmissing: %s\nextra: %s' %
                            ('\n  '.join(show(s) for s in missing[:2]), '\n  '.join(show(s) for s in extra[:2])))
            elif not cr or cr[0] != cm[0]:
                c.violation(i, 'the first state of the report is not the initial one')
    return stats
