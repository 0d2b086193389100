"""C27: the notation of pomelo!. TLC reads sequences of tokens with spec/PomeloSyntax.tla; what it reads is given to
spec/Pomelo.tla, and what it says of both (where a text is wrong, what a parser does) is compared with the macro."""
import concurrent.futures as cf
import copy
import json
import os
import random

import dsl
import gen
import grammars as G
import pom

DIRS = ['start_symbol', 'wildcard', 'module', 'left', 'right', 'nonassoc', 'fallback', 'token_class', 'default_type',
        'extra_argument', 'error', 'extra_token', 'include', 'syntax_error', 'parse_fail', 'stack_overflow', 'verbose',
        'type', 'stack_size', 'token', 'parser']
ENDS = [[], [';']]


def trees(r, tier):
    """The beginnings whose continuations are all explored"""
    big = tier != 'quick'
    out = []

    def t(pre, alpha, depth):
        out.append(dict(pre=pre.split(), alpha=alpha.split(), depth=depth))
    base = 's ::= A ; '
    for d in ('left', 'right', 'nonassoc'):
        t(base + '%% %s' % d, 'A B b left ; , % 7 {} | T1', 4 if not big else 5)
    for d in ('fallback', 'token_class'):
        t(base + '%% %s' % d, 'A B C b ; | % 7', 4 if not big else 5)
    for d in ('start_symbol', 'wildcard', 'module'):
        t(base + '%% %s' % d, 's A verbose type _ ; % 7 {}', 3 if not big else 4)
    for d in ('default_type', 'extra_argument', 'error', 'extra_token'):
        t(base + '%% %s' % d, 'T1 T2 ; % {} | ,', 3 if not big else 4)
    for d in ('include', 'syntax_error', 'parse_fail', 'stack_overflow'):
        t(base + '%% %s' % d, '{} ; % [A] A 7', 3 if not big else 4)
        t('%% %s {}' % d, 's ::= A ; {} % verbose', 5 if not big else 6)
    for d in ('verbose', 'token', 'parser'):
        t(base + '%% %s' % d, '; {} enum struct % A', 3 if not big else 4)
    t(base + '% type', 'A s T1 #[] ; % 7 {}', 4 if not big else 6)
    t(base + '% stack_size', '7 0x10 1_2 9u8 0x1_0000 1.5 99999999999999999999 - A ; T1 {}', 3 if not big else 4)
    t(base + '%', ' '.join(DIRS) + ' start foo Left A % ; ::= {} _', 1)
    t('s ::=', 'A B | ? (x) [A] {} ; %', 5 if not big else 6)
    t('s ::= A', 'b B | ? ((x)) (x~|~x) [B] {} ;', 4 if not big else 6)
    t('s ::= A | B', '? (x) (mut~x) | [A] {} ; C', 4 if not big else 5)
    t('s ::= A ? B [A]', '{} ; s ::= C % verbose', 6)
    t('s ::= A {}', '; s ::= B {} % left', 5 if not big else 6)
    t('s ::= A', 'verbose % ; B [] [A] [A~B] () (x~y) ::= :: = : {}', 3)
    t('', 's A ::= ; % {} | ? (x) [A] 7 T1 #[] , = verbose left', 3 if not big else 4)
    t('s', ':: = ::= : A ; |', 4)
    t('s ::= left', 'left verbose error token ; ::= {} ?', 4)
    for x in out:
        x['alpha'] = [a.replace('~', ' ') for a in x['alpha']]
    return out


NAMES = ['left', 'right', 'verbose', 'error', 'r#fn', 'r#type', 'module', 'parser', 'token', 'extra', 'x', 'default', 'union', 'a_1', 'zZ9']
TOKN = ['Token', 'Parser', 'Option', 'None', 'Some', 'Ok', 'Err', 'A_b', 'Zz9', 'Self_', 'Result', 'Box', 'Left', 'YYMinorType']


def rename(r, ds):
    """Names that could be mistaken for something else"""
    ns = [n for n in dsl.names(ds) if n != 'error']
    m = {}
    lo = [n for n in NAMES if n not in ns and n != 'error']
    up = [n for n in TOKN if n not in ns]
    r.shuffle(lo)
    r.shuffle(up)
    for n in ns:
        if r.random() < 0.3:
            src = up if n[0].isupper() else lo
            if src:
                m[n] = src.pop()
    ds = copy.deepcopy(ds)
    for d in ds:
        for k in ('id', 'lhs', 'prec'):
            if d.get(k):
                d[k] = m.get(d[k], d[k])
        if 'ids' in d:
            d['ids'] = [m.get(i, i) for i in d['ids']]
        for e in d.get('rhs', ()):
            e['t'] = [m.get(i, i) for i in e['t']]
    return ds


def write(r, ds):
    """A text of the declarations, in one of the ways in which it can be written"""
    out = []
    for i, d in enumerate(ds):
        k = d['k']
        last = i + 1 == len(ds)
        nextd = not last and ds[i + 1]['k'] != 'rule'
        if k == 'rule':
            w = [d['lhs'], '::=']
            for e in d['rhs']:
                for j, x in enumerate(e['t']):
                    w += ['|', x] if j else [x]
                w += ['?'] if e['o'] else []
                w += [r.choice(['(x)', '(mut x)', '(x @ _)', '((x))', '(x | x)'])] if e['a'] else []
            w += ['[%s]' % d['prec']] if d['prec'] else []
            w += ['{}'] if d['code'] else []
            opt = d['code'] or last or nextd or d['prec']
            w += [';'] if not opt or r.random() < (0.3 if d['code'] else 0.6) else []
        elif k in dsl.ASSOC:
            w = ['%', k] + d['ids'] + [';']
        elif k in ('start', 'wildcard'):
            w = ['%', {'start': 'start_symbol'}.get(k, k), d['id'], ';']
        elif k == 'module':
            w = ['%', k, 'parser', ';']
        elif k in ('fallback', 'class'):
            w = ['%', {'class': 'token_class'}.get(k, k), d['id']] + d['ids'] + [';']
        elif k == 'deftype':
            w = ['%', 'default_type', ty(d['ty']), ';']
        elif k in ('extra', 'errtype', 'extratoken'):
            w = ['%', {'extra': 'extra_argument', 'errtype': 'error', 'extratoken': 'extra_token'}[k], 'T1', ';']
        elif k in dsl.BLOCKS + ('include',):
            w = ['%', k, '{}'] + r.choice(ENDS)
        elif k == 'verbose':
            w = ['%', k, ';']
        elif k == 'type':
            w = ['%', k] + (['#[]'] if d['attr'] else []) + [d['id']] + ([ty(d['ty'])] if d['ty'] else []) + [';']
        elif k == 'stack':
            w = ['%', 'stack_size', r.choice([x for x, v in INTS.items() if v == d['n']]), ';']
        elif k == 'token':
            w = ['%', k, 'enum', ';']
        elif k == 'parser':
            w = ['%', k, 'struct', ';']
        else:
            raise ValueError(k)
        out += w
    return out


INTS = {'7': 7, '0x10': 16, '1_2': 12, '9u8': 9, '0': 0, '3': 3, '100': 100, '12': 12, '70000': 70000, '0x1_0000': 65536}


def ty(t):
    return 'T' + t[1:]


def damage(r, w):
    """A small mistake somewhere"""
    w = list(w)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(w))
        x = r.random()
        if x < 0.3:
            del w[i]
        elif x < 0.5:
            w.insert(i, r.choice(['%', ';', '|', '?', '::=', ',', '(x)', '()', '(x y)', '[A]', '[]', '[A B]', '{}', '7', 'A', 'b', 'left', '_', 'T1', '#[]']))
        elif x < 0.65:
            w[i] = r.choice(w)
        elif x < 0.8:
            w.insert(i, w[i])
        elif i + 1 < len(w):
            w[i], w[i + 1] = w[i + 1], w[i]
        if not w:
            w = ['%']
    return w


def paths(r, tier):
    n = 250 if tier == 'quick' else 1500
    pool = []
    for li in (G.PLAIN, G.PREC, G.OPTIONAL, G.COMPOUND, G.ERROR, G.TYPES, G.FALLBACK, G.WILDCARD, G.NONASSOC):
        pool += [dsl.parse(g) for g in li]
    out = []
    for _ in range(n):
        if r.random() < 0.3:
            ds = copy.deepcopy(r.choice(pool))
        else:
            F = [f for f in ('class', 'compound', 'optional', 'error', 'wildcard', 'fallback', 'prec') if r.random() < 0.35]
            ds = gen.Shaped(r, r.randint(2, 5), F, r.randint(1, 2)).grammar()
            ds = gen.callbacks(r, gen.typed(r, ds, p=0.5, deft=0.2), p=0.4)
            for k in ('verbose', 'include', 'module', 'token', 'parser', 'include'):
                if r.random() < 0.2:
                    ds.insert(r.randint(0, len(ds)), dict(k=k))
            if r.random() < 0.3 and not any(d['k'] == 'stack' for d in ds):
                ds.insert(r.randint(0, len(ds)), dict(k='stack', n=r.choice([0, 100, 16, 12, 9, 7, 70000, 65536]), ty=''))
        if any(d['k'] == 'stack' and d['n'] not in INTS.values() or d.get('ty', '')[:1] not in ('', 'V') or d.get('prec') and d['prec'] not in 'AB' for d in ds):
            continue
        if r.random() < 0.5 and not any(d.get('prec') for d in ds):
            ds = rename(r, ds)
        w = write(r, ds)
        out.append(dict(path=w))
        for _ in range(1 if tier == 'quick' else 3):
            out.append(dict(path=damage(r, w)))
    for t in ODD:
        out.append(dict(path=t.split()))
    return out


# what the spelling of a name says of it
ODD = ['_s ::= A ;', 's ::= _A ;', 's ::= A _b ;', 's ::= _N1 ;', '_N2 ::= A ;', 's ::= A _N2 ; _N2 ::= B ;', 's ::= _N1 | A ;', '% left _N1 ; s ::= A ;', '% type _N2 T1 ; s ::= A ;', '% wildcard _N1 ; s ::= A ;', '% type _A T1 ; s ::= A ;', '% left _A ; s ::= A ;',
       'S ::= A ;', 's ::= s2 ; s2 ::= A {} ;', '% start_symbol A ; s ::= A ;', '% start_symbol _s ; s ::= A ;', '% wildcard w ; s ::= A ;',
       '% left s ; s ::= A ;', '% fallback f A ; s ::= A ;', '% fallback F a ; s ::= A ;', '% token_class c A ; s ::= A ;', '% token_class C a ; s ::= A ;',
       '% token_class _C A ; s ::= A ;', 's ::= a | B ; a ::= A ;', 's ::= A | b ; b ::= B ;', 's ::= A [a] ; a ::= B ;', 's ::= _x ? ;',
       'r#fn ::= A ;', 's ::= r#fn ? A ; r#fn ::= B {}', 'fn ::= A ;', 's ::= fn ;', 's ::= self ;', 'Self ::= A ;', 's ::= A | Self ;', '% left Self ; s ::= A ;',
       '% left crate ; s ::= A ;', '% fallback _ A ; s ::= A ;', '% module mod ; s ::= A ;', '% module try ; s ::= A ;', '% module union ; s ::= A ;', '% module r#try ; s ::= A ;', '% module x ; % module y ; s ::= A ;', '% module x ; s ::= A {} % module parser ;', 'dyn ::= A ;', 's ::= A | async ;', '% start_symbol yield ; s ::= A ;', 'error ::= A ;', 's :: = A ;', 's :: A ;', 's = A ;', 's : := A ;', 's ::= A error ; % error T1 ;', 's ::= error ? A ;',
       '% type error T1 ; s ::= A ;', '% stack_size 0 ; s ::= A ;', '% stack_size 0 T1 s ::= A ;', '']


def explore(seed, tier, work, timeout):
    """(texts that are wrong: (tokens, index of the first wrong one), texts that are right: declarations, statistics)"""
    r = random.Random('notation-%d' % seed)
    items = trees(r, tier) + paths(r, tier)
    parts = pom.shards(list(range(len(items))), lambda i: 400 if 'alpha' in items[i] else 10, pom.NCPU)
    sp = os.path.join(pom.VERIF, 'spec')

    def one(k):
        f = os.path.join(work, 'items%d.json' % k)
        with open(f, 'w') as fh:
            fh.write(''.join(json.dumps(items[i]) + '\n' for i in parts[k]))
        return parts[k], pom.tlc(os.path.join(sp, 'PomeloSyntax.tla'), os.path.join(sp, 'PomeloSyntax.cfg'), dict(INPUT=f), work, timeout)

    by, st = {}, [0, 0, 0]
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for idx, (rc, o, e) in ex.map(one, range(len(parts))):
            o = o.decode()
            for line in o.splitlines():
                if line.startswith('"@'):
                    i, w, x = json.loads(json.loads(line)[1:])
                    it = items[idx[i - 1]]
                    by.setdefault((idx[i - 1], x['ok']), []).append((it.get('path', w), x))
                elif 'distinct states found' in line and 'Progress' not in line:
                    w = line.replace(',', '').split()
                    st[0] += int(w[3])
                    st[1] += int(w[0])
                elif line.startswith('The depth of'):
                    st[2] = max(st[2], int(line.split()[-1].rstrip('.')))
            if rc != 0 or 'No error has been found' not in o:
                raise pom.Trouble('TLC failed: %s' % '\n'.join(x for x in o.splitlines() if not x.startswith('"'))[-3000:])
    total = sum(len(v) for v in by.values())
    wrong, right, seen = [], [], set()
    big = tier != 'quick'
    for (i, ok), li in sorted(by.items()):
        li.sort(key=lambda x: (len(x[0]), x[0]))
        r.shuffle(li)
        if not ok:
            # every place with every wrong token there, then any
            n = {}
            for w, x in li:
                k = (x['at'], w[x['bad'] - 1] if x['bad'] <= len(w) else '$')
                n[k] = n.get(k, 0) + 1
                if n[k] <= (100 if big else 10):
                    wrong.append((w, x['bad']))
        else:
            for w, x in li[:1000 if big else 90]:
                ds = [dict(y['d'], toks=w[y['from'] - 1:y['to']]) for y in x['ds']]
                for d in ds:
                    if d['k'] == 'stack' and d['ty']:
                        d['ty'] = 'crate::rt::MyStack'
                right.append(dsl.renumber_alias(dsl.number(ds)))
    return wrong, right, dict(states=st[0], transitions=st[1], depth=st[2], texts=total)


def plain(ds):
    return json.dumps([{k: v for k, v in d.items() if k != 'toks'} for d in ds])


def programs(right, seed):
    """Programs for the specification (one for all the texts of the same declarations), and which of them is that of each text"""
    r = random.Random('notation-progs-%d' % seed)
    progs, at, idx = [], {}, []
    for ds in right:
        k = plain(ds)
        if k not in at:
            at[k] = len(progs)
            toks = dsl.names(ds)
            nt = len([t for t in toks if t[:1].isupper()]) + 1
            L = 2 if nt > 4 else 3
            runs = [dict(failAt=0, seErrAt=0, ex0=5, L=L, post=False, alpha=[[]], paths=[])]
            try:
                ps = gen.Deriv(ds).inputs(r, 6, 10, 20, 0.3) if len(ds) > 3 else []
            except Exception:       # noqa: BLE001  (what is left of a damaged grammar need not derive anything)
                ps = []
            if ps:
                runs.append(dict(failAt=0, seErrAt=0, ex0=5, L=0, post=False, alpha=[[]], paths=[[[1, x] for x in p] for p in ps]))
            progs.append(dict(gs=[json.loads(k)], runs=runs, order=False, want=None))
        idx.append(at[k])
    return progs, idx


def spread(model, right, progs, idx):
    """The model of each text"""
    m = pom.Model()
    out = []
    for i, ds in enumerate(right):
        u = idx[i]
        out.append(dict(progs[u], gs=[ds]))
        m.info[i] = model.info[u]
        for r in range(len(progs[u]['runs'])):
            if (u, r) in model.calls:
                m.calls[(i, r)] = model.calls[(u, r)]
    m.states, m.generated, m.depth = model.states, model.generated, model.depth
    return out, m


def rejects(wrong, work, args):
    """[(tokens, what is not right)]: each wrong text has to be an error of the macro at its first wrong token"""
    bad = []
    parts = pom.shards(wrong, lambda x: len(x[0]) + 20, pom.NCPU)

    def verdict(dg, line, want):
        if dg.kind != 'macro':
            return '%s: %s' % (dg.kind, dg.msg[:300])
        if line != want and want is not None:
            return 'the error is reported at another place: token %d (%s)' % (line, dg.msg[:200])
        return None

    def alone(w, tag):
        src, starts = pom.place([dsl.raw_module('g', w)])
        f = os.path.join(work, 'shard_w%s.rs' % tag)
        open(f, 'w').write(src + 'fn main() {}\n')
        ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=40)
        ds = [d for d in ds if 'aborting due to' not in d['message']]
        if crash:
            return pom.Diag('hang' if 'terminate' in crash else 'crash', crash), 0
        if ok or not ds:
            return pom.Diag('ok', 'it is accepted'), 0
        return pom.classify(ds), pom.diag_line(ds[0]) - starts[0] - 1

    def one(k):
        part = parts[k]
        mods = [dsl.raw_module('g%d' % i, w) for i, (w, _) in enumerate(part)]
        src, starts = pom.place(mods)
        f = os.path.join(work, 'shard_w%d.rs' % k)
        open(f, 'w').write(src + 'fn main() {}\n')
        ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=120)
        by, out = {}, []
        for d in ds:
            if 'aborting due to' not in d['message']:
                by.setdefault(pom.module_at(starts, pom.diag_line(d)), []).append(d)
        for i, (w, b) in enumerate(part):
            # at the end of the input the error is that of the whole macro
            want = b if b <= len(w) else 0
            if b <= len(w) and w[b - 1] in ('[A B]', '(x y)'):
                want = None     # (what is left in a group comes after any other error)
            dd = by.get(i, [])
            v = verdict(pom.classify(dd), pom.diag_line(dd[0]) - starts[i] - 1, want) if dd and not crash else 'unknown'
            if v is not None and len(out) < 20:
                v = verdict(*alone(w, '%d_%d' % (k, i)), want)
                if v is not None:
                    out.append((w, 'must be rejected at token %d, but: %s' % (b, v)))
        return out

    with cf.ThreadPoolExecutor(max(1, len(parts))) as ex:
        for out in ex.map(one, range(len(parts))):
            bad += out
    return bad
