"""Random grammars (seeded) and sentences derived from them."""
import copy
import random

import dsl
from dsl import el, mkrule

TOK = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'T', 'U', 'X', 'Y', 'Z']
NT = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k']


def raw(r, nnt=3, ntok=4, maxr=3, maxlen=3, pt=0.55, pe=0.0, po=0.0, pp=0.0):
    """Any rules at all; not many of these have no conflicts. pe, po, pp: how often there is
    an error symbol, something optional, a token with precedence."""
    toks, nts = TOK[:ntok], NT[:nnt]
    ds = []
    for n in ['s'] + nts:
        for _ in range(r.randint(1, 2 if n == 's' else maxr)):
            ln = r.choice([0, 1, 1, 2, 2, 3][:maxlen * 2])
            es = [el('error' if pe and r.random() < pe else r.choice(toks) if not nts or r.random() < pt else r.choice(nts)) for _ in range(ln)]
            for e in es:
                e['o'] = po > 0 and r.random() < po
            ds.append(mkrule(n, es))
    if pp:
        ds = [dict(k=r.choice(dsl.ASSOC), ids=[t]) for t in r.sample(toks, len(toks)) if r.random() < pp] + ds
    return trim(ds)


def trim(ds):
    """Without the rules of unreachable nonterminals."""
    rules = [d for d in ds if d['k'] == 'rule']
    reach, todo = set(), ['s']
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)
        for d in rules:
            if d['lhs'] == n:
                todo += [t for e in d['rhs'] for t in e['t'] if t[0].islower()]
    return [d for d in ds if d['k'] != 'rule' or d['lhs'] in reach]


class Shaped:
    """Grammars made of usual constructions (lists, brackets, alternatives, operators), so that most
    of them have no conflicts, with features added on request."""

    def __init__(self, r, ntok=5, feats=(), depth=3):
        self.r, self.feats = r, set(feats)
        self.toks, self.nn, self.pre, self.rules = TOK[:ntok], 0, [], []
        self.free = list(self.toks)
        r.shuffle(self.free)
        self.depth = depth
        self.lvlused = set()

    def tok(self):
        if self.free and self.r.random() < 0.85:
            return self.free.pop()
        return self.r.choice(self.toks)

    def new(self):
        self.nn += 1
        return NT[self.nn - 1] if self.nn <= len(NT) else 'n%d' % self.nn

    def rule(self, lhs, els, prec=''):
        self.rules.append(mkrule(lhs, els, True, prec))

    def elem(self, d):
        """A symbol of a right hand side"""
        r = self.r
        x = r.random()
        if 'compound' in self.feats and x < 0.2:
            n = r.randint(2, 3)
            e = el(r.sample(self.toks, min(n, len(self.toks))))
        elif d <= 0 or x < 0.5 or self.nn >= len(NT) - 1:
            e = el(self.tok())
        else:
            e = el(self.nont(d - 1))
        if 'optional' in self.feats and r.random() < 0.3:
            e['o'] = True
        return e

    def nont(self, d):
        r = self.r
        n = self.new()
        kind = r.choice(['list', 'list', 'alt', 'alt', 'bracket', 'seq', 'expr' if 'prec' in self.feats else 'alt'])
        if kind == 'list':
            y = self.elem(d)
            v = r.randint(0, 5)
            if v == 0:
                self.rule(n, [])
                self.rule(n, [el(n), y])
            elif v == 1:
                self.rule(n, [y])
                self.rule(n, [el(n), copy.deepcopy(y)])
            elif v == 2:
                self.rule(n, [y])
                self.rule(n, [el(n), el(self.tok()), copy.deepcopy(y)])
            elif v == 3:
                self.rule(n, [])
                self.rule(n, [y, el(n)])
            elif v == 4:
                self.rule(n, [y])
                self.rule(n, [y, el(self.tok()), el(n)])
            else:
                self.rule(n, [el(n), y])
                self.rule(n, [])
        elif kind == 'alt':
            for _ in range(r.randint(1, 3)):
                self.rule(n, [el(self.tok())] + [self.elem(d - 1) for _ in range(r.randint(0, 2))])
            if r.random() < 0.25:
                self.rule(n, [])
        elif kind == 'bracket':
            a, b = self.tok(), self.tok()
            self.rule(n, [el(a), self.elem(d - 1), el(b)])
            if r.random() < 0.6:
                self.rule(n, [el(a), el(n), el(b)])
            if r.random() < 0.6:
                self.rule(n, [el(self.tok())])
        elif kind == 'seq':
            self.rule(n, [self.elem(d - 1) for _ in range(r.randint(1, 3))])
        else:
            self.expr(n)
        return n

    def expr(self, n):
        r = self.r
        ops = [self.tok() for _ in range(r.randint(1, 3))]
        for o in dict.fromkeys(ops):
            x = r.random()
            if x < 0.7:
                self.rule(n, [el(n), el(o), el(n)])
            elif x < 0.85:
                self.rule(n, [el(o), el(n)])
            else:
                self.rule(n, [el(n), el(o)])
        self.rule(n, [el(self.tok())])
        new = [o for o in dict.fromkeys(ops) if o not in self.lvlused]
        while new:
            k = r.randint(1, len(new))
            self.pre.append(dict(k=r.choice(dsl.ASSOC), ids=new[:k]))
            self.lvlused |= set(new[:k])
            new = new[k:]

    def grammar(self):
        r = self.r
        self.rule('s', [self.elem(self.depth) for _ in range(r.randint(1, 3))])
        if r.random() < 0.3:
            self.rule('s', [el(self.tok()), self.elem(self.depth - 1)])
        if 'error' in self.feats:
            nts = [x['lhs'] for x in self.rules]
            for _ in range(r.randint(1, 2)):
                x = r.choice(nts)
                e = [el('error')]
                if r.random() < 0.6:
                    e = e + [el(self.tok())]
                if r.random() < 0.4:
                    e = [el(self.tok())] + e
                self.rule(x, e)
        ds = list(self.pre)
        rules = self.rules
        start = [x for x in rules if x['lhs'] == 's']
        ds += start + [x for x in rules if x['lhs'] != 's']
        toks = [t for t in dsl.names(ds) if t[0].isupper()]
        if 'fallback' in self.feats and len(toks) > 1:
            f = r.choice(toks)
            rest = [t for t in toks if t != f] + ['Fa']
            ids = r.sample(rest, r.randint(1, min(3, len(rest))))
            ds.append(dict(k='fallback', id=f, ids=ids))
            if r.random() < 0.3:
                rest = [t for t in toks if t not in ids and t != f]
                if rest:
                    ds.append(dict(k='fallback', id=r.choice(rest), ids=[f]))
        if 'wildcard' in self.feats and toks:
            w = r.choice(toks)
            ds.append(dict(k='wildcard', id=w))
            ds.append(dict(k='type', id='Wb', ty='', attr=False))   # a token of no rule
        if 'class' in self.feats and len(toks) > 1:
            ms = r.sample(toks, r.randint(1, min(3, len(toks))))
            ds.insert(r.randint(0, len(ds)), dict(k='class', id='Kc', ids=ms))
            spots = [e for x in ds if x['k'] == 'rule' for e in x['rhs'] if len(e['t']) == 1 and e['t'][0][0].isupper()]
            if spots:
                for e in r.sample(spots, min(len(spots), r.randint(1, 2))):
                    e['t'] = ['Kc']
        return ds


def typed(r, ds, p=0.6, alias=0.8, deft=0.0, code=0.9):
    """Add types, aliases and code."""
    names = dsl.names(ds)
    cls = {d['id'] for d in ds if d['k'] == 'class'}
    wild = {d['id'] for d in ds if d['k'] == 'wildcard'}
    ty = {}
    out = []
    have = {d['id'] for d in ds if d['k'] == 'type'}
    fbs = [d for d in ds if d['k'] == 'fallback']
    shared = 'V%d' % r.randint(1, 3)
    for n in names:
        if n in cls or n in wild or n in have:
            continue
        if n == 'error' and r.random() < 0.5:
            continue
        if r.random() < p:
            t = shared if n[0].isupper() and r.random() < 0.7 else 'V%d' % r.randint(1, 9)
            if r.random() < 0.1:
                t = '()'
            ty[n] = t
    for f in fbs:       # the fallback must be untyped or have the type of the others
        if f['id'] in ty and any(ty.get(i) != ty[f['id']] for i in f['ids']):
            if r.random() < 0.5:
                del ty[f['id']]
            else:
                for i in f['ids']:
                    if i not in have and i not in wild:
                        ty[i] = ty[f['id']]
    if deft and r.random() < deft:
        out.append(dict(k='deftype', ty=r.choice(['()', 'V7', 'V8'])))
    for n, t in ty.items():
        out.append(dict(k='type', id=n, ty=t, attr=n[0].isupper() and r.random() < 0.1))
    r.shuffle(out)
    out = out + ds
    for d in out:
        if d['k'] != 'rule':
            continue
        d['code'] = r.random() < code or (d['lhs'] in ty and r.random() < 0.9)
        for i, e in enumerate(d['rhs']):
            if d['code'] and r.random() < alias and not (set(e['t']) & wild):
                if len(e['t']) > 1 and len({ty.get(t, '') for t in e['t']}) > 1 and r.random() < 0.9:
                    continue
                e['a'] = 'x%d' % i
    return dsl.number(out)


CALLBACKS = ('errtype', 'extra', 'syntax_error', 'parse_fail', 'stack_overflow')


def callbacks(r, ds, always=(), p=0.5, never=()):
    pre = [dict(k=k) for k in CALLBACKS if k in always or (k not in never and r.random() < p)]
    r.shuffle(pre)
    return pre + ds


# ---------------------------------------------------------------- sentences
class Deriv:
    def __init__(self, ds):
        self.cls = {d['id']: d['ids'] for d in ds if d['k'] == 'class'}
        self.rules = {}
        for d in ds:
            if d['k'] == 'rule':
                self.rules.setdefault(d['lhs'], []).append(d['rhs'])
        self.start = next((d['id'] for d in ds if d['k'] == 'start'), next(iter(self.rules), None))
        self.cost = {}
        for _ in range(30):
            ch = False
            for n, alts in self.rules.items():
                c = min((max([0] + [self.ecost(e) for e in a]) + 1 for a in alts), default=99)
                if c < self.cost.get(n, 99):
                    self.cost[n] = c
                    ch = True
            if not ch:
                break
        self.alltoks = [t for t in dsl.names(ds) if t[0].isupper() and t not in self.cls]

    def ecost(self, e):
        return 0 if e['o'] or len(e['t']) > 1 or e['t'][0][0].isupper() else self.cost.get(e['t'][0], 99)

    def sentence(self, r, size=12):
        budget = [size]

        def sym(e, depth):
            if e['o'] and r.random() < 0.5:
                return []
            if len(e['t']) > 1:
                return [r.choice(e['t'])]
            n = e['t'][0]
            if n[0].isupper():
                if n in self.cls:
                    return [r.choice(self.cls[n])]
                return [n]
            if n == 'error':
                return [r.choice(self.alltoks)] if self.alltoks else []
            alts = self.rules.get(n, [])
            if not alts or depth > 60 or budget[0] < -200:
                return []
            if depth > 12 or budget[0] <= 0:
                m = min(max([0] + [self.ecost(e) for e in a]) for a in alts)
                alts = [a for a in alts if max([0] + [self.ecost(e) for e in a]) == m]
            a = r.choice(alts)
            budget[0] -= 1
            out = []
            for e in a:
                out += sym(e, depth + 1)
            return out
        return sym(el(self.start), 0) if self.start else []

    def inputs(self, r, n, size=12, maxlen=40, mutate=0.5):
        """Sentences and near-sentences, each ending in $ (not always)."""
        out = []
        for _ in range(n):
            s = self.sentence(r, size)[:maxlen]
            x = r.random()
            if x < mutate * 0.4:
                # what comes after the same token at another place
                o = self.sentence(r, size)[:maxlen]
                spots = [(i, j) for i, a in enumerate(s) for j, b in enumerate(o) if a == b and s[i + 1:] != o[j + 1:]]
                if spots:
                    i, j = r.choice(spots)
                    s = (s[:i + 1] + o[j + 1:])[:maxlen]
            elif self.alltoks and x < mutate:
                for _ in range(r.randint(1, 2)):
                    k = r.randint(0, len(s))
                    x = r.random()
                    if x < 0.4:
                        s = s[:k] + [r.choice(self.alltoks)] + s[k:]
                    elif x < 0.7 and s:
                        s = s[:k] + s[k + 1:]
                    elif k < len(s):
                        s[k] = r.choice(self.alltoks)
            out.append(s + ['$'])
        return out
