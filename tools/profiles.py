"""What is explored for each property and what of it is compared (its lens)."""
import copy
import itertools
import random

import dsl
import gen
import grammars as G
import small as S
from dsl import el, mkrule

# ---------------------------------------------------------------- lenses
# What is compared in each call: a actions with arguments, s syntax-error calls, exp their expected
# lists, p parse failures, plive values alive then, o overflows, x X extra accesses, t token extras,
# rk kind of the result, rc its error code, R root value, ex extra values, L values alive,
# path: actions compared over a whole accepted input (not call by call), status: accepted or rejected
LENS = {
    'C01': 'rk', 'C02': 'rk path', 'C03': 'status', 'C04': 'rk path status', 'C05': 'rk path status',
    'C06': 'rk path status', 'C07': 'rk s', 'C08': 'a s exp p o rk rc R status',
    'C09': 'a s p rk R status', 'C10': 'a s p rk R status', 'C11': 'a s p rk R status', 'C12': 'a s p rk R status',
    'C13': 'a t rk R status', 'C14': 'status', 'C15': 'rk path status', 'C16': 'a s p rk rc R',
    'C17': 'a s p rk rc R', 'C18': 'a s p plive rk rc R', 'C19': 's exp', 'C20': 'a s p rk rc R x X ex',
    'C21': 'a o rk rc R', 'C22': 'a s p o t x X ex R rk', 'C23': 'a s exp p o t x X ex rk rc R L',
    'C24': 'a plive L R', 'C25': 'status', 'C26': 'status', 'C27': 'a s p rk rc R status',
}
LENS = {k: set(v.split()) for k, v in LENS.items()}


def project(evs, F):
    out = []
    for e in evs:
        k = e[0]
        if k == 'a' and 'a' in F:
            out.append(['a', e[1], e[2]] + ([e[3]] if 'ex' in F else []))
        elif k == 's' and 's' in F:
            out.append(['s', e[1], e[2]] + ([e[3], e[4]] if 'exp' in F else []) + ([e[5]] if 'ex' in F else []))
        elif k == 'p' and ('p' in F or 'plive' in F):
            out.append(['p'] + ([e[1]] if 'ex' in F else []) + ([e[2]] if 'plive' in F else []))
        elif k == 'o' and 'o' in F:
            out.append(['o', e[1], e[2]] + ([e[3]] if 'ex' in F else []))
        elif k == 'R' and ('R' in F or 'rk' in F):
            out.append(['R'] + ([e[1]] if 'R' in F else []) + ([e[2]] if 'ex' in F else []))
        elif k == 'r' and 'rk' in F:
            out.append(['r', e[1]] + (e[2:] if 'rc' in F else []))
        elif k in 'xXt' and k in F:
            out.append(e if k == 't' or 'ex' in F else [k])
        elif k == 'L' and 'L' in F:
            out.append(e)
        elif k == 'BAD' and ('L' in F or 't' in F):
            out.append(e)
    return out


def whole(calls):
    """Actions and root value of an accepted input."""
    return [e[:3] for c in calls for e in c if e[0] == 'a'] + [e[:2] for c in calls for e in c if e[0] == 'R']


# ---------------------------------------------------------------- runs
def depth(k, budget, cap=9):
    L = 1
    while L < cap and k ** (L + 1) <= budget:
        L += 1
    return L


def toks_of(ds):
    cls = {d['id'] for d in ds if d['k'] == 'class'}
    return [t for t in dsl.names(ds) if t[0].isupper() and t not in cls]


class Maker:
    def __init__(self, r, tier):
        self.r, self.tier = r, tier
        self.progs = []

    def big(self, q, t):
        return q if self.tier == 'quick' else t

    def cnt(self, q, t):
        """How many random grammars"""
        return 5 * q if self.tier == 'quick' else 3 * t

    def run(self, failAt=0, seErrAt=0, ex0=5, L=0, post=False, alpha=None, paths=(), n=1):
        return dict(failAt=failAt, seErrAt=seErrAt, ex0=ex0, L=L, post=post,
                    alpha=alpha or [[] for _ in range(n)], paths=[list(p) for p in paths])

    def add(self, ds, budget=300, sents=8, size=12, fails=((0, 0),), post=False, mutate=0.5, maxlen=40,
            cap=9, ops=None, want=None, sent_fails=None, extra_paths=()):
        """One grammar: every sequence of calls up to some length, and longer sentences."""
        if isinstance(ds, str):
            ds = dsl.parse(ds)
        if self.r.random() < 0.08:
            ds = noops(self.r, ds, self.r.randint(1, 2))
        budget = budget * self.big(1, 5)
        sents = sents * self.big(1, 4)
        k = len(toks_of(ds)) + 1
        runs = []
        alpha = None
        if ops:
            alpha = [toks_of(ds) + ['$'] + list(ops)]
            k += len(ops)
        for fa, sa in fails:
            if budget:
                runs.append(self.run(fa, sa, L=depth(k, budget, cap), post=post, alpha=alpha))
        if sents:
            D = gen.Deriv(ds)
            for fa, sa in sent_fails or fails[:1]:
                ps = [[[1, x] for x in p] for p in D.inputs(self.r, sents, size, maxlen, mutate)]
                if ops:
                    for p in ps:
                        for o in ops:
                            if o == '+':
                                for _ in range(self.r.randint(0, 2)):
                                    p.insert(self.r.randint(0, len(p)), [1, '+'])
                        if '-' in ops and self.r.random() < 0.3:
                            p[self.r.randint(0, len(p) - 1):] = [[1, '-']]
                runs.append(self.run(fa, sa, post=post, paths=ps))
        for ps in extra_paths:
            runs.append(self.run(paths=[[[1, x] for x in p] for p in ps], post=post))
        self.progs.append(dict(gs=[ds], runs=runs, order=False, want=want))

    def status(self, ds):
        if isinstance(ds, str):
            ds = dsl.parse(ds) if ds else []
        self.progs.append(dict(gs=[ds], runs=[], order=False, want=None))

    # ---- families
    def curated(self, *lists, **kw):
        for li in lists:
            for g in li:
                self.add(g, **kw)

    def shaped(self, n, feats, opt=(), ntok=(3, 6), types=0.6, cb=None, always=(), never=(), deft=0.0, pre=None, alias=0.8, **kw):
        r = self.r
        for _ in range(n * self.cnt(1, 3)):
            F = list(feats) + [f for f in opt if r.random() < 0.3]
            ds = gen.Shaped(r, r.randint(*ntok), F, r.randint(1, 3)).grammar()
            ds = gen.typed(r, ds, p=types, deft=deft, alias=alias)
            if cb is not None:
                ds = gen.callbacks(r, ds, always=always, never=never, p=cb)
            if pre:
                ds = pre(r, ds)
            self.add(ds, **kw)

    def ctxs(self, n, *args, **kw):
        self.aheads(n, *args, fn=contexts, **kw)

    def aheads(self, n, feats=(), opt=(), types=0.0, cb=None, always=(), pre=None, fn=None, **kw):
        r = self.r
        kw = dict(dict(budget=60, sents=12, mutate=0.4, size=10), **kw)
        for _ in range(n * self.cnt(1, 3)):
            ds = (fn or ahead)(r, list(feats) + [f for f in opt if r.random() < 0.3])
            if types:
                ds = gen.typed(r, ds, p=types)
            if cb is not None:
                ds = gen.callbacks(r, ds, always=always, p=cb)
            if pre:
                ds = pre(r, ds)
            self.add(ds, **kw)

    def small(self, q, scope, pre=(), thorough=None, types=0.0, cb=None, always=(), status=False, fix=None, **kw):
        """q of the grammars of a small scope; all of them (or as many as given) in the thorough tier"""
        r = self.r
        li = S.grammars(*scope)
        n = min(len(li), self.big(q, thorough or len(li)))
        kw = dict(dict(budget=100, sents=0), **kw)
        for g in (li if n == len(li) else r.sample(li, n)):
            ds = S.decls(g, pre)
            if types:
                ds = gen.typed(r, ds, p=types)
            if cb is not None:
                ds = gen.callbacks(r, ds, always=always, p=cb)
            elif always:
                ds = [dict(k=k) for k in always] + ds
            if fix:
                ds = fix(r, ds)
            if status:
                self.status(ds)
            else:
                self.add(ds, **kw)

    def precs(self, q, thorough, only=()):
        """e A e, e B e, U e (or e U): assignments of levels and marks, with every pair of operators"""
        r = self.r
        li = [x for x in S.precedences() if not only or any(k in only for k, _ in x[0])]
        for x in r.sample(li, min(len(li), self.big(q, thorough))):
            seqs = ['N%sN%sN' % (a, b) for a in 'AB' for b in 'AB'] + (['NU', 'NUU', 'NUAN', 'NANU', 'NBNU', 'NANUBN', 'NBNUAN', 'NANBNU'] if x[2] else
                                                                     ['UN', 'UUN', 'UNAN', 'UNBN', 'NAUN', 'NAUNBN', 'NBUNAN', 'UNANBN'])
            self.add(S.prec_decls(x), budget=0, sents=0, extra_paths=[[list(s) + ['$'] for s in seqs]])

    def real(self, n, feats=(), types=0.4, cb=None, always=(), pre=None, **kw):
        """Larger grammars: n of each one with some of the features, most of them changed a little"""
        r = self.r
        kw = dict(dict(budget=0, sents=8, mutate=0.5, size=22), **kw)
        for has, g in G.REAL:
            if feats and not set(feats) & set(has.split()):
                continue
            for k in range(self.big(n, 6 * n)):
                ds = dsl.parse(g)
                if k or r.random() < 0.3:
                    ds = vary(r, ds, r.randint(1, 3))
                ds = gen.typed(r, ds, p=r.choice([0, types, types]), alias=0.6)
                if cb is not None:
                    ds = gen.callbacks(r, ds, always=always, p=cb)
                if pre:
                    ds = pre(r, ds)
                self.add(ds, **kw)

    def raws(self, n, types=0.0, cb=None, always=(), never=(), pre=None, **kw):
        r = self.r
        for _ in range(n * self.cnt(1, 3)):
            ds = gen.raw(r, r.randint(0, 3), r.randint(1, 4))
            ds = gen.typed(r, ds, p=types, alias=0.8 if types else 0)
            if cb is not None:
                ds = gen.callbacks(r, ds, always=always, never=never, p=cb)
            if pre:
                ds = pre(r, ds)
            self.add(ds, **kw)


def with_cb(ds, *ks):
    if isinstance(ds, str):
        ds = dsl.parse(ds)
    have = dsl.kinds(ds)
    return [dict(k=k) for k in ks if k not in have] + ds


# ---------------------------------------------------------------- generators of particular things
def operators(r, kinds, nops=(2, 4), feats=()):
    """Expressions with random operators, levels and marks; most have all their conflicts settled."""
    ops = gen.TOK[:r.randint(*nops)]
    levels = []
    for o in ops:
        if levels and r.random() < 0.4:
            r.choice(levels).append(o)
        else:
            levels.append([o])
    r.shuffle(levels)
    drop = r.random() < 0.15
    pre = [dict(k=r.choice(kinds), ids=l) for l in levels]
    extra = []
    if r.random() < 0.4:
        extra = ['U']
        pre.insert(r.randint(0, len(pre)), dict(k=r.choice(kinds), ids=['U']))
    if drop and pre:
        pre.pop(r.randrange(len(pre)))
    rules = []
    marks = [o for l in levels for o in l] + extra

    def add(els):
        # a mark is usually a token with a precedence, but not always
        x = r.random()
        rules.append(mkrule('e', els, True, r.choice(marks) if x < 0.25 else r.choice(['Nop', 'N', 'X']) if x < 0.29 else ''))
    used = 0
    many = r.random() < 0.3     # several tokens as operator; some of them may have no precedence
    if many and len(ops) > 2 and r.random() < 0.5:
        two = r.sample(ops, 2)
        add([el('e'), el(two), el('e')])
        ops = [o for o in ops if o not in two] + r.choice([[], [], two[:1]])
        used += 1
    for o in ops:
        x = r.random()
        if many and r.random() < 0.4:
            ms = [o] + r.sample(['Un', 'Nop', 'U'] + [p for p in ops if p != o], r.randint(1, 2))
            r.shuffle(ms)
            add([el(ms), el('e')])
            if r.random() < 0.5:
                continue
        if x < 0.6 or not used:
            add([el('e'), el(o), el('e')])
            used += 1
        elif x < 0.75:
            add([el(o), el('e')])
        elif x < 0.88:
            add([el('e'), el(o)])
        else:
            add([el('e'), el(o), el('e'), el(r.choice(ops)), el('e')])
        if r.random() < 0.12:
            add([el(o), el('e')])
    rules.append(mkrule('e', [el('N')]))
    if r.random() < 0.4:
        rules.append(mkrule('e', [el('X'), el('e'), el('Y')]))
    if r.random() < 0.12:       # the dangling else
        o2 = r.choice(ops)
        add([el('If'), el('e')])
        add([el('If'), el('e'), el(o2), el('e')])
    if r.random() < 0.15:
        add([el('e'), el('e')])
        if r.random() < 0.7:
            pre.insert(r.randint(0, len(pre)), dict(k=r.choice(kinds), ids=['N']))
            rules[-1]['prec'] = 'N'
    start = mkrule('s', [el('e')])
    if 'error' in feats:
        rules.append(mkrule('e', [el('X'), el('error'), el('Y')]))
    if 'list' in feats:
        start = mkrule('s', [el('l')])
        rules = [mkrule('l', []), mkrule('l', [el('l'), el('e'), el('Z')])] + rules
    ds = pre + [start] + rules
    if 'wildcard' in feats:
        ds.append(dict(k='wildcard', id='W'))
        rules_w = mkrule('e', [el('X'), el('W')]) if r.random() < 0.5 else mkrule('s', [el('e'), el('W')])
        ds.append(rules_w)
    if 'fallback' in feats:
        ds.append(dict(k='fallback', id=r.choice(['N', 'Fb']), ids=[r.choice(ops)]))
        if r.random() < 0.5:
            ds.append(mkrule('s', [el('e'), el('Fb')]))
    if 'compound' in feats and len(ops) > 1:
        ds.append(mkrule('e', [el('V'), el(r.sample(ops, 2)), el('e')]))
    return dsl.number(ds)


def overlap(r):
    """Rules that can be reduced at the same time, with random marks."""
    ns = ['x', 'y', 'z'][:r.randint(2, 3)]
    marks = gen.TOK[:r.randint(1, 3)]
    pre, left = [], list(marks)
    r.shuffle(left)
    while left:
        k = min(len(left), r.choice([1, 1, 2]))
        pre.append(dict(k=r.choice(dsl.ASSOC), ids=left[:k]))
        left = left[k:]
    body = [el(t) for t in r.choice([['T'], ['T'], ['T', 'T'], [], ['T', 'M']])]
    if r.random() < 0.2:
        pre.append(dict(k='left', ids=['T']))
    rules, ends = [], ['Q', 'R', 'P']
    for n in ns:
        rules.append(mkrule(n, copy.deepcopy(body), True, r.choice(marks) if r.random() < 0.85 else ''))
        # contexts
        if r.random() < 0.7:
            rules.insert(0, mkrule('s', [el(n)]))
        if r.random() < 0.8:
            rules.insert(0, mkrule('s', [el(n), el(r.choice(ends))]))
        if r.random() < 0.3:
            rules.insert(0, mkrule('s', [el(n), el(r.choice(ends + marks)), el('K')]))
        rules.insert(0, mkrule('s', [el('J' + n.upper()), el(n)]))
    if r.random() < 0.3:
        rules.insert(0, mkrule('s', copy.deepcopy(body) + [el(r.choice(ends + marks)), el('D')]))
    return dsl.number(pre + rules)


def ahead(r, feats=(), ntok=(6, 14)):
    """Nonterminals with the same body: what follows them, and nothing else, says which one it is."""
    feats = set(feats)
    pool = list(gen.TOK)
    pool.remove('P')
    pool.remove('Q')
    r.shuffle(pool)
    pool = pool[:r.randint(*ntok)]
    free, rules, nts, pre = list(pool), [], [], []
    cls = []

    def tok():
        if free and r.random() < 0.93:
            return free.pop()
        return r.choice(pool)

    def nt():
        nts.append('n%d' % len(nts))
        return nts[-1]

    def term():
        x = r.random()
        if 'compound' in feats and x < 0.25 and len(free) > 2:
            return el([tok() for _ in range(r.randint(2, 3))])
        if 'class' in feats and x < 0.35:
            if cls and r.random() < 0.5:
                return el(r.choice(cls))
            if len(free) > 2:
                c = 'K%s' % 'cdefg'[len(cls) % 5]
                if c not in cls:
                    cls.append(c)
                    pre.append(dict(k='class', id=c, ids=[tok() for _ in range(r.randint(1, 3))]))
                    return el(c)
        return el(tok())

    def elem(d, nn=False):
        """Something to be put in a right hand side; nn: it must not be empty"""
        x = r.random()
        if 'optional' in feats and x < 0.2 and not nn:
            e = term() if d <= 0 or r.random() < 0.7 else elem(d - 1, True)
            e['o'] = True
            return e
        if d <= 0 or x < 0.35:
            return term()
        done = [n for n in nts if any(d['lhs'] == n for d in rules)]
        if done and r.random() < 0.12 and not nn:
            return el(r.choice(done))
        n, k = nt(), r.choice([4, 6, 3, 7, 9] if nn else range(10))
        if 'class' in feats and r.random() < 0.3:
            k = 6
        sure = r.random() < 0.85     # what would be ambiguous is rare
        if k == 0:
            alts = [[], [el(n), elem(d - 1, sure)]]
        elif k == 1:
            alts = [[], [elem(d - 1, sure), el(n)]]
        elif k == 2:
            alts = [[], [elem(d - 1, sure)]]
        elif k == 3:
            alts = [[elem(d - 1, nn)]]
        elif k == 4:
            alts = [[term(), elem(d - 1)], [term()]]
        elif k == 5:
            alts = [[elem(d - 1), elem(d - 1)]]
        elif k == 6:
            t = term()
            alts = [[copy.deepcopy(t), elem(d - 1, sure)], [copy.deepcopy(t), term()]]
        elif k == 7:
            alts = [[elem(d - 1, True), el(n)], [term()]]
        elif k == 8:
            alts = [[]]
        else:
            alts = [[elem(d - 1, nn)], [elem(d - 1, True)]]
        if 'error' in feats and r.random() < 0.2:
            alts.append([el('error')] + ([term()] if r.random() < 0.5 else []))
        for a in alts:
            rules.append(mkrule(n, a))
        return el(n)

    def deep(k):
        """What it begins with is only known some nonterminals deeper"""
        n = nt()
        if k == 0:
            t = term()
            alts = [[copy.deepcopy(t), term()] for _ in range(r.randint(1, 3))]
        else:
            m = deep(k - 1)
            x = r.random()
            if x < 0.5:
                alts = [[m]]
            elif x < 0.7:
                alts = [[m, term()]]
            else:
                z = nt()
                rules.append(mkrule(z, []))
                if r.random() < 0.6:
                    rules.append(mkrule(z, [el(z), term()] if r.random() < 0.5 else [term()]))
                alts = [[el(z), m]]
            if r.random() < 0.4:
                alts.insert(r.randint(0, 1), [term()])
        for a in alts:
            rules.append(mkrule(n, a))
        return el(n)

    body = [el('P')] if r.random() < 0.8 else [el('P'), el('Q')] if r.random() < 0.6 else []
    heads = ['a', 'b', 'c'][:r.choice([2, 2, 2, 3])]
    starts = []
    for h in heads:
        for _ in range(r.choice([1, 1, 2])):
            tail = [elem(r.randint(0, 2 if 'optional' in feats else 3)) for _ in range(r.randint(1, 3))]
            if r.random() < 0.25:
                tail[0] = deep(r.randint(1, 3))
            starts.append(mkrule('s', [el(h)] + tail))
        rules.append(mkrule(h, copy.deepcopy(body)))
    if r.random() < 0.3:
        starts.append(mkrule('s', [el(tok()), el(r.choice(heads)), el(tok())]))
    if r.random() < 0.3:
        starts.append(mkrule('s', [el('ZZ'), elem(2)]))
    r.shuffle(starts)
    x = r.random()
    if x < 0.4:
        r.shuffle(rules)
    elif x < 0.8:
        rules.reverse()
    if nts and r.random() < 0.3:
        pre.append(dict(k='type', id=r.choice(nts), ty='', attr=False))
    ds = starts + rules
    used = [t for t in dsl.names(ds) if t[0].isupper() and t not in cls and t != 'error']
    if 'fallback' in feats and len(used) > 2:
        ch = r.sample(used, min(len(used), r.randint(2, 4)))
        links = [(ch[i], ch[i + 1]) for i in range(len(ch) - 1)]
        if r.random() < 0.3:
            links.append(('Fz', r.choice(ch)))
        r.shuffle(links)
        for x, y in links:
            ds.insert(r.choice([0, len(ds)]), dict(k='fallback', id=y, ids=[x]))
    if 'prec' in feats or 'optional' in feats and r.random() < 0.4:
        ts = r.sample(used, min(len(used), r.randint(1, 4)))
        for t in ts:
            pre.append(dict(k=r.choice(dsl.ASSOC), ids=[t]))
        for d in ds:
            if d['k'] == 'rule' and r.random() < 0.08:
                d['prec'] = r.choice(ts)
    if 'wildcard' in feats and used:
        ds.append(dict(k='wildcard', id=r.choice(used)))
        ds.append(dict(k='type', id='Wb', ty='', attr=False))
    r.shuffle(pre)
    for d in pre:
        if d['k'] == 'class':
            ds.insert(r.choice([0, len(ds)]), d)
        else:
            ds.insert(0, d)
    # what is shifted is usually chosen without looking at what may follow
    return dsl.number(ds)


def contexts(r, feats=()):
    """The same nonterminals at several places, not all of them at each one: states whose kernels, follow sets and
    gotos overlap."""
    feats = set(feats)
    pool = list(gen.TOK)
    r.shuffle(pool)
    rules, leaves = [], []

    def tok():
        return pool.pop() if pool and r.random() < 0.95 else r.choice(gen.TOK)

    def rule(n, *els):
        rules.append(mkrule(n, [el(e) if isinstance(e, (str, list)) else e for e in els]))

    def opt(t):
        e = el(t)
        if 'optional' in feats and r.random() < 0.4:
            e['o'] = True
        return e

    firsts = [tok() for _ in range(r.randint(1, 3))]
    tails = []
    for i in range(r.randint(2, 5)):
        n = 'n%d' % i
        f = r.choice(firsts) if r.random() < 0.8 else tok()
        x = r.randint(0, 9)
        if leaves and x < 2:
            o = r.choice(leaves)
            if x == 0:
                rule(n, o)
                rule(n, f, tok())
            else:
                rule(n, f, o, tok())
                rule(n, f, tok())
        elif x < 6:
            rule(n, f, opt(tok()), tok())
            if r.random() < 0.3:
                rule(n, f, n, tok())
        elif x == 6:
            rule(n, f, tok())
            rule(n, n, tok())
        elif x == 7:
            t = tok()
            if tails and r.random() < 0.5:
                t = r.choice(tails)
            rule(n, f, t)
            tails.append(t)
        elif x == 8:
            m = 'm%d' % i
            rule(n, f, m, tok())
            rule(m)
            rule(m, m, tok())
        else:
            rule(n, f, [tok(), tok()] if 'compound' in feats else tok())
        if 'error' in feats and r.random() < 0.35:
            rule(n, *([f] if r.random() < 0.6 else []) + ['error'] + ([tok()] if r.random() < 0.7 else []))
        leaves.append(n)
    # the places
    loop = r.random() < 0.5
    top = 'i' if loop else 's'
    starts = []
    shared = [tok() for _ in range(2)]
    for i in range(r.randint(2, 4)):
        sub = r.sample(leaves, r.randint(1, min(3, len(leaves))))
        h = tok()
        end = [] if not loop and r.random() < 0.4 else [r.choice(shared) if r.random() < 0.5 else tok()]
        x = r.random()
        if x < 0.5:
            for o in sub:
                starts.append(mkrule(top, [el(h), el(o)] + [el(e) for e in end]))
        elif x < 0.85:
            z = 'z%d' % i
            starts.append(mkrule(top, [el(h), el(z)] + [el(e) for e in end]))
            for o in sub:
                y = z
                if r.random() < 0.25:
                    y = '%s%s' % (z, o)
                    rule(z, y)
                rule(y, o, *([tok()] if r.random() < 0.3 else []))
        else:
            starts.append(mkrule(top, [el(h)] + [el(o) for o in sub] + [el(e) for e in end]))
    if 'error' in feats and r.random() < 0.5:
        starts.append(mkrule(top, [el('error')] + ([el(tok())] if loop or r.random() < 0.6 else [])))
    r.shuffle(starts)
    if r.random() < 0.6:
        r.shuffle(rules)
    head = [mkrule('s', [el('l')]), mkrule('l', []), mkrule('l', [el('l'), el('i')])] if loop else []
    ds = head + starts + rules
    used = [t for t in dsl.names(ds) if t[0].isupper()]
    if 'fallback' in feats and len(used) > 2:
        ch = r.sample(used, min(len(used), r.randint(2, 4)))
        for x, y in zip(ch, ch[1:]):
            ds.insert(r.choice([0, len(ds)]), dict(k='fallback', id=y, ids=[x]))
    if 'prec' in feats:
        for t in r.sample(used, min(len(used), r.randint(1, 3))):
            ds.insert(0, dict(k=r.choice(dsl.ASSOC), ids=[t]))
    if 'wildcard' in feats:
        ds.append(dict(k='wildcard', id=r.choice(used)))
        ds.append(dict(k='type', id='Wb', ty='', attr=False))
    if 'class' in feats:
        ds.insert(r.choice([0, len(ds)]), dict(k='class', id='Kc', ids=r.sample(used, min(len(used), r.randint(1, 3)))))
        spots = [e for d in ds if d['k'] == 'rule' for e in d['rhs'] if e['t'][0][0].isupper()]
        r.choice(spots)['t'] = ['Kc']
    return dsl.number(ds)


def noops(r, ds, n=1):
    """Directives that do nothing, anywhere."""
    ds = list(ds)
    toks = toks_of(ds) or ['A']
    wild = {d['id'] for d in ds if d['k'] == 'wildcard'}
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            d = dict(k='fallback', id=r.choice(toks + ['Zf']), ids=[])
        elif x < 0.65:
            d = dict(k=r.choice(dsl.ASSOC), ids=[])
        elif x < 0.85:
            d = dict(k='type', id=r.choice(toks + ['Zt']), ty='', attr=False)
        else:
            d = dict(k='class', id='Zc', ids=[r.choice(toks)]) if not any(d.get('id') == 'Zc' for d in ds) else dict(k='left', ids=[])
        ds.insert(r.randint(0, len(ds)), d)
    return ds


def vary(r, ds, n):
    """Small changes, of which most leave a grammar that is right."""
    ds = copy.deepcopy(ds)
    for _ in range(n):
        rules = [d for d in ds if d['k'] == 'rule']
        toks = toks_of(ds)
        d = r.choice(rules)
        x = r.random()
        if x < 0.2:
            if sum(e['lhs'] == d['lhs'] for e in rules) > 1 and d is not rules[0]:
                ds.remove(d)
        elif x < 0.4:       # another order
            k = [i for i, e in enumerate(ds) if e['k'] == 'rule'][1:]
            sh = [ds[i] for i in k]
            r.shuffle(sh)
            for i, e in zip(k, sh):
                ds[i] = e
        elif x < 0.55:      # another numbering
            ds = [dict(k='type', id=t, ty='', attr=False) for t in r.sample(toks, min(len(toks), r.randint(2, 6)))] + ds
        elif x < 0.7:       # other precedences
            lv = [i for i, e in enumerate(ds) if e['k'] in dsl.ASSOC]
            if lv:
                y = r.random()
                if y < 0.3:
                    ds[r.choice(lv)]['k'] = r.choice(dsl.ASSOC)
                elif y < 0.6 and len(lv) > 1:
                    i, j = r.sample(lv, 2)
                    ds[i], ds[j] = ds[j], ds[i]
                elif y < 0.8:
                    d['prec'] = r.choice(ds[r.choice(lv)]['ids'])
                elif len(ds[lv[0]]['ids']) > 1:
                    ds[lv[0]]['ids'].pop()
        elif x < 0.85:      # one more token, one more alternative
            es = [e for e in d['rhs'] if e['t'][0][0].isupper()]
            if es and r.random() < 0.5:
                e = r.choice(es)
                e['t'] = e['t'] + ['Xtra']
            else:
                d['rhs'].insert(r.randint(0, len(d['rhs'])), el(r.choice(['Xtra', 'Ytra'])))
        elif d['rhs']:
            e = r.choice(d['rhs'])
            if len(e['t']) == 1 and e['t'][0] != 'error':
                e['o'] = True
    return dsl.renumber_alias(dsl.number(ds))


def permuted(r, ds):
    """The same declarations in another order: only what is documented keeps its place."""
    ds = copy.deepcopy(ds)
    rules = [d for d in ds if d['k'] == 'rule']
    starts = [d for d in ds if d['k'] == 'start']
    first = rules[0]['lhs'] if rules else None
    if not starts and r.random() < 0.5 and first:
        ds.insert(r.randint(0, len(ds)), dict(k='start', id=first))
        starts = [1]
    prec = [d for d in ds if d['k'] in dsl.ASSOC]
    rest = [d for d in ds if d['k'] not in dsl.ASSOC]
    r.shuffle(rest)
    if not starts and first:
        i = next(i for i, d in enumerate(rest) if d['k'] == 'rule')
        j = r.choice([j for j, d in enumerate(rest) if d['k'] == 'rule' and d['lhs'] == first])
        rest[i], rest[j] = rest[j], rest[i]
    # precedences anywhere, in their order
    pos = sorted(r.randint(0, len(rest)) for _ in prec)
    out = []
    for i, d in enumerate(rest + [None]):
        while pos and pos[0] == i:
            out.append(prec.pop(0))
            pos.pop(0)
        if d is not None:
            out.append(d)
    return out


def lockstep(seqs, n=2):
    """Each token to every parser, one after the other."""
    return [[[i + 1, t] for t in s for i in range(n)] for s in seqs]


def all_seqs(toks, L):
    out = []
    for k in range(L):
        out += [list(p) + ['$'] for p in itertools.product(toks, repeat=k)]
    return out


# ---- large grammars
def wide_tokens(n, place='all'):
    """n tokens, each one starting its own short rule."""
    return dsl.number([mkrule('s', [el('x')])] + [mkrule('x', [el('T%d' % i)]) for i in range(n)])


def big_list(n):
    """n kinds of items in a list; every token is a look-ahead in every state of the list"""
    ds = [mkrule('s', [el('l')]), mkrule('l', []), mkrule('l', [el('l'), el('i')])]
    ds += [mkrule('i', [el('T%d' % k), el('T%d' % ((k * 7 + 3) % n))]) for k in range(n)]
    return dsl.number(ds)


def chain(n, tok='A'):
    """a nonterminal for each level"""
    ds = [mkrule('s', [el('n0')])]
    ds += [mkrule('n%d' % k, [el('n%d' % (k + 1))]) for k in range(n)]
    ds += [mkrule('n%d' % n, [el(tok)])]
    return dsl.number(ds)


def long_rule(n, names=None):
    """a rule with n tokens"""
    names = names or ['T%d' % k for k in range(n)]
    return dsl.number([mkrule('s', [el(t) for t in names]), mkrule('s', [el('Q'), el(names[-1])])])


def many_rules(n, k):
    """n rules made of k tokens in positional notation"""
    ds = []
    toks = ['T%d' % i for i in range(k)]
    for i in range(n):
        ds.append(mkrule('s', [el(toks[i % k]), el(toks[(i // k) % k]), el(toks[(i // k // k) % k])]))
    return dsl.number(ds)


def many_ops(r, n):
    """one level of precedence for each of n operators"""
    ds = [dict(k=r.choice(dsl.ASSOC), ids=['O%d' % i]) for i in range(n)]
    ds += [mkrule('s', [el('e')])] + [mkrule('e', [el('e'), el('O%d' % i), el('e')]) for i in range(n)] + [mkrule('e', [el('N')])]
    return dsl.number(ds)


def square(n):
    """few rules, n * n entries in the table of actions"""
    return dsl.number([dict(k='class', id='K', ids=['U%d' % i for i in range(n)])] +
                      [mkrule('s', [el('T%d' % i), el('K'), el('V%d' % i)]) for i in range(n)])


def shifted(base, n, where):
    """base with n tokens that no rule uses, before or after the others"""
    fill = [dict(k='type', id='Z%d' % i, ty='', attr=False) for i in range(n)]
    ds = dsl.parse(base) if isinstance(base, str) else base
    if where == 'before':
        return fill + ds
    if where == 'mid':
        toks = toks_of(ds)
        return [dict(k='type', id=t, ty='', attr=False) for t in toks[:len(toks) // 2]] + fill + ds
    return ds + fill


def nest(n, base='s ::= e {} e ::= e P t {} e ::= t; t ::= L e R {} t ::= N {}'):
    """many copies of a small grammar, each one with its own brackets"""
    ds = [mkrule('s', [el('c%d' % i)]) for i in range(n)]
    for i in range(n):
        ds += [mkrule('c%d' % i, [el('B%d' % i), el('d%d' % i), el('E')]),
               mkrule('d%d' % i, []), mkrule('d%d' % i, [el('d%d' % i), el('A')]),
               mkrule('d%d' % i, [el('d%d' % i), el('B%d' % i), el('C')])]
    return dsl.number(ds)


# ---------------------------------------------------------------- properties
def c01(m):
    m.curated(G.PLAIN, budget=400, sents=10)
    m.raws(110, budget=250, sents=6)
    m.shaped(60, (), ('compound', 'optional'), types=0.3, budget=200, sents=10, size=16)
    m.aheads(110, (), ('compound', 'optional', 'class'))
    m.ctxs(80, (), ('compound', 'optional', 'class'), mutate=0.6)
    m.aheads(40, ('class',), ('compound', 'optional'))
    m.real(3, ('plain',), types=0)
    m.real(1, types=0)
    m.small(697, SMALL, budget=200)
    m.small(1000, LONGER)
    m.small(600, FOUR)


def c02(m):
    r = m.r
    for g in G.PLAIN + G.TYPES:
        m.add(g, budget=150, sents=8, mutate=0.2)
    for g in G.PLAIN:
        ds = gen.typed(r, dsl.parse(g), p=0.7, alias=0.8)
        m.add(ds, budget=120, sents=8, mutate=0.2)
    for g in G.PREC + G.OPTIONAL + G.COMPOUND:
        m.add(g, budget=60, sents=6, mutate=0.2)
    m.shaped(70, (), ('compound', 'optional', 'prec', 'class'), types=0.7, deft=0.1, budget=100, sents=12, size=16, mutate=0.2)
    m.raws(40, types=0.7, budget=100, sents=6)
    m.aheads(40, (), ('compound', 'class'), types=0.7, mutate=0.2)
    m.ctxs(30, (), ('compound', 'class', 'optional'), types=0.7, mutate=0.2)
    m.real(3, types=0.7, mutate=0.2)
    m.small(700, SMALL, types=0.8, budget=60)
    m.small(300, FOUR, types=0.8, thorough=3000, budget=60)


def c03(m):
    for li in (G.PLAIN, G.DOUBTFUL, G.PREC, G.NONASSOC, G.RR, G.FALLBACK, G.WILDCARD, G.OPTIONAL, G.COMPOUND, G.ERROR, G.TYPES):
        for g in li:
            m.status(g)
    r = m.r
    for g in G.TYPES + G.PLAIN[::3] + G.OPTIONAL[::3] + G.COMPOUND[::3] + G.ERROR[::3]:
        if 'extratoken' not in g:
            m.status('%extratoken; ' + g)
    for _ in range(m.cnt(600, 4000)):
        m.status(gen.raw(r, r.randint(0, 4), r.randint(1, 4)))
    for _ in range(m.cnt(150, 1200)):
        F = [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'wildcard', 'class') if r.random() < 0.3]
        m.status(gen.typed(r, gen.Shaped(r, r.randint(2, 6), F, r.randint(1, 3)).grammar(), p=0.5))
    for _ in range(m.cnt(350, 2000)):
        m.status(operators(r, dsl.ASSOC))
    for _ in range(m.cnt(120, 800)):
        m.status(overlap(r))
    for _ in range(m.cnt(250, 1500)):
        m.status(ahead(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    for _ in range(m.cnt(250, 1500)):
        m.status(ahead(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2], ntok=(3, 7)))
    for _ in range(m.cnt(150, 800)):
        m.status(contexts(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    for _ in range(m.cnt(200, 1200)):
        m.status(gen.raw(r, r.randint(0, 3), r.randint(1, 4), pe=r.choice([0, 0.1]), po=r.choice([0, 0.3]), pp=r.choice([0.3, 0.6])))
    for _ in range(m.big(20, 200)):
        for _, g in G.REAL:
            m.status(vary(r, dsl.parse(g), r.randint(1, 4)))
    m.small(700, FOUR, status=True)
    for sc, pre in ((LONGER, ()), (ERRS, ()), (WILD, (WILDC,)), (COMP, ()), (CLAS, (CLASS,)), (OPTS, ()), (FALL, (dict(k='fallback', id='A', ids=['B']),))):
        m.small(300, sc, pre, status=True, thorough=4000)


def c04(m):
    m.curated(G.PREC, budget=250, sents=10, size=20)
    for _ in range(m.cnt(220, 900)):
        m.add(operators(m.r, ['left', 'right', 'left', 'right', 'nonassoc']), budget=100, sents=8, size=20)
    m.shaped(30, ('prec',), ('compound', 'optional'), types=0.2, budget=100, sents=8, size=16)
    m.real(5, ('prec',), types=0.2)
    m.precs(500, 8000)


def c05(m):
    m.curated(G.NONASSOC, budget=250, sents=10, size=16)
    for _ in range(m.cnt(130, 600)):
        F = [f for f in ('wildcard', 'fallback', 'error', 'list', 'compound') if m.r.random() < 0.2]
        m.add(operators(m.r, ['nonassoc', 'nonassoc', 'left', 'right'], feats=F), budget=100, sents=8, size=16)
    for _ in range(m.cnt(30, 200)):
        m.add(overlap(m.r), budget=80, sents=4)
    m.real(6, ('nonassoc',), types=0.2)
    m.precs(400, 6000, ('nonassoc',))


def c06(m):
    m.curated(G.RR, budget=200, sents=6)
    for _ in range(m.cnt(160, 800)):
        m.add(overlap(m.r), budget=120, sents=6)


def c07(m):
    m.curated(G.PLAIN, budget=500, sents=10)
    for g in G.PLAIN:
        m.add(with_cb(g, 'syntax_error', 'errtype'), budget=150, sents=4, fails=((0, 1),))
    m.raws(70, budget=200, sents=6)
    m.shaped(50, (), ('compound', 'optional'), types=0.2, budget=200, sents=10, size=16)
    m.shaped(20, (), ('compound', 'optional'), types=0.2, cb=0.0, always=('syntax_error', 'errtype'), fails=((0, 1),), budget=100, sents=6)
    m.aheads(40, (), ('compound', 'optional', 'class', 'prec'), budget=150)
    m.ctxs(40, (), ('compound', 'optional', 'class', 'prec'), mutate=0.8)
    m.real(3, types=0, cb=0.3, mutate=0.9)
    m.small(697, SMALL, budget=130, fix=lambda r, ds: with_cb(ds, 'syntax_error', 'errtype') if r.random() < 0.5 else ds)
    m.small(400, LONGER)
    m.small(300, FOUR)


def one_each(ds, r, n=40):
    """a sequence for each token, for grammars with too many for anything else"""
    D = gen.Deriv(ds)
    return D


def c08(m):
    r = m.r
    se = ('syntax_error',)
    # the number of symbols, around the sizes where the types of the tables change
    for n in ([120, 124, 125, 126, 127, 128, 130] if m.tier == 'quick' else list(range(116, 134)) + list(range(246, 262))):
        ds = with_cb(wide_tokens(n), *se)
        ts = ['T%d' % i for i in sorted({0, 1, n // 2, n - 2, n - 1} | {r.randrange(n) for _ in range(8)})]
        ps = [[[1, t], [1, '$']] for t in ts] + [[[1, ts[0]], [1, ts[-1]], [1, '$']], [[1, '$']]]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in ([r.randint(250, 253), 254, 255, 256, 257, 600] if m.tier == 'quick' else list(range(246, 262)) + [511, 512, 513, 1100]):
        ds = with_cb(wide_tokens(n), *se)
        ps = [[[1, 'T%d' % t], [1, '$']] for t in sorted({0, 1, 126, 127, 128, n // 2, n - 2, n - 1, r.randrange(n), r.randrange(n)})]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in ([10, 11, 12, 15, 16, 17, 60, 181, 183] if m.tier == 'quick' else list(range(8, 20)) + [60, 90, 120, 180, 181, 182, 183, 256, 258]):
        ds = with_cb(square(n), *se)
        ps = []
        for _ in range(14):
            i, j = r.choice([0, 1, n // 2, n - 1, n - 2, r.randrange(n)]), r.choice([0, 1, n // 2, n - 1, r.randrange(n)])
            ps.append([[1, x] for x in ('T%d' % i, 'U%d' % j, 'V%d' % (i if r.random() < 0.7 else j), '$')])
        ps.append([[1, x] for x in r.choice([('U0', 'T1', 'U1', 'V1', '$'), ('T0', 'T1', '$'), ('T%d' % (n - 1), '$')])])
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in ([24, 60] if m.tier == 'quick' else [16, 24, 42, 60, 90, 120]):
        ds = with_cb(many_ops(r, n), *se)
        D = gen.Deriv(ds)
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=[[[1, x] for x in p] for p in D.inputs(r, 24, 8, 12, 0.4)])], order=False, want='ok'))
    # states and rules
    for n in ([12, 20, 26, 27, 28, 40, 60, 84, 85, 86] if m.tier == 'quick' else [12, 20, 24, 25, 26, 27, 28, 29, 30, 40, 50, 52, 54, 60]):
        ds = with_cb(nest(n), *se)
        D = gen.Deriv(ds)
        ps = [[[1, x] for x in p] for p in D.inputs(r, 24, 8, 12, 0.4)]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in ([30, 60, 61, 62, 63, 64, 90] if m.tier == 'quick' else list(range(56, 70)) + list(range(118, 132, 2))):
        ds = with_cb(big_list(n), *se)
        D = gen.Deriv(ds)
        ps = [[[1, x] for x in p] for p in D.inputs(r, 16, 10, 16, 0.4)]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in [30, 60, 120, 123, 124, 125, 126, 127, 128, 129, 130]:
        ds = with_cb(chain(n), *se)
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=[[[1, 'A'], [1, '$']], [[1, 'A'], [1, 'A'], [1, '$']], [[1, '$']]])], order=False, want='ok'))
    for n in [1, 2, 3, 50, 98, 99]:
        ds = with_cb(long_rule(n), *se)
        full = [[1, 'T%d' % k] for k in range(n)]
        ps = [full + [[1, '$']], full[:-1] + [[1, '$']], full + [[1, 'T0'], [1, '$']], [[1, 'Q'], full[-1], [1, '$']]]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    for n in [130, 257]:
        ds = [dict(k='stack', n=0, ty='')] + with_cb(long_rule(n), *se)
        full = [[1, 'T%d' % k] for k in range(n)]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=[full + [[1, '$']], full[:-1] + [[1, '$']], full + [[1, 'T0'], [1, '$']]])], order=False, want='ok'))
    for n, k in [(60, 5), (100, 6), (120, 7)] + ([] if m.tier == 'quick' else [(200, 8), (300, 9)]):
        ds = with_cb(many_rules(n, k), *se)
        D = gen.Deriv(ds)
        ps = [[[1, x] for x in p] for p in D.inputs(r, 30, 8, 8, 0.4)]
        m.progs.append(dict(gs=[ds], runs=[m.run(paths=ps)], order=False, want='ok'))
    # small grammars with their look-aheads anywhere in the numbering
    small = G.PLAIN + G.FALLBACK[:10] + G.WILDCARD[:10] + G.ERROR[:8] + G.NONASSOC[:8]
    for g in small:
        ds = with_cb(g, *se) if r.random() < 0.7 else dsl.parse(g)
        n = r.choice([3, 17, 60, 110, 118, 122, 124, 126, 130] if r.random() < 0.9 else [248, 252, 254, 256, 300])
        ds = shifted(ds, n, r.choice(['before', 'mid', 'after']))
        ts = [t for t in toks_of(ds) if t[0] != 'Z' or t == 'Z0']
        m.progs.append(dict(gs=[ds], order=False, want=None,
                            runs=[m.run(L=depth(len(ts) + 1, 40 * m.big(1, 4), 6), alpha=[ts + ['$']]),
                                  m.run(paths=[[[1, x] for x in p] for p in gen.Deriv(dsl.parse(g)).inputs(r, 8, 10, 20, 0.4)])]))
    m.shaped(25, (), ('fallback', 'wildcard', 'prec', 'error', 'class', 'compound', 'optional'), ntok=(8, 20), types=0.3, cb=0.5, budget=200, sents=8)
    m.ctxs(40, (), ('fallback', 'wildcard', 'error', 'class', 'compound', 'optional'), types=0.3, cb=0.5, mutate=0.8)
    m.real(3, types=0.2, cb=0.5, mutate=0.7)


def c09(m):
    m.curated(G.FALLBACK, budget=300, sents=8)
    for g in G.FALLBACK:
        m.add(with_cb(g, 'syntax_error', 'errtype'), budget=100, sents=4)
    m.shaped(110, ('fallback',), ('wildcard', 'prec', 'error', 'class', 'compound', 'optional'), cb=0.3, types=0.5, deft=0.1, budget=120, sents=10,
             pre=lambda r, ds: [dict(k='extratoken')] + ds if r.random() < 0.1 else ds)
    m.aheads(120, ('fallback',), ('wildcard', 'prec', 'class'))
    m.ctxs(40, ('fallback',), ('wildcard', 'prec', 'class'), mutate=0.8)
    m.real(7, ('fallback',), cb=0.3)
    for fb in ([('A', 'B')], [('A', 'B'), ('B', 'Z')], [('A', 'B', 'Z')], [('B', 'Z')], [('Z', 'A'), ('B', 'Z')]):
        m.small(250, FALL, [dict(k='fallback', id=f[0], ids=list(f[1:])) for f in fb], cb=0.2)
    m.small(200, WILD, [dict(k='fallback', id='A', ids=['B', 'Z']), WILDC])
    m.small(200, ERRS, [dict(k='fallback', id='A', ids=['B'])])


def c10(m):
    m.curated(G.WILDCARD, budget=300, sents=8)
    for g in G.WILDCARD:
        m.add(with_cb(g, 'syntax_error'), budget=100, sents=4)
    m.shaped(120, ('wildcard',), ('fallback', 'prec', 'error', 'class', 'compound', 'optional'), cb=0.3, types=0.4, budget=120, sents=10)
    m.aheads(60, ('wildcard',), ('fallback', 'class', 'error'))
    m.ctxs(50, ('wildcard',), ('fallback', 'class', 'error'), mutate=0.8)
    m.real(7, ('wildcard',), cb=0.3)
    m.small(700, WILD, [WILDC, ZTOK], cb=0.2)
    m.small(150, WILD, [WILDC, dict(k='fallback', id='A', ids=['B', 'Z'])])
    m.small(200, (('a', 'A', 'error', 'W'), 2, 3, ('W',)), [WILDC, ZTOK])


def c11(m):
    m.curated(G.OPTIONAL, budget=300, sents=8)
    for g in G.OPTIONAL:
        m.add(with_cb(g, 'syntax_error'), budget=80, sents=4)
    m.shaped(110, ('optional',), ('class', 'compound', 'prec', 'error', 'wildcard', 'fallback'), cb=0.3, deft=0.15, budget=120, sents=10,
             pre=lambda r, ds: [dict(k='extratoken')] + ds if r.random() < 0.1 else ds)
    m.aheads(140, ('optional',), ('prec', 'class', 'compound'))
    m.ctxs(50, ('optional',), ('prec', 'class', 'compound'), mutate=0.7)
    for _ in range(m.cnt(250, 1500)):
        m.status(ahead(m.r, ['optional', 'prec'], ntok=(3, 7)))
    for _ in range(m.cnt(250, 1500)):
        ds = gen.raw(m.r, m.r.randint(0, 2), m.r.randint(1, 4), 2, po=0.3, pp=m.r.choice([0, 0.3, 0.6]))
        if m.r.random() < 0.4:
            m.add(ds, budget=60, sents=4)
        else:
            m.status(ds)
    m.real(4, ('optional',), cb=0.3)
    m.small(900, OPTS)
    m.small(200, OPTS, types=0.7, cb=0.3, thorough=4000)


def c12(m):
    m.curated(G.COMPOUND, budget=300, sents=8)
    for g in G.COMPOUND:
        m.add(with_cb(g, 'syntax_error'), budget=80, sents=4)
    m.shaped(70, ('class',), ('compound', 'optional', 'prec', 'error', 'wildcard', 'fallback'), cb=0.3, deft=0.1, budget=120, sents=10)
    m.shaped(60, ('compound',), ('class', 'optional', 'prec', 'error', 'wildcard', 'fallback'), cb=0.3, deft=0.1, budget=120, sents=10)
    m.aheads(80, ('class',), ('compound', 'prec'))
    m.aheads(40, ('compound',), ('class', 'optional'))
    m.ctxs(30, ('class',), ('compound',), mutate=0.7)
    m.ctxs(30, ('compound',), ('class', 'optional'), mutate=0.7)
    m.real(5, ('compound', 'class'), cb=0.3)
    m.small(450, COMP)
    m.small(450, CLAS, [CLASS])
    m.small(150, COMP, types=0.9, cb=0.3)
    m.small(150, CLAS, [CLASS], types=0.9, cb=0.3)


def c13(m):
    r = m.r
    m.curated(G.TYPES, budget=150, sents=6)
    for g in G.TYPES + G.OPTIONAL[:8] + G.COMPOUND[:8]:
        if 'extratoken' not in g:
            m.add('%extratoken; ' + g, budget=60, sents=4)
        if 'deftype' not in g:
            m.add(r.choice(['%deftype V5; ', '%deftype (); ']) + g, budget=60, sents=4)
    for _ in range(m.cnt(130, 600)):
        F = [f for f in ('class', 'compound', 'optional', 'error', 'wildcard', 'fallback', 'prec') if r.random() < 0.2]
        ds = gen.Shaped(r, r.randint(2, 5), F, r.randint(1, 2)).grammar()
        ds = gen.typed(r, ds, p=r.choice([0.3, 0.6, 0.9]), alias=r.choice([0.3, 0.8]), deft=0.3, code=r.choice([0.5, 0.9]))
        if r.random() < 0.35:
            ds.insert(r.randint(0, len(ds)), dict(k='extratoken'))
        m.add(ds, budget=60, sents=8, mutate=0.2)
    m.real(2, types=0.8, mutate=0.2, pre=lambda r, ds: [dict(k=r.choice(['extratoken', 'deftype']), ty='V5')] + ds if r.random() < 0.5 else ds)


AB = ('A', 'B')
SMALL = (('a', 'A', 'B'), 2, 3, (), AB)             # 697
LONGER = (('a', 'A', 'B'), 3, 3, (), AB, 6)         # 4152
FOUR = (('a', 'A', 'B'), 2, 4, (), AB)              # 5484
ERRS = (('a', 'A', 'B', 'error'), 2, 3, ('error',), AB)     # 1955
ERRS4 = (('a', 'A', 'B', 'error'), 2, 4, ('error',), AB)    # 28366
WILD = (('a', 'A', 'B', 'W'), 2, 3, ('W',), AB)     # 1955
FALL = (('a', 'A', 'B'), 2, 3)                      # 1350
OPTS = (('a', 'A', 'a?', 'A?', 'B'), 2, 3, ('a?', 'A?'))    # 19952
COMP = (('a', 'A', 'B', 'A|B'), 2, 3, ('A|B',), AB)         # 1955
CLAS = (('a', 'A', 'B', 'K'), 2, 3, ('K',), AB)             # 1955
CLASS = dict(k='class', id='K', ids=['A', 'B'])
WILDC = dict(k='wildcard', id='W')
ZTOK = dict(k='type', id='Z', ty='', attr=False)


def mutate_decls(r, ds):
    """Break something, maybe."""
    ds = copy.deepcopy(ds)
    toks = toks_of(ds) or ['A']
    nts = [d['lhs'] for d in ds if d['k'] == 'rule'] or ['s']
    anyt = toks + nts + ['error', 'Kc', 'New', 'new']
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, 13)
        if k == 0 and ds:
            ds.insert(r.randint(0, len(ds)), copy.deepcopy(r.choice(ds)))
        elif k == 1 and ds:
            ds.pop(r.randrange(len(ds)))
        elif k == 2:
            ds.insert(r.randint(0, len(ds)), dict(k='fallback', id=r.choice(anyt), ids=[r.choice(anyt) for _ in range(r.randint(0, 2))]))
        elif k == 3:
            ds.insert(r.randint(0, len(ds)), dict(k='wildcard', id=r.choice(anyt)))
        elif k == 4:
            ds.insert(r.randint(0, len(ds)), dict(k='class', id=r.choice(anyt), ids=[r.choice(anyt) for _ in range(r.randint(0, 3))]))
        elif k == 5:
            ds.insert(r.randint(0, len(ds)), dict(k=r.choice(dsl.ASSOC), ids=[r.choice(anyt) for _ in range(r.randint(0, 2))]))
        elif k == 6:
            ds.insert(r.randint(0, len(ds)), dict(k='start', id=r.choice(anyt)))
        elif k == 7:
            ds.insert(r.randint(0, len(ds)), dict(k='type', id=r.choice(anyt), ty=r.choice(['', 'V1', 'V2', '()']), attr=False))
        elif k == 8:
            ds.insert(r.randint(0, len(ds)), dict(k='stack', n=r.randint(0, 5), ty=r.choice(['', 'crate::rt::MyStack'])))
        elif k == 9:
            x = r.choice(['extra', 'extratoken', 'errtype', 'token', 'parser', 'include', 'module', 'verbose', 'syntax_error', 'parse_fail', 'stack_overflow'])
            for _ in range(r.randint(1, 2)):
                ds.insert(r.randint(0, len(ds)), dict(k=x))
        elif k == 10:
            ds.insert(r.randint(0, len(ds)), dict(k='deftype', ty=r.choice(['V1', '()'])))
        else:
            rules = [d for d in ds if d['k'] == 'rule']
            if not rules:
                continue
            d = r.choice(rules)
            x = r.randint(0, 5)
            if x == 0:
                d['prec'] = r.choice(anyt)
            elif x == 1:
                d['lhs'] = r.choice(anyt)
            elif x == 2:
                d['rhs'].insert(r.randint(0, len(d['rhs'])), el(r.choice(anyt)))
            elif x == 3 and d['rhs']:
                r.choice(d['rhs'])['t'].append(r.choice(anyt))
            elif x == 4 and d['rhs']:
                d['rhs'].pop(r.randrange(len(d['rhs'])))
            elif d['rhs']:
                r.choice(d['rhs'])['o'] = True
    return dsl.renumber_alias(dsl.number(ds))


def c14(m):
    r = m.r
    for g in G.BAD:
        m.status(g)
    for li in (G.TYPES, G.FALLBACK, G.WILDCARD, G.COMPOUND, G.OPTIONAL, G.ERROR, G.PLAIN[::4]):
        for g in li:
            m.status(g)
    for _ in range(m.cnt(500, 4000)):
        F = [f for f in ('class', 'compound', 'optional', 'error', 'wildcard', 'fallback', 'prec') if r.random() < 0.3]
        ds = gen.Shaped(r, r.randint(2, 4), F, r.randint(0, 1)).grammar()
        ds = gen.typed(r, ds, p=0.3, alias=0.3)
        m.status(mutate_decls(r, ds))
    for g in G.BAD:
        if g:
            m.status(mutate_decls(r, dsl.parse(g)))
    for _ in range(m.cnt(200, 1000)):
        m.status(overlap(r))
    for _ in range(m.cnt(100, 500)):
        m.status(operators(r, dsl.ASSOC))
        m.status(ahead(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    m.small(400, FOUR, status=True, fix=lambda r, ds: mutate_decls(r, ds))
    m.small(200, OPTS, status=True, fix=lambda r, ds: mutate_decls(r, ds), thorough=2000)


def c15(m):
    r = m.r
    base = []
    for li in (G.PLAIN[::3], G.PREC[::3], G.NONASSOC[::4], G.RR[::4], G.FALLBACK, G.WILDCARD[::2], G.OPTIONAL[::4], G.COMPOUND[::4], G.ERROR[::4], G.TYPES[::3]):
        base += [dsl.parse(g) for g in li]
    for _ in range(m.cnt(60, 400)):
        F = [f for f in ('class', 'compound', 'optional', 'error', 'wildcard', 'fallback', 'prec') if r.random() < 0.3]
        ds = gen.Shaped(r, r.randint(2, 5), F, r.randint(1, 2)).grammar()
        ds = gen.callbacks(r, gen.typed(r, ds, p=0.5, deft=0.2), p=0.3)
        base.append(ds)
    for _ in range(m.cnt(40, 200)):
        base.append(ahead(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    for sc in (SMALL, FALL, OPTS, COMP, ERRS):
        for g in r.sample(S.grammars(*sc), m.big(15, 100)):
            base.append(S.decls(g, [dict(k='fallback', id='A', ids=['B'])] if sc is FALL else ()))
    for _ in range(m.big(2, 12)):
        for _, g in G.REAL:
            base.append(gen.callbacks(r, gen.typed(r, vary(r, dsl.parse(g), r.randint(0, 2)), p=0.3), p=0.3))
    for ds in base:
        if r.random() < 0.5:
            ds = noops(r, ds, r.randint(1, 4))
        toks = toks_of(ds)
        seqs = all_seqs(toks, depth(max(2, len(toks)), 40 * m.big(1, 4), 5)) + gen.Deriv(ds).inputs(r, 8, 12, 24, 0.3)
        n = r.choice([2, 2, 3])
        gs = [ds] + [permuted(r, ds) for _ in range(n - 1)]
        m.progs.append(dict(gs=gs, runs=[m.run(n=n, paths=lockstep(seqs, n))], order=True, want=None))
    # an explicit start symbol that is not the first
    for g in ('s ::= A {} t ::= B {} t ::= s2 C {} s2 ::= A {} ', 'x ::= A {} s ::= x B {} s ::= C {}'):
        ds = dsl.parse(g)
        ds = [d for d in ds if not (d['k'] == 'rule' and d['lhs'] == 's' and 't ' in g)]
        st = dict(k='start', id='t' if 't ' in g else 's')
        gs = [ds[:k] + [st] + ds[k:] for k in range(len(ds) + 1)]
        seqs = all_seqs(toks_of(ds), 4)
        m.progs.append(dict(gs=gs, runs=[m.run(n=len(gs), paths=lockstep(seqs, len(gs)))], order=True, want='ok'))


def c16(m):
    F = ((0, 0), (0, 1), (0, 2))
    for g in G.PLAIN:
        m.add(with_cb(g, 'syntax_error', 'errtype'), budget=250, sents=8, fails=F[:1] if m.tier == 'quick' else F, sent_fails=F, size=16)
    for g in G.FALLBACK[::2] + G.WILDCARD[::2] + G.NONASSOC[:8:2] + G.TYPES[::4] + G.PREC[::4]:
        m.add(with_cb(g, 'syntax_error', 'errtype', 'parse_fail'), budget=100, sents=8, fails=F[:1], sent_fails=F)
    for g in G.PLAIN[::3]:
        m.add(with_cb(g, 'parse_fail', 'errtype'), budget=60, sents=4)
        m.add(with_cb(g, 'syntax_error'), budget=60, sents=4, fails=F[:1], sent_fails=F)
    m.shaped(60, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional'), cb=0.5, always=('syntax_error', 'errtype'),
             budget=100, sents=8, size=16, fails=F[:1], sent_fails=F, mutate=0.9)
    m.ctxs(40, (), ('class', 'optional', 'fallback', 'prec'), cb=0.5, always=('syntax_error', 'errtype'), fails=F[:1], sent_fails=F, mutate=0.9)
    m.real(2, ('plain', 'nonassoc'), cb=0.5, always=('syntax_error', 'errtype'), fails=F[:1], sent_fails=F, mutate=0.9)
    m.small(400, SMALL, budget=400, always=('syntax_error', 'errtype'))
    m.small(200, LONGER, always=('syntax_error', 'errtype'), thorough=2000, fails=((0, 2),), budget=300)


def c17(m):
    F = ((0, 0), (0, 1), (0, 2), (2, 0))
    for g in G.ERROR:
        m.add(with_cb(g, 'syntax_error', 'errtype', 'parse_fail'), budget=300, sents=12, fails=F[:1], sent_fails=F, size=16)
        m.add(g, budget=80, sents=4)
        m.add(with_cb(g, 'syntax_error'), budget=80, sents=6, size=16)
    m.shaped(110, ('error',), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional'), cb=0.5, always=('syntax_error',), types=0.6,
             budget=120, sents=10, size=16, fails=F[:1], sent_fails=F[:3], mutate=0.8)
    for _ in range(m.cnt(160, 800)):
        ds = gen.raw(m.r, m.r.randint(0, 3), m.r.randint(1, 3), pe=0.25)
        m.add(gen.callbacks(m.r, ds, always=('syntax_error',), p=0.4), budget=150, sents=6, mutate=0.8)
    m.aheads(50, ('error',), ('fallback', 'class', 'prec'), cb=0.4, always=('syntax_error',), mutate=0.8)
    m.ctxs(90, ('error',), ('fallback', 'class', 'prec'), cb=0.4, always=('syntax_error',), mutate=0.9)
    m.real(8, ('error',), cb=0.5, always=('syntax_error',), fails=F[:1], sent_fails=F, mutate=0.9)
    m.small(1000, ERRS, always=('syntax_error',), budget=150)
    m.small(300, ERRS4, always=('syntax_error',), thorough=4000)


def c18(m):
    F = ((0, 0), (0, 1))
    for g in G.PLAIN + G.ERROR[::2] + G.FALLBACK[::3] + G.WILDCARD[::3] + G.TYPES[::3]:
        cbs = m.r.choice([('parse_fail', 'errtype', 'syntax_error'), ('parse_fail', 'errtype'), ('parse_fail', 'errtype', 'extra'),
                          ('errtype',), ('parse_fail',), (), ('parse_fail', 'errtype', 'syntax_error', 'extra')])
        m.add(with_cb(g, *cbs), budget=200, sents=8, mutate=0.7)
    m.shaped(90, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.6, types=0.7,
             budget=120, sents=10, mutate=0.7, sent_fails=F)
    m.ctxs(30, (), ('class', 'optional', 'fallback', 'prec', 'error'), types=0.5, cb=0.6, mutate=0.7, sent_fails=F)
    m.real(3, cb=0.6, types=0.7, mutate=0.8)
    m.small(400, SMALL, types=0.8, cb=0.6)
    m.small(200, ERRS, types=0.8, cb=0.6)


def c19(m):
    for li, b in ((G.PLAIN, 200), (G.FALLBACK, 120), (G.WILDCARD, 120), (G.NONASSOC, 100), (G.ERROR, 100), (G.COMPOUND, 80), (G.OPTIONAL[::2], 60), (G.TYPES[::2], 50), (G.PREC[::2], 60), (G.RR[::4], 60)):
        for g in li:
            m.add(with_cb(g, 'syntax_error'), budget=b, sents=5, mutate=0.9)
    m.shaped(80, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.3, always=('syntax_error',), types=0.5, deft=0.1,
             budget=100, sents=8, mutate=0.9, pre=lambda r, ds: [dict(k='extratoken')] + ds if r.random() < 0.15 else ds)
    for _ in range(m.cnt(20, 100)):
        m.add(with_cb(operators(m.r, dsl.ASSOC), 'syntax_error'), budget=60, sents=5, mutate=0.9)
    m.aheads(40, (), ('fallback', 'wildcard', 'prec', 'class', 'optional', 'error'), cb=0.2, always=('syntax_error',), mutate=0.9)
    m.ctxs(30, (), ('fallback', 'wildcard', 'prec', 'class', 'optional', 'error'), cb=0.2, always=('syntax_error',), mutate=0.9)
    m.real(3, cb=0.3, always=('syntax_error',), mutate=0.9)
    se = ('syntax_error',)
    m.small(250, SMALL, always=se)
    m.small(150, FOUR, always=se, thorough=2000)
    for sc, pre in ((ERRS, ()), (WILD, (WILDC, ZTOK)), (COMP, ()), (FALL, (dict(k='fallback', id='A', ids=['B', 'Z']),))):
        m.small(120, sc, pre, always=se)


def c20(m):
    F = ((1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (5, 0))
    FE = ((0, 2), (0, 3), (0, 1), (2, 0))
    m.shaped(20, ('error',), ('class', 'compound', 'optional'), cb=0.5, always=('errtype', 'syntax_error'), types=0.5,
             budget=40, sents=8, fails=FE[:1], sent_fails=FE, post=True, mutate=0.9, size=16)
    m.ctxs(20, ('error',), ('class', 'optional'), types=0.3, cb=0.5, always=('errtype', 'syntax_error'), fails=FE[:1], sent_fails=FE, post=True, mutate=0.9, size=16)
    for g in G.ERROR:
        m.add(with_cb(g, 'errtype', 'syntax_error', *m.r.choice([(), ('extra',), ('parse_fail',)])), budget=60, sents=8, fails=FE[:1], sent_fails=FE, post=True, mutate=0.9, size=16)
    for g in G.PLAIN[::2] + G.ERROR[::3] + G.PREC[::5] + G.TYPES[::5] + G.FALLBACK[::8]:
        cbs = m.r.choice([('errtype',), ('errtype', 'extra'), ('errtype', 'syntax_error', 'parse_fail', 'extra'), ('syntax_error', 'extra'), ('errtype', 'parse_fail'),
                          ('errtype', 'syntax_error', 'stack_overflow')])
        m.add(with_cb(g, *cbs), budget=60, sents=5, fails=F[:4], sent_fails=F, post=True, ops='+-' if 'extra' in cbs else '-')
    m.shaped(50, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.5, always=('errtype',), types=0.5,
             budget=40, sents=5, fails=F[:3], sent_fails=F, post=True, ops='-', mutate=0.6,
             pre=lambda r, ds: [dict(k='stack', n=r.randint(2, 8), ty='')] + ds if r.random() < 0.3 else ds)
    m.real(2, cb=0.5, always=('errtype', 'syntax_error'), fails=F[:3], sent_fails=F[1:], post=True, mutate=0.8)
    m.small(150, SMALL, always=('errtype', 'syntax_error'), fails=((0, 1), (1, 0), (2, 0)), post=True)
    m.small(150, ERRS, always=('errtype', 'syntax_error'), fails=((0, 2), (2, 0)), post=True)


def c21(m):
    r = m.r
    nested = ['s ::= p {} p ::= L p R {} p ::= A {}', 's ::= l {} l ::= A l {} l ::= {}', 's ::= l {} l ::= l A {} l ::= {}',
              's ::= a b {} a ::= {} b ::= {} b ::= B b {} a ::= A {}', '%type A V1; %type p V2; s ::= p(x) {} p ::= A(a) p(b) R {} p ::= A(c) B {}',
              's ::= A B C D {}', 's ::= L x {} x ::= L x {} x ::= A {} x ::= error {}', '%right P; s ::= e {} e ::= e P e {} e ::= N {}',
              's ::= o p q {} o ::= {} p ::= {} q ::= Q {}', 's ::= l {} l ::= {} l ::= l L e R {} e ::= {} e ::= L e R {} e ::= error {}',
              '%type error V9; s ::= A x {} x ::= B x C {} x ::= error(e) {} x ::= D {}']
    for g in nested:
        for n in (range(0, 9) if m.tier != 'quick' else [0, 1, 2, 3, 4, 5, 7]):
            for st in ('', 'crate::rt::MyStack'):
                if st and r.random() < 0.5:
                    continue
                cbs = r.choice([('stack_overflow', 'errtype'), ('stack_overflow', 'errtype', 'extra'), ('stack_overflow',), ('errtype',), (), ('stack_overflow', 'errtype', 'syntax_error', 'parse_fail')])
                ds = [d for d in with_cb(g, *cbs)]
                ds.insert(r.randint(0, len(ds)), dict(k='stack', n=n, ty=st))
                m.add(ds, budget=60, sents=5, size=10, post=True, cap=8)
    # the default limit of 100, and no limit at all
    for g, open_, mid, close in ((nested[0], 'L', ['A'], 'R'), (nested[1], 'A', [], None), ('s ::= e {} e ::= B e E {} e ::= A {}', 'B', ['A'], 'E'), (nested[7], None, None, None)):
        seqs = []
        for k in ([96, 97, 98, 99, 100, 101] if open_ else [48, 49, 50, 51]):
            if open_:
                seqs.append([open_] * k + mid + ([close] * k if close else []) + ['$'])
            else:
                seqs.append(['N'] + ['P', 'N'] * k + ['$'])
        for pre in ([], [dict(k='stack', n=0, ty='')], [dict(k='stack', n=100, ty='crate::rt::MyStack')], [dict(k='stack', n=99, ty='')]):
            ds = pre + with_cb(g, 'stack_overflow', 'errtype')
            m.add(ds, budget=0, sents=0, extra_paths=[r.sample(seqs, min(len(seqs), m.big(3, 6)))])
    # limits, and stacks, of more than a byte
    for n in (127, 128, 255, 256, 257):
        g, mid, close = r.choice([(nested[0], ['A'], 'R'), (nested[1], [], None)])
        for ty in ('', 'crate::rt::MyStack'):
            o = 'L' if close else 'A'
            seqs = [[o] * k + mid + ([close] * k if close else []) + ['$'] for k in (n - 2, n - 1, n, n + 1)]
            m.add([dict(k='stack', n=n, ty=ty)] + with_cb(g, 'stack_overflow', 'errtype'), budget=0, sents=0, extra_paths=[r.sample(seqs, m.big(2, 4))])
    for n in (256, 261, 32768, 65536, 65541, 16777219, 2147483647):
        for g, o, mid, close in ((nested[0], 'L', ['A'], 'R'), (nested[1], 'A', [], None)):
            seqs = [[o] * k + mid + ([close] * k if close else []) + ['$'] for k in (1, 12, 110)]
            m.add([dict(k='stack', n=n, ty=r.choice(['', 'crate::rt::MyStack']))] + with_cb(g, 'stack_overflow', 'errtype'), budget=0, sents=0, extra_paths=[seqs])
    m.shaped(40, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.5, always=('stack_overflow',), types=0.5,
             budget=80, sents=10, size=16, pre=lambda r, ds: [dict(k='stack', n=r.randint(2, 9), ty=r.choice(['', 'crate::rt::MyStack']))] + ds)

    def small(r, ds):
        return ds[:1] + [dict(k='stack', n=r.randint(1, 6), ty=r.choice(['', '', 'crate::rt::MyStack']))] + ds[1:]
    m.shaped(30, ('error',), ('class', 'compound', 'optional'), cb=0.5, always=('stack_overflow', 'errtype', 'syntax_error'), types=0.5,
             budget=80, sents=10, size=10, mutate=0.9, pre=small)
    m.ctxs(30, ('error',), ('class',), cb=0.5, always=('stack_overflow', 'errtype', 'syntax_error'), mutate=0.9, pre=small)
    for g in G.ERROR:
        m.add(small(r, with_cb(g, 'stack_overflow', 'errtype', 'syntax_error')), budget=80, sents=6, size=10, mutate=0.8)
    m.real(3, cb=0.5, always=('stack_overflow', 'errtype'), pre=lambda r, ds: [dict(k='stack', n=r.randint(5, 18), ty=r.choice(['', 'crate::rt::MyStack']))] + ds)
    def lim(r, ds):
        return [dict(k='stack', n=r.randint(1, 4), ty=r.choice(['', '', 'crate::rt::MyStack']))] + with_cb(ds, 'stack_overflow', 'errtype')
    m.small(400, SMALL, fix=lim)
    m.small(200, ERRS, fix=lim)
    m.small(150, FOUR, fix=lim, thorough=2000)


def c22(m):
    r = m.r
    F = ((0, 0), (2, 0), (0, 1))
    for g in G.PLAIN[::2] + G.ERROR[::3] + G.PREC[::6] + G.TYPES[::3] + G.FALLBACK[::5] + G.WILDCARD[::5] + G.OPTIONAL[::5] + G.COMPOUND[::5]:
        cbs = ('extra',) + r.choice([(), ('errtype',), ('syntax_error', 'parse_fail', 'stack_overflow'), ('errtype', 'syntax_error', 'parse_fail', 'stack_overflow')])
        if r.random() < 0.4:
            cbs += ('extratoken',)
        m.add(with_cb(g, *cbs), budget=80, sents=6, fails=F[:1], sent_fails=F, post=True, ops='+-')
    m.shaped(70, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.5, always=('extra',), types=0.5, deft=0.1,
             budget=50, sents=6, fails=F[:1], sent_fails=F, post=True, ops='+-',
             pre=lambda r, ds: [dict(k='extratoken')] + ds if r.random() < 0.5 else ([dict(k='stack', n=r.randint(3, 9), ty='')] + ds if r.random() < 0.4 else ds))
    for g in G.TYPES:
        m.add(with_cb(g, 'extratoken'), budget=30, sents=4)
    m.real(2, cb=0.5, always=('extra',), types=0.5, fails=F[:1], sent_fails=F, post=True, ops='+-')


def c23(m):
    r = m.r
    pool = [dsl.parse(g) for g in G.PLAIN[::3] + G.ERROR[::3] + G.PREC[::5] + G.FALLBACK[::6] + G.WILDCARD[::6] + G.NONASSOC[::8] + G.TYPES[::8]]
    for _ in range(m.cnt(40, 200)):
        Fs = [f for f in ('class', 'compound', 'optional', 'error', 'wildcard', 'fallback', 'prec') if r.random() < 0.2]
        pool.append(gen.typed(r, gen.Shaped(r, r.randint(2, 4), Fs, r.randint(1, 2)).grammar()))
    for _ in range(m.cnt(15, 60)):
        pool.append(contexts(r, [f for f in ('error', 'class', 'optional') if r.random() < 0.3]))
    for _, g in G.REAL:
        pool.append(gen.typed(r, vary(r, dsl.parse(g), r.randint(0, 2)), p=0.4))
    for a in pool:
        a = gen.callbacks(r, a, p=0.5)
        if r.random() < 0.3 and 'stack' not in dsl.kinds(a):
            a = [dict(k='stack', n=r.randint(3, 8), ty='')] + a
        gs = [a, a]
        if r.random() < 0.4:
            gs[1] = gen.callbacks(r, r.choice(pool), p=0.5)
        if r.random() < 0.25:
            gs.append(r.choice(gs))
        n = len(gs)
        runs = []
        alpha = []
        for g in gs:
            ts = toks_of(g)
            alpha.append(r.sample(ts, min(2, len(ts))) + ['$'])
        k = sum(len(x) for x in alpha)
        runs.append(m.run(0, 0, L=depth(k, 120 * m.big(1, 5), 5), alpha=alpha, post=True))
        for fa, sa in ((0, 0), (2, 0), (0, 1)):
            ps = []
            for _ in range(m.cnt(6, 20)):
                seqs = [gen.Deriv(g).inputs(r, 1, 10, 14, 0.4)[0] for g in gs]
                order = [i for i, s in enumerate(seqs) for _ in s]
                r.shuffle(order)
                it = [iter(s) for s in seqs]
                ps.append([[i + 1, next(it[i])] for i in order])
            runs.append(m.run(fa, sa, paths=ps, post=True, n=n))
        m.progs.append(dict(gs=gs, runs=runs, order=False, want=None))


def c24(m):
    r = m.r
    F = ((0, 0), (1, 0), (2, 0), (3, 0), (0, 1))
    for g in G.PLAIN[::2] + G.ERROR + G.PREC[::6] + G.TYPES + G.FALLBACK[::3] + G.WILDCARD[::3] + G.OPTIONAL[::2] + G.COMPOUND[::2]:
        ds = dsl.parse(g)
        if 'type' not in dsl.kinds(ds):
            ds = gen.typed(r, ds, p=0.8)
        ds = gen.callbacks(r, ds, p=0.6)
        if r.random() < 0.2 and 'stack' not in dsl.kinds(ds):
            ds = [dict(k='stack', n=r.randint(2, 7), ty=r.choice(['', 'crate::rt::MyStack']))] + ds
        m.add(ds, budget=60, sents=6, fails=F[:1], sent_fails=F, post=True, ops='-')
    m.shaped(70, (), ('fallback', 'wildcard', 'prec', 'class', 'compound', 'optional', 'error'), cb=0.6, types=0.9, deft=0.1,
             budget=50, sents=6, fails=F[:1], sent_fails=F, post=True, ops='-', mutate=0.6,
             pre=lambda r, ds: [dict(k='stack', n=r.randint(3, 9), ty=r.choice(['', 'crate::rt::MyStack']))] + ds if r.random() < 0.3 else ds)
    m.real(3, cb=0.6, types=0.9, fails=F[:1], sent_fails=F, post=True, ops='-', mutate=0.6)
    m.small(250, SMALL, types=0.9, cb=0.6, fails=((0, 0), (1, 0)), post=True, ops='-', budget=60)
    m.small(150, ERRS, types=0.9, cb=0.6, fails=((0, 0), (0, 1)), post=True, ops='-', budget=60)


def c25(m):
    r = m.r

    def add(ds):
        if isinstance(ds, str):
            ds = dsl.parse(ds)
        if 'verbose' not in dsl.kinds(ds) and r.random() < 0.75:
            ds.insert(r.randint(0, len(ds)), dict(k='verbose'))
        m.progs.append(dict(gs=[ds], runs=[], order=False, dump=True, want=None))
    for li in (G.PLAIN, G.DOUBTFUL, G.PREC, G.NONASSOC, G.RR, G.FALLBACK[::3], G.WILDCARD[::3], G.OPTIONAL[::2], G.COMPOUND, G.ERROR[::2]):
        for g in li:
            add(g)
    for _ in range(m.cnt(90, 800)):
        add(gen.raw(r, r.randint(0, 4), r.randint(1, 4)))
    for _ in range(m.cnt(60, 500)):
        F = [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'wildcard', 'class') if r.random() < 0.3]
        add(gen.typed(r, gen.Shaped(r, r.randint(2, 6), F, r.randint(1, 3)).grammar(), p=0.4))
    for _ in range(m.cnt(50, 400)):
        add(operators(r, dsl.ASSOC))
        add(overlap(r))
    for _ in range(m.cnt(40, 300)):
        add(contexts(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    for _ in range(m.cnt(70, 500)):
        add(ahead(r, [f for f in ('compound', 'optional', 'prec', 'error', 'fallback', 'class') if r.random() < 0.2]))
    for _ in range(m.big(4, 40)):
        for _, g in G.REAL:
            add(vary(r, dsl.parse(g), r.randint(0, 3)))
    for sc, pre in ((SMALL, ()), (FOUR, ()), (ERRS, ()), (WILD, (WILDC,)), (COMP, ()), (OPTS, ())):
        li = S.grammars(*sc)
        for g in r.sample(li, m.big(50, 600)):
            add(S.decls(g, pre))


CORPUS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}


def corpus(pid, seed, tier):
    m = Maker(random.Random('%s-%d' % (pid, seed)), tier)
    CORPUS[pid](m)
    return m.progs
