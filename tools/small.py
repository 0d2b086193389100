"""Small scopes: every grammar with few and short rules over few symbols, up to names."""
import functools
import itertools

import dsl
from dsl import el, mkrule


@functools.lru_cache(maxsize=None)
def grammars(alpha, maxlen, maxrules, need=(), swap=(), length=0):
    """Every set of at most maxrules rules of s and a with right sides over alpha (with at most length symbols in all, if
    given), such that a is used and defined, or neither, and some of need is used.  A symbol X? is optional and X|Y
    compound.  The symbols of swap are interchangeable: one representative is kept."""
    rhs = [p for n in range(maxlen + 1) for p in itertools.product(alpha, repeat=n)]
    rs = [(l, p) for l in 'sa' for p in rhs]
    key = {x: i for i, x in enumerate(rs)}
    out = []
    perms = [dict(zip(swap, q)) for q in itertools.permutations(swap)][1:]
    for n in range(1, maxrules + 1):
        for g in itertools.combinations(rs, n):
            if g[0][0] != 's' or length and sum(len(p) for _, p in g) > length:
                continue
            us = any(x[0] == 'a' for l, p in g if l == 's' for x in p)
            if us != (g[-1][0] == 'a'):
                continue
            if need and not any(x in need for _, p in g for x in p):
                continue
            k = [key[x] for x in g]
            if any(sorted(key[(l, tuple(m.get(x, x) for x in p))] for l, p in g) < k for m in perms):
                continue
            out.append(g)
    return out


def decls(g, pre=()):
    ds = []
    for l, p in g:
        ds.append(mkrule(l, [el(x.rstrip('?').split('|'), x.endswith('?')) for x in p], True))
    return dsl.number([dict(d) for d in pre] + ds)


@functools.lru_cache(maxsize=None)
def precedences():
    """e ::= e A e, e ::= e B e, e ::= U e (or e U), with every assignment of levels and of marks"""
    out = []
    lv = [None] + [(n, k) for n in (1, 2, 3) for k in dsl.ASSOC]
    for a in lv:
        for b in lv:
            for u in lv:
                ls = {}
                ok = True
                for t, x in (('A', a), ('B', b), ('U', u)):
                    if x:
                        ls.setdefault(x[0], []).append((t, x[1]))
                if sorted(ls) != list(range(1, len(ls) + 1)) or any(len({k for _, k in v}) > 1 for v in ls.values()):
                    ok = False
                if not ok:
                    continue
                lvs = tuple((ls[n][0][1], tuple(t for t, _ in ls[n])) for n in sorted(ls))
                for marks in itertools.product(('', 'A', 'B', 'U'), repeat=3):
                    for post in (False, True):
                        out.append((lvs, marks, post))
    return out


def prec_decls(x):
    lvs, marks, post = x
    ds = [dict(k=k, ids=list(ts)) for k, ts in lvs]
    un = [el('e'), el('U')] if post else [el('U'), el('e')]
    for m, rhs in zip(marks, ([el('e'), el('A'), el('e')], [el('e'), el('B'), el('e')], un)):
        ds.append(mkrule('e', rhs, True, m))
    ds.append(mkrule('e', [el('N')]))
    return dsl.number([mkrule('s', [el('e')])] + ds)
