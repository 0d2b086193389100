"""Grammars: a small text notation, and its translation to the declarations read by the
specification (JSON) and to the input of the pomelo! macro."""
import hashlib
import random
import re

ASSOC = ('left', 'right', 'nonassoc')
BLOCKS = ('syntax_error', 'parse_fail', 'stack_overflow')


def parse(txt):
    """Notation: as pomelo, but a rule with code ends in {} and directives are short:
    %type S T; %deftype T; %start s; %class C A B; %stack N [ty]; %extra; %extratoken; %errtype;
    %se; %pf; %so; %token; %parser; %include; %module; %verbose; %left ...; %fallback F A B; %wildcard W"""
    ds = []
    txt = re.sub(r'//.*', '', txt)
    for st in re.findall(r'[^;{}]+(?:;|\{\})', txt):
        code = st.endswith('{}')
        st = st[:-2] if code else st[:-1]
        st = st.strip()
        if not st:
            continue
        if st[0] == '%':
            w = st[1:].split()
            k = w[0]
            k = {'se': 'syntax_error', 'pf': 'parse_fail', 'so': 'stack_overflow'}.get(k, k)
            if k in ASSOC:
                ds.append(dict(k=k, ids=w[1:]))
            elif k == 'type':
                attr = w[1].startswith('#')
                if attr:
                    w = w[:1] + w[2:]
                ds.append(dict(k=k, id=w[1], ty=w[2] if len(w) > 2 else '', attr=attr))
            elif k in ('fallback', 'class'):
                ds.append(dict(k=k, id=w[1], ids=w[2:]))
            elif k in ('wildcard', 'start'):
                ds.append(dict(k=k, id=w[1]))
            elif k == 'deftype':
                ds.append(dict(k=k, ty=w[1]))
            elif k == 'stack':
                ds.append(dict(k=k, n=int(w[1]), ty=w[2] if len(w) > 2 else ''))
            elif k in BLOCKS + ('extra', 'extratoken', 'errtype', 'token', 'parser', 'include', 'module', 'verbose'):
                ds.append(dict(k=k))
            else:
                raise ValueError(st)
        else:
            ds.append(rule(st, code))
    return number(ds)


def rule(st, code):
    lhs, rhs = st.split('::=')
    prec = ''
    m = re.search(r'\[(\w+)\]', rhs)
    if m:
        prec = m.group(1)
        rhs = rhs.replace(m.group(0), '')
    els = []
    for e in rhs.split():
        a = ''
        if e.endswith(')'):
            e, a = e[:-1].split('(')
        o = e.endswith('?')
        els.append(el(e.rstrip('?').split('|'), o, a))
    return mkrule(lhs.strip(), els, code, prec)


def el(t, o=False, a=''):
    return dict(t=[t] if isinstance(t, str) else list(t), o=o, a=a)


def mkrule(lhs, els, code=True, prec=''):
    return dict(k='rule', lhs=lhs, rhs=els, code=code, prec=prec, tag=0)


def number(ds):
    n = 0
    for d in ds:
        if d['k'] == 'rule':
            n += 1
            d['tag'] = n
    return ds


def renumber_alias(ds):
    """Give distinct names to the aliases of each rule."""
    for d in ds:
        if d['k'] == 'rule':
            for i, e in enumerate(d['rhs']):
                if e['a']:
                    e['a'] = 'x%d' % i
    return ds


def text(ds):
    """The grammar in the notation accepted by parse()."""
    out = []
    for d in ds:
        k = d['k']
        if k == 'rule':
            rhs = ' '.join('|'.join(e['t']) + ('?' if e['o'] else '') + ('(%s)' % e['a'] if e['a'] else '')
                           for e in d['rhs'])
            out.append('%s ::= %s%s%s' % (d['lhs'], rhs, ' [%s]' % d['prec'] if d['prec'] else '',
                                          ' {}' if d['code'] else ';'))
        else:
            w = [{'syntax_error': 'se', 'parse_fail': 'pf', 'stack_overflow': 'so'}.get(k, k)]
            if d.get('attr'):
                w.append('#')
            if 'id' in d:
                w.append(d['id'])
            w += d.get('ids', [])
            if 'n' in d:
                w.append(str(d['n']))
            if d.get('ty'):
                w.append(d['ty'])
            out.append('%' + ' '.join(w) + ';')
    return ' '.join(out)


def kinds(ds):
    return {d['k'] for d in ds}


def names(ds):
    """Every name mentioned, in order of first mention."""
    seen = []

    def add(n):
        if n and n not in seen:
            seen.append(n)
    for d in ds:
        k = d['k']
        if k == 'rule':
            add(d['lhs'])
            for e in d['rhs']:
                for t in e['t']:
                    add(t)
            add(d['prec'])
        elif k == 'fallback':
            for i in d['ids']:
                add(i)
            add(d['id'])
        else:
            if 'id' in d:
                add(d['id'])
            for i in d.get('ids', []):
                add(i)
    return seen


SHAPES = ('Box<%s>', '[%s; 1]', '(%s, crate::rt::Nil)', 'Vec<%s>')


def shapes(ds):
    """The syntax of the Rust types that stand for those of the grammar must not matter: most of them
    are paths, but not in every grammar."""
    r = random.Random(hashlib.md5(text(ds).encode()).hexdigest())
    sh = {}
    if r.random() < 0.35:
        sh['Loc'] = r.choice(SHAPES[:3])
    if r.random() < 0.3:
        for k in range(1, 10):
            if r.random() < 0.5:
                sh['V%d' % k] = r.choice(SHAPES)
    return sh


def rty(ty, sh):
    """Rust type of a model type."""
    if ty == '':
        return '()'
    if ty.startswith('Option<'):
        return 'Option<%s>' % rty(ty[7:-1], sh)
    if ty == 'Loc':
        return sh.get(ty, '%s') % 'crate::rt::Loc'
    if ty.startswith('(Loc,'):
        return '(%s, %s)' % (rty('Loc', sh), rty(ty[5:-1], sh))
    if ty == '()':
        return '()'
    if ty[0] == 'V':
        return sh.get(ty, '%s') % ('crate::rt::V<%s>' % ty[1:])
    raise ValueError(ty)


def macro(ds, info=None, opts=None):
    """Input of the pomelo! macro. info is what the specification says of the grammar (names and
    types); without it (the grammar is to be rejected) user code is left untyped."""
    opts = opts or {}
    ks = kinds(ds)
    sh = shapes(ds)
    ex = 'Some(&mut extra.n)' if 'extra' in ks else 'None'
    er = '.map_err(crate::rt::Er)' if 'errtype' in ks else '.map_err(|_| ())'
    er1 = 'crate::rt::Er(%s)' if 'errtype' in ks else '{ %s; }'
    ty = dict(zip(info['name'], info['ty'])) if info else None
    if info and info['wild']:
        ty[info['name'][info['wild']]] = ''
    out = []
    if opts.get('tk'):
        out.append('%include { use super::tk; }')
    for d in ds:
        s = macro1(d, info, ty, sh, ex, er, er1, len(out))
        out.append(styled(d, s, sh, opts.get('frags')) if 'toks' in d else s)
    return '\n        '.join(out)


def macro1(d, info, ty, sh, ex, er, er1, nth):
    """A declaration"""
    k = d['k']
    if k == 'rule':
        rhs = ' '.join('|'.join(e['t']) + ('?' if e['o'] else '') + ('(%s)' % e['a'] if e['a'] else '')
                       for e in d['rhs'])
        s = '%s ::= %s' % (d['lhs'], rhs)
        if d['prec']:
            s += ' [%s]' % d['prec']
        if d['code']:
            if info:
                args = []
                for e in d['rhs']:
                    if e['a']:
                        t = ty[e['t'][0]]
                        t = 'Option<%s>' % t if e['o'] else t
                        args.append('&%s as &%s as &dyn crate::rt::Enc' % (e['a'], rty(t, sh)))
                s += ' { crate::rt::act::<%s>(%d, &[%s], %s)%s? }' % (
                    rty(ty[d['lhs']], sh), d['tag'], ', '.join(args), ex, er)
            else:
                s += ' { crate::rt::act(%d, &[], %s)%s? }' % (d['tag'], ex, er)
        else:
            s += ';'
    elif k in ASSOC:
        s = '%%%s %s;' % (k, ' '.join(d['ids']))
    elif k == 'type':
        s = '%%type %s%s %s;' % ('#[allow(unused)] ' if d['attr'] else '', d['id'], rty(d['ty'], sh) if d['ty'] else '')
    elif k == 'deftype':
        s = '%%default_type %s;' % rty(d['ty'], sh)
    elif k == 'start':
        s = '%%start_symbol %s;' % d['id']
    elif k == 'wildcard':
        s = '%%wildcard %s;' % d['id']
    elif k == 'fallback':
        s = '%%fallback %s %s;' % (d['id'], ' '.join(d['ids']))
    elif k == 'class':
        s = '%%token_class %s %s;' % (d['id'], ' '.join(d['ids']))
    elif k == 'stack':
        s = '%%stack_size %d %s;' % (d['n'], d['ty'])
    elif k == 'extra':
        s = '%extra_argument crate::rt::Ex;'
    elif k == 'extratoken':
        s = '%%extra_token %s;' % rty('Loc', sh)
    elif k == 'errtype':
        s = '%error crate::rt::Er;'
    elif k == 'syntax_error':
        ety = rty(ty.get('error', ''), sh) if info else '_'
        s = ('%%syntax_error { crate::rt::se::<%s>(token.as_ref().map(tk), expected.map(|e| (e.name, match &e.token '
             '{ None => 0, Some(t) => if tk(t).0 == e.name { 1 } else { 2 } })).collect(), %s)%s }' % (ety, ex, er))
    elif k == 'parse_fail':
        s = '%%parse_fail { %s }' % (er1 % ('crate::rt::pf(%s)' % ex))
    elif k == 'stack_overflow':
        s = '%%stack_overflow { %s }' % (er1 % ('crate::rt::so(token.as_ref().map(tk), %s)' % ex))
    elif k == 'token':
        s = '%token pub enum Token {};'
    elif k == 'parser':
        s = '%parser pub struct Parser {};'
    elif k == 'include':
        s = '%%include { pub struct Foo%d; }' % nth
    elif k == 'module':
        s = '%module parser;'
    elif k == 'verbose':
        s = '%verbose;'
    else:
        raise ValueError(k)
    return s


RAW = {'enum': 'pub enum Token {}', 'struct': 'pub struct Parser {}', '#[]': '#[allow(unused)]', '_N1': '\u00d1', '_N2': '\u00f1',
       '{}': '{ }'}
RAW.update(('T%d' % k, 'crate::rt::V<%d>' % k) for k in range(1, 10))
GAPS = [' ', ' ', ' ', '\n      ', '  ', ' /* ; */ ', ' // % A ::= {\n    ']


def styled(d, canon, sh, frags=None):
    """A declaration as it was written: the tokens d['toks'], with the user code of the canonical form.
    With frags, some of its parts are arguments of a macro_rules! instead."""
    r = random.Random(hashlib.md5(repr(d['toks']).encode()).hexdigest())
    k, out = d['k'], []
    names = [e['a'] for e in d.get('rhs', ()) if e['a']]

    def frag(kind, text, p):
        if frags is None or r.random() >= p:
            return text
        frags.append((kind, text))
        return '$f%d' % len(frags)

    for n, t in enumerate(d['toks']):
        if t == '{}':
            # (the names bound by the patterns are seen in a block of the same origin only)
            out.append(frag('block', canon[canon.index('{'):], 1) if k != 'include' else canon[canon.index('{'):])
        elif t[0] == '(' and k == 'rule':
            out.append('(%s)' % frag('pat', t.replace('x', names.pop(0))[1:-1], 1))
        elif t[0] == '[' and k == 'rule':
            out.append('[%s]' % frag('ident', t[1:-1], 0.5))
        elif re.fullmatch(r'T\d', t) and k in ('type', 'deftype', 'extra', 'errtype', 'extratoken', 'stack'):
            ty = {'extra': 'crate::rt::Ex', 'errtype': 'crate::rt::Er', 'extratoken': rty('Loc', sh), 'stack': d.get('ty')}.get(k) or rty(d['ty'], sh)
            # (for pomelo a type that is an argument and the same one written there are different: always the same)
            out.append(frag('ty', ty, 1))
        elif t in ('enum', 'struct'):
            out.append(frag('item', RAW[t], 0.5))
        elif k == 'stack' and n == 2:
            out.append(frag('literal', t, 0.5))
        elif re.fullmatch(r'(r#)?\w+', t) and (k == 'rule' or n > 1):
            out.append(frag(r.choice(['ident', 'tt']), t, 0.3))
        else:
            out.append(RAW.get(t, t))
    gaps = GAPS if frags is None else GAPS[:6]
    return ''.join(w + r.choice(gaps) for w in out)


def raw_module(name, toks):
    """Tokens as such, each one in a line"""
    return 'pub mod %s {\n    pomelo::pomelo! {\n%s\n    }\n}' % (name, '\n'.join('        ' + RAW.get(t, t) for t in toks))


def module(name, ds, info):
    """A Rust module with the parser of an accepted grammar and its driver."""
    ks = kinds(ds)
    sh = shapes(ds)
    nt = info['nt']
    toks = list(zip(info['name'][:nt], info['ty'][:nt]))[1:]
    if info['wild']:
        toks = [(n, '' if n == info['name'][info['wild']] else t) for n, t in toks]
    extok = 'extratoken' in ks
    o = []
    o.append('pub mod %s {' % name)
    styles = [d['toks'] for d in ds if 'toks' in d]
    if styles and hashlib.md5(repr(styles).encode()).digest()[0] % 3 == 0:
        frags = []
        body = macro(ds, info, dict(tk=True, frags=frags))
        o.append('    macro_rules! with { (%s) => { pomelo::pomelo! {\n        %s\n    } } }' %
                 (', '.join('$f%d:%s' % (i + 1, k) for i, (k, _) in enumerate(frags)), body))
        o.append('    with!(%s);' % ', '.join(t for _, t in frags))
    else:
        o.append('    pomelo::pomelo! {\n        %s\n    }' % macro(ds, info, dict(tk=True)))
    mod = [d['toks'][2] for d in ds if d['k'] == 'module' and 'toks' in d]
    o.append('    use %s::{Parser, Token};' % (mod[-1] if mod else 'parser'))
    o.append('    use crate::rt::{self, Enc, Code, Lo};')
    arms = ['Token::%s%s => ("%s", rt::enc(%s)),' % (n, '(v)' if t else '', n, 'v' if t else '&()') for n, t in toks]
    o.append('    pub fn tk(t: &Token) -> (&\'static str, Vec<i64>) { match t { %s _ => ("?", vec![]) } }' % ' '.join(arms))
    o.append('    pub struct D(Option<Parser>);')
    o.append('    pub fn new(ex: i64) -> Box<dyn rt::Px> { Box::new(D(Some(%s))) }' %
             ('Parser::new(rt::Ex { n: ex })' if 'extra' in ks else 'Parser::new()'))
    arms = ['%d => Token::%s%s,' % (k + 1, n, '(rt::mk::<%s>(id))' % rty(t, sh) if t else '') for k, (n, t) in enumerate(toks)]
    o.append('    fn mk(k: i64, id: i64) -> Token { match k { %s _ => panic!("no such token") } }' % ' '.join(arms))
    o.append('    impl rt::Px for D {')
    o.append('        fn feed(&mut self, k: i64, id: i64) -> Result<(), i64> {')
    o.append('            let %st = mk(k, id);' % ('mut ' if extok else ''))
    if extok:
        o.append('            rt::tokextra(t.extra().at().0); t.extra_mut().at_mut().0 += 50000;')
        o.append('            let u = mk(k, 90000); if u.into_extra().at().0 != 190000 { rt::bad("into_extra"); }')
    o.append('            self.0.as_mut().unwrap().parse(t).map_err(|e| e.code())')
    o.append('        }')
    o.append('        fn eoi(&mut self) -> Result<(Vec<i64>, i64), i64> {')
    root = rty(info['ty'][info['start']], sh)
    if 'extra' in ks:
        o.append('            let r: Result<(%s, rt::Ex), _> = self.0.take().unwrap().end_of_input();' % root)
        o.append('            r.map(|(r, x)| (rt::enc(&r), x.n)).map_err(|e| e.code())')
    else:
        o.append('            let r: Result<%s, _> = self.0.take().unwrap().end_of_input();' % root)
        o.append('            r.map(|r| (rt::enc(&r), 0)).map_err(|e| e.code())')
    o.append('        }')
    if 'extra' in ks:
        o.append('        fn bump(&mut self) -> i64 { let p = self.0.as_mut().unwrap(); let x = p.extra().n; p.extra_mut().n += 10; x }')
        o.append('        fn end(&mut self) -> i64 { self.0.take().unwrap().into_extra().n }')
    else:
        o.append('        fn bump(&mut self) -> i64 { 0 }')
        o.append('        fn end(&mut self) -> i64 { self.0 = None; 0 }')
    o.append('    }')
    o.append('}')
    return '\n'.join(o)


def reject_module(name, ds):
    return 'pub mod %s {\n    use crate::tk;\n    pomelo::pomelo! {\n        %s\n    }\n}' % (name, macro(ds))
