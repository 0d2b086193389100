"""C26: the Rust surface of pomelo!. TLC enumerates the cases of spec/PomeloSurface.tla and the outcome of
each one; here each case becomes a Rust module whose expansion is inspected (by the attribute vp_probe::show)
and run, and the outcomes are compared."""
import concurrent.futures as cf
import json
import os
import random
import re

import pom

KEYW = {'pub', 'struct', 'enum', 'const', 'where'}
HEAD = ('#![allow(warnings)]\n%s#[path = "%s/harness/surf.rs"]\npub mod h;\n')


def explore(work, timeout=600):
    """(cases with their outcome, hygiene cases with theirs, states, transitions, depth)"""
    sp = os.path.join(pom.VERIF, 'spec')
    rc, o, e = pom.tlc(os.path.join(sp, 'PomeloSurface.tla'), os.path.join(sp, 'PomeloSurface.cfg'), {}, work, timeout)
    o = o.decode()
    cases, hyg, loc, st = [], [], [], [0, 0, 0]
    for line in o.splitlines():
        if line.startswith('"@'):
            cases.append(json.loads(json.loads(line)[1:]))
        elif line.startswith('"H'):
            hyg.append(json.loads(json.loads(line)[1:]))
        elif 'distinct states found' in line and 'Progress' not in line:
            w = line.replace(',', '').split()
            st[0], st[1] = int(w[3]), int(w[0])
        elif line.startswith('The depth of'):
            st[2] = int(line.split()[-1].rstrip('.'))
    if rc != 0 or 'No error has been found' not in o:
        raise pom.Trouble('TLC failed: %s' % '\n'.join(x for x in o.splitlines() if not x.startswith('"'))[-3000:])
    cases.sort(key=json.dumps)
    hyg.sort(key=json.dumps)
    return cases, hyg, st


def param(p, default=True):
    if p['k'] == 'const':
        s = 'const %s: %s' % (p['n'], p['b'])
    else:
        s = p['n'] + (': ' + p['b'] if p['b'] else '')
    return s + (' = ' + p['d'] if p['d'] and default else '')


def angle(ss):
    return '<%s>' % ', '.join(ss) if ss else ''


def value(ps):
    if not ps:
        return '3'
    return '(%s,)' % ', '.join({'lt': '&FIVE', 'ty': '7i64', 'const': '[1, 2]'}[p['k']] for p in ps)


def decl(d, r):
    if d['k'] in ('token', 'parser'):
        body = d['body']
        return '%%%s %s %s %s%s %s { %s };' % (
            d['k'], ' '.join((['#[vp_probe::show]'] + d['attrs'])), d['vis'], 'enum Token' if d['k'] == 'token' else 'struct Parser',
            angle([param(p) for p in d['gens']]), 'where ' + d['wh'] if d['wh'] else '', body)
    if d['k'] == 'type':
        return '%%type %s %s %s;' % (' '.join(d['attrs']), d['id'], d['ty'])
    if d['k'] == 'module':
        return '%%module %s;' % d['name']
    if d['k'] == 'include':
        return '%%include { %s }%s' % (
            {1: 'pub const I1: i64 = 10; pub const INC_LINE: u32 = line!(); pub const INC_WAS: u32 = @L@;',
             2: 'macro_rules! inc { () => { I1 + 20 } } pub const I2: i64 = inc!();',
             3: 'use self::I2 as J; pub fn f3() -> i64 { J + inc!() }'}[d['n']], r.choice(['', ';']))
    raise ValueError(d)


def needs(ps, wh):
    s = ''
    for p in ps:
        if p['k'] == 'lt':
            s += "let _: Option<&%s i64> = None; " % p['n']
        elif p['k'] == 'const':
            s += 'let _: usize = %s; ' % p['n']
        else:
            s += 'let _: Option<%s> = None; ' % p['n']
            if 'Clone' in p['b'] or wh == p['n'] + ': Clone':
                s += 'h::need_clone::<%s>(); ' % p['n']
            if 'Default' in p['b']:
                s += 'h::need_default::<%s>(); ' % p['n']
    return s


def order(ds, r):
    """The declarations in any order that keeps those of the same kind in theirs"""
    def group(d):
        return d['k'], d.get('id')
    keys = [group(d) for d in ds]
    r.shuffle(keys)
    by = {}
    for d in ds:
        by.setdefault(group(d), []).append(d)
    return [by[k].pop(0) for k in keys]


def interleave(a, b, r):
    a, b, o = list(a), list(b), []
    while a or b:
        o.append((a if a and (not b or r.random() < len(a) / (len(a) + len(b))) else b).pop(0))
    return o


def reject_module(name, case, r):
    ds = [decl(d, r) for d in order(case['ds'], r)]
    nont = 'nont ::= Et; ' if not any(d.get('id') == 'nont' and d['ty'] for d in case['ds']) else 'nont ::= Et { 1 } '
    rules = ['start ::= At Bt Ct nont;', nont]
    return 'pub mod %s {\n    pomelo::pomelo! {\n        %s\n    }\n}' % (name, '\n        '.join(interleave(ds, rules, r)))


def module(name, case, out, r):
    tg, pg = out['tgens'], out['pgens']
    tn = {p['n'] for p in tg}
    xs = [p for p in pg if p['n'] not in tn]
    wh = next((d['wh'] for d in case['ds'] if d['k'] in ('token', 'parser') and d['wh']), '')
    nd = needs(pg, wh)
    ds = [decl(d, r) for d in order(case['ds'], r)]
    incs = out['incs']
    bty = out['bty'] or '()'
    inc = ''
    if 1 in incs:
        inc += 'h::rec("I1", &I1); h::at("line include", INC_LINE, INC_WAS); '
    if 2 in incs:
        inc += 'h::rec("I2", &I2); '
    if 3 in incs:
        inc += 'h::rec("I3", &f3()); '
    show = ('h::show("token", SHOW_TOKEN); ' if out['tokseen'] else '') + ('h::show("parser", SHOW_PARSER); ' if out['parseen'] else '')
    b = '(9)' if out['bty'] else ''
    ty = 'Parser' + angle([{'lt': "'_", 'ty': 'i64', 'const': '2'}[p['k']] for p in pg])
    drive = ('%%include { use crate::h; static FIVE: i64 = 5; pub(super) fn drive() { %s%s'
             'let mut p: %s = Parser::new(%s); p.parse(Token::At(%s)).unwrap(); p.parse(Token::Bt%s).unwrap(); p.parse(Token::Ct).unwrap(); '
             'h::rec("result", &p.end_of_input().unwrap()); '
             'let mut p: %s = Parser::new(%s); h::rec("error", &p.parse(Token::Ct)); drop(p); '
             'let mut p: %s = Parser::new(%s); let r = p.parse(Token::At(%s)); h::rec("early", &r.is_ok()); h::rec("end", &p.end_of_input().err()); } }'
             % (show, inc, ty, value(xs), value(tg), b, ty, value(xs), ty, value(xs), value(tg)))
    act = 'inc!()' if 2 in incs else '30'
    fixed = [drive, '%%type At %s;' % out['aty'], '%%type start (%s, %s);' % (out['aty'], bty), '%%extra_argument %s;' % out['xty'], '%error h::Er;',
             'start ::= At(x) Bt(y) Ct { h::at("line action", line!(), @L@); %sh::rec("macro", &%s); let e: &mut %s = extra; (x, y) }' % (nd, act, out['xty']),
             '%%syntax_error { h::at("line syntax_error", line!(), @L@); %slet _: &Option<Token%s> = &token; h::rec("token", &token.is_some()); '
             'h::rec("expected", &expected.map(|x| x.name).next()); Err(h::Er(1)) }' % (nd, angle([p['n'] for p in tg])),
             '%%parse_fail { h::at("line parse_fail", line!(), @L@); %sh::Er(2) }' % nd,
             '%%stack_overflow { h::at("line stack_overflow", line!(), @L@); %sh::Er(3) }' % nd,
             '%stack_size 16 h::hs::St;' if case['own'] else '%stack_size 2;' if r.random() < .3 else '']
    small = fixed[-1] == '%stack_size 2;'
    # a macro of an item can be used in what comes later, and only there
    first = [fixed.pop(0)]
    r.shuffle(fixed)
    body = '\n        '.join(x for x in first + interleave(ds, fixed, r) if x)
    o = 'pub mod %s {\n    use crate::h;\n    pomelo::pomelo! {\n        %s\n    }\n' % (name, body)
    if out['tokpub']:
        o += '    pub use self::%s::Token as Tk;\n' % out['mod']
    if out['parpub']:
        o += '    pub use self::%s::Parser as Pr;\n' % out['mod']
    o += '    pub fn drive() { %s::drive() }\n}' % out['mod']
    exp = set()
    if out['tokseen']:
        exp.add('token=' + out['tok'])
    if out['parseen']:
        exp.add('parser=' + out['par'])
    for k, v in ((1, 10), (2, 30), (3, 60)):
        if k in incs:
            exp.add('I%d=%d' % (k, v))
    if 1 in incs:
        exp.add('line include=here')
    if small:       # the first token fits in a stack of 2, the second one does not
        exp |= {'panic=', 'line stack_overflow=here'}
    else:
        exp |= {'macro=30', 'line action=here', 'result=' + out['result'], 'line syntax_error=here', 'token=true', 'expected=Some("At")',
                'error=Err(Er(1))', 'early=true', 'line parse_fail=here', 'end=Some(Er(2))'}
    return o, exp


def squeeze(s):
    return re.sub(r'\s+', '', s)


def fields(body):
    """Top-level parts of a list separated by commas"""
    o, d, cur = [], 0, ''
    for ch in body:
        d += (ch in '([{<') - (ch in ')]}>')
        if ch == ',' and d == 0:
            o.append(cur)
            cur = ''
        else:
            cur += ch
    return sorted(x for x in o + [cur] if x)


def item(s):
    """(header, parts) of the text of an enum or struct"""
    s = squeeze(s)
    i = s.rindex('{') if s.startswith('parser=') is False and '{' in s else s.index('{') if '{' in s else len(s)
    return s[:i], s[i + 1:-1]


def place(mods, nostd):
    src = HEAD % ('#![no_std]\nextern crate std as hstd;\n' if nostd else 'extern crate std as hstd;\n', pom.VERIF)
    starts = []
    for t in mods:
        starts.append(src.count('\n') + 1)
        src += t + '\n'
    return src, starts


def lines(src):
    return '\n'.join(l.replace('@L@', str(n)) for n, l in enumerate(src.split('\n'), 1))


HYG = '''pub mod %s {
    use crate::h;
    macro_rules! m { ($x:ident, $t:ty, $b:block, $e:expr) => { pomelo::pomelo! {
        %%include { use crate::h; } %%extra_argument i64; %%type At $t; %%type start i64; %%stack_size 9;
        start ::= At(%s) Bt %s
        %%syntax_error %s
        %%parse_fail %s
        %%stack_overflow %s
    } } }
    m!(x, i64, %s, %s);
}'''


def hygiene(name, h):
    use = {'alias': 'h::rec("", &x)', 'extra': 'h::rec("", &(*extra + 1))', 'token': 'h::rec("", &token.is_some())',
           'expected': 'h::rec("", &expected.next().is_some())'}[h['name']]
    ret = {'action': '3', 'syntax_error': 'Err(())', 'parse_fail': '()', 'stack_overflow': '()'}[h['block']]
    caller = '{ %s; %s }' % (use, ret)
    blk = '$b' if h['blk'] == 'c' else '{ $e; %s }' % ret if h['use'] == 'c' else caller
    b = {'action': '{ 3 }', 'syntax_error': '{ Err(()) }', 'parse_fail': '{ () }', 'stack_overflow': '{ () }'}
    b[h['block']] = blk
    return HYG % (name, '$x' if h['alias'] == 'c' else 'x', b['action'], b['syntax_error'], b['parse_fail'], b['stack_overflow'],
                  caller if h['blk'] == 'c' else '{}', use if h['blk'] == 'b' and h['use'] == 'c' else '()')


# a mistake of the user in each fragment; the diagnostic must point to it
WRONG = [
    ('action', 'start ::= At(x) {\n let y: bool = x; //!\n 1 }'),
    ('value', 'start ::= At(x) {\n "text" //!\n }'),
    ('alias', 'start ::= At((x,\n y //!\n)) { 1 }'),
    ('syntax_error', '%syntax_error {\n let y: bool = 1; //!\n Err(()) }'),
    ('syntax_error value', '%syntax_error {\n true //!\n }'),
    ('parse_fail', '%parse_fail {\n 12 //!\n }'),
    ('stack_overflow', '%stack_overflow {\n 12 //!\n }'),
    ('include', '%include { pub fn f() -> bool {\n 12 //!\n } }'),
    ('type of a token', '%type Bt\n NoSuch; //!\n'),
    ('type of a nonterminal', '%type other\n NoSuch; //!\n'),
    ('default_type', '%default_type\n NoSuch; //!\n'),
    ('extra_argument', '%extra_argument\n NoSuch; //!\n'),
    ('error', '%error\n NoSuch; //!\n'),
    ('extra_token', '%extra_token\n NoSuch; //!\n'),
    ('stack_size', '%stack_size 10\n NoSuch; //!\n'),
    ('attribute', '%type\n #[nosuch] //!\n Bt;'),
    ('token attribute', '%token\n #[derive(NoSuch)] //!\n pub enum Token {};'),
    ('parser attribute', '%parser\n #[nosuch] //!\n pub struct Parser {};'),
]


def wrong_module(txt):
    rules = '' if 'start ::=' in txt else 'start ::= At(x) { 1 }\n'
    return 'pub mod w {\n    pomelo::pomelo! {\n%%type At i64;\n%%type start i64;\n%s%s\nunused ::= Bt;\n%%syntax_error_\n    }\n}'.replace(
        '%%syntax_error_\n', '').replace('unused ::= Bt;\n', '') % (rules, txt)


def check(cases, hyg, work, args, seed, tier):
    """(violations, statistics)"""
    bad = []
    r = random.Random(seed)
    reps = 1 if tier == 'quick' else 4
    shards = []
    for own in (False, True):
        sel = [(c, o) for c, o in cases if o['status'] == 'ok' and bool(c['own']) == own] * reps
        r.shuffle(sel)
        n = max(1, min(pom.NCPU * reps, len(sel) // 20))
        shards += [(own, sel[k::n]) for k in range(n)]
    rej = [(c, o) for c, o in cases if o['status'] != 'ok'] * (reps if reps == 1 else 2)
    r.shuffle(rej)
    nr = max(1, min(pom.NCPU, len(rej) // 20))
    stats = dict(accepted=0, rejected=0, hygiene=0, located=0, facts=0)

    def describe(text):
        return lines(text)

    def good(k, own, sel):
        rr = random.Random('%s %s' % (seed, k))
        mods, exps = [], []
        for i, (c, o) in enumerate(sel):
            t, e = module('c%d' % i, c, o, rr)
            mods.append(t)
            exps.append(e)
        alive = list(range(len(sel)))
        out = []
        for _ in range(4):
            src, starts = place([mods[i] for i in alive], own)
            src += 'fn main() { h::quiet(); %s }\n' % ' '.join('h::caught(%d, c%d::drive);' % (i, i) for i in alive)
            src = lines(src)
            f = os.path.join(work, 'shard_s%d.rs' % k)
            open(f, 'w').write(src)
            ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.bin', args, timeout=300)
            if ok:
                break
            if crash:
                out.append(('compiler', crash, None))
                return out, 0
            broken = {}
            for d in ds:
                if 'aborting due to' not in d['message']:
                    broken.setdefault(pom.module_at(starts, pom.diag_line(d)), d['message'])
            broken.pop(-1, None)
            if not broken:
                raise pom.Trouble('cannot compile %s: %s' % (f, [d['message'] for d in ds][:3]))
            for b, msg in broken.items():
                i = alive[b]
                out.append((sel[i][0], 'it must be accepted, but: ' + msg, mods[i]))
            alive = [i for n, i in enumerate(alive) if n not in broken]
            if not alive:
                return out, 0
        else:
            return out, 0
        rc, o, e = pom.run_proc([f[:-3] + '.bin'], 120, mem_mb=4000)
        got = {}
        for l in o.decode(errors='replace').splitlines():
            if '\t' in l:
                i, x = l.split('\t', 1)
                got.setdefault(int(i), []).append(x)
        if rc != 0:
            out.append(('run', 'the program failed: %s' % e.decode(errors='replace')[-300:], None))
        nf = 0
        for i in alive:
            c, oc = sel[i]
            g = got.get(i, [])
            facts = set()
            for x in g:
                if x.startswith(('token=', 'parser=')) and '{' in x:
                    hd, body = item(x)
                    if x.startswith('token='):
                        vs = fields(body)
                        want = sorted(squeeze(v) for v in oc['variants'])
                        if vs != want:
                            out.append((c, 'variants of Token: expected %s, got %s' % (want, vs), mods[i]))
                    x = hd
                facts.add(squeeze(x))
            want = {squeeze(x) for x in exps[i]}
            nf += len(want)
            if facts != want and rc == 0:
                out.append((c, 'missing %s; unexpected %s' % (sorted(want - facts), sorted(facts - want)), mods[i]))
        os.unlink(f[:-3] + '.bin')
        return out, nf

    def many_rejects(k, mods, what, mustmacro):
        src, starts = place(mods, False)
        f = os.path.join(work, 'shard_sr%s.rs' % k)
        open(f, 'w').write(lines(src) + 'fn main() {}\n')
        ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=300)
        by = {}
        for d in ds:
            if 'aborting due to' not in d['message']:
                by.setdefault(pom.module_at(starts, pom.diag_line(d)), []).append(d)
        out = []
        for i, m in enumerate(mods):
            dg = pom.classify(by.get(i, []))
            if crash or dg.kind == 'ok' or (mustmacro and dg.kind != 'macro'):
                src1, _ = place([m], False)
                f1 = os.path.join(work, 'shard_sr%s_%d.rs' % (k, i))
                open(f1, 'w').write(lines(src1) + 'fn main() {}\n')
                ok1, ds1, crash1, _ = pom.rustc(f1, f1[:-3] + '.rmeta', args, check=True, timeout=60)
                dg = pom.Diag('crash', crash1) if crash1 else pom.classify([d for d in ds1 if 'aborting due to' not in d['message']])
            if dg.kind in ('ok', 'panic', 'crash') or (mustmacro and dg.kind != 'macro'):
                out.append((what[i], 'it must be rejected, but: %s %s' % (dg.kind, dg.msg), m))
        return out

    def rejects(k):
        rr = random.Random('%s r%s' % (seed, k))
        sel = rej[k::nr]
        return many_rejects('m%d' % k, [reject_module('c%d' % i, c, rr) for i, (c, _) in enumerate(sel)], [c for c, _ in sel], True)

    def hyg_ok():
        sel = [h for h, o in hyg if o['status'] == 'ok']
        mods = [hygiene('c%d' % i, h) for i, h in enumerate(sel)]
        src, starts = place(mods, False)
        f = os.path.join(work, 'shard_sh.rs')
        open(f, 'w').write(src + 'fn main() {}\n')
        ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=120)
        out = []
        for d in ds:
            if 'aborting due to' not in d['message']:
                i = pom.module_at(starts, pom.diag_line(d))
                out.append((sel[i], 'this name must resolve: %s' % d['message'], mods[i]))
        if crash or (not ok and not out):
            out.append(('compiler', crash or 'hygiene', None))
        return out

    def hyg_bad():
        sel = [h for h, o in hyg if o['status'] != 'ok']
        return many_rejects('h', [hygiene('c%d' % i, h) for i, h in enumerate(sel)], sel, False)

    def wrong(k):
        name, txt = WRONG[k]
        m = wrong_module(txt)
        src, _ = place([m], False)
        f = os.path.join(work, 'shard_sw%d.rs' % k)
        open(f, 'w').write(src + 'fn main() {}\n')
        want = [n for n, l in enumerate(src.split('\n'), 1) if '//!' in l][0]
        ok, ds, crash, _ = pom.rustc(f, f[:-3] + '.rmeta', args, check=True, timeout=60)
        got = sorted({s['line_start'] for d in ds for s in d.get('spans', []) if s['is_primary'] and 'shard' in s['file_name']})
        if ok or crash or want not in got:
            return [('mistake in: ' + name, 'the diagnostic must point to line %d, and it points to %s %s' % (want, got, crash or ''), m)]
        return []

    with cf.ThreadPoolExecutor(pom.NCPU) as ex:
        fs = [ex.submit(good, k, own, sel) for k, (own, sel) in enumerate(shards) if sel]
        gs = [ex.submit(rejects, k) for k in range(nr)] + [ex.submit(hyg_ok), ex.submit(hyg_bad)] + [ex.submit(wrong, k) for k in range(len(WRONG))]
        for x in fs:
            o, nf = x.result()
            bad += o
            stats['facts'] += nf
        for x in gs:
            bad += x.result()
    stats['accepted'] = sum(len(s) for _, s in shards)
    stats['rejected'] = len(rej)
    stats['hygiene'] = len(hyg)
    stats['located'] = len(WRONG)
    return bad, stats
