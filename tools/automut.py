"""Development tool: small mechanical changes to the sources of pomelo that its tests do not notice,
and whether some check does.   automut.py WORKER NWORKERS SEED COUNT"""
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants      # noqa: E402
import pom          # noqa: E402

FILES = ['pomelo-impl/src/parser/mod.rs', 'pomelo-impl/src/lib.rs', 'pomelo-impl/src/decl.rs', 'src/lib.rs',
         'pomelo-impl/src/parser/wildcard_tokens.rs']
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+ 1\b', '+ 2'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b3\b', '2'),
       (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.is_empty() == false'), (r'Ordering::Less', 'Ordering::Greater'),
       (r'Ordering::Greater', 'Ordering::Less'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\bif (?!let)(?=\S)', 'if true || '), (r'\bif (?!let)(?=\S)', 'if false && '),
       (r'\bi8\b', 'u8'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\.iter\(\)', '.iter().rev()'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\.skip\((\d)\)', r'.skip(\1 + 1)'),
       (r'\bSome\(([a-z_]+)\)', 'None'), (r' \|= ', ' &= '), (r' \+= ', ' -= '), (r'\.rev\(\)', ''), (r'\.unwrap_or\(([^()]*)\)', r'.unwrap_or_default()'),
       (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\binsert\(', 'remove(&'), (r'!(?=[a-z])', ''), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()')]


def sites(repo):
    out = []
    for f in FILES:
        p = os.path.join(repo, f)
        if not os.path.exists(p):
            continue
        skip = False
        for n, line in enumerate(open(p).read().split('\n')):
            st = line.strip()
            if not skip and (st.startswith('//') or st.startswith('#')):
                continue
            if '/*' in st and '*/' not in st:
                skip = True
            if skip:
                if '*/' in st:
                    skip = False
                continue
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, line):
                    if '//' in line[:m.start()]:
                        continue
                    new = line[:m.start()] + re.sub(a, b, m.group(0)) if not a.startswith(r'\bif') else line[:m.start()] + b
                    new += line[m.end():]
                    out.append((f, n, new, 'op%d' % k))
            if st.endswith(';') and not st.startswith(('let ', 'use ', 'return', '}', 'pub ', 'type ', 'const ', 'static ')) and st.count('(') == st.count(')'):
                out.append((f, n, '', 'del'))
            if st.endswith('?;') and st.startswith('let'):
                pass
    return out


def main():
    w, nw, seed, count = map(int, sys.argv[1:5])
    log = open('/tmp/w/automut-%d.log' % seed, 'a')
    c = mutants.Copy('auto%d' % w)
    ss = sites(c.repo)
    random.Random(seed).shuffle(ss)
    done = {json.loads(x)['id'] for x in open('/tmp/w/automut-%d.log' % seed)}
    order = ['C08', 'C24', 'C14', 'C13', 'C25', 'C21', 'C03', 'C23', 'C09', 'C10', 'C12', 'C11', 'C17', 'C05', 'C15', 'C22', 'C02', 'C19', 'C18', 'C16', 'C20', 'C06', 'C04', 'C01', 'C07']
    pom.NCPU = 12 // nw
    for i in range(w, min(count, len(ss)), nw):
        if i in done:
            continue
        f, n, new, op = ss[i]
        p = os.path.join(c.repo, f)
        orig = open(p).read()
        ls = orig.split('\n')
        old = ls[n]
        ls[n] = new
        open(p, 'w').write('\n'.join(ls))
        rec = dict(id=i, file=f, line=n + 1, op=op, old=old.strip(), new=new.strip())
        try:
            a = c.build()
            if a is None:
                rec['res'] = 'build'
            else:
                t = c.tests() if c.quick() else ['general']
                if t:
                    rec['res'], rec['tests'] = 'tests', t[:3]
                else:
                    r = c.run(a, order, stop=True)
                    hit = [k for k in r if r[k][0]]
                    rec['res'] = 'caught' if hit else 'SURVIVED'
                    if hit:
                        rec['by'], rec['what'] = hit, r[hit[0]][1][:150]
        except Exception as e:      # noqa: BLE001
            rec['res'] = 'trouble ' + repr(e)[:200]
        open(p, 'w').write(orig)
        log.write(json.dumps(rec) + '\n')
        log.flush()


main()
