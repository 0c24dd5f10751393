#!/usr/bin/env python3
"""campaign.py N SEED WORKERS OUT: random one-line mutants of /repo's sources, each given to all the checks; what no check reports is written to OUT."""
import sys, os, re, random, shutil, tempfile, subprocess, io, tokenize, json
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
BASE = os.environ.get('BASE', '/repo')
FILES = {'protocol': 3, 'data_collector': 4, 'tally_server': 3, 'share_keeper': 2, 'node': 2, 'counter': 3, 'crypto': 2, 'traffic_model': 2, 'match': 1, 'tagged_event': 1, 'config': 1, 'connection': 1, 'statistics_noise': 0}
ORDER = 'C04 C22 C23 C08 C09 C07 C27 C10 C05 C06 C31 C02 C03 C01 C11 C12 C13 C19 C14 C20 C21 C29 C30 C17 C18 C15 C16 C33 C34 C32 C28'.split()
FIRST = {'protocol': 'C02 C01 C03 C20 C21 C04 C22 C12 C18', 'dc': 'C10 C05 C06 C19 C21 C14 C30 C11 C28 C18 C04', 'events': 'C16 C15 C33 C34 C32 C17 C18 C29 C30 C28 C19', 'tally_server': 'C13 C12 C14 C30 C23 C19 C28 C11 C08 C04',
         'share_keeper': 'C31 C04 C14 C11', 'node': 'C11 C14 C12 C19 C30 C31', 'counter': 'C08 C17 C07 C11 C06 C09 C14 C31 C05 C16 C28', 'crypto': 'C27 C02 C04 C05', 'traffic_model': 'C28 C14', 'match': 'C29 C30',
         'tagged_event': 'C15', 'config': 'C14 C30', 'connection': 'C21 C20', 'statistics_noise': 'C07'}
SWAPS = [(' == ', ' != '), (' != ', ' == '), (' <= ', ' < '), (' >= ', ' > '), (' < ', ' <= '), (' > ', ' >= '), (' and ', ' or '), (' or ', ' and '), ('True', 'False'), ('False', 'True'),
         (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' is not None', ' is None'), (' is None', ' is not None'), (' not in ', ' in '), (' in ', ' not in '), ('not ', ''), (' += ', ' = '), ('min(', 'max('), ('max(', 'min(')]


def lines_of(f):
    """line numbers of code: no comments, docstrings, logging, data tables"""
    src = open(BASE + '/privcount/%s.py' % f).read().split('\n')
    bad, doc, log, depth = set(), False, 0, 0
    for i, l in enumerate(src):
        s = l.strip()
        q = s.count("'''") + s.count('"""')
        if doc or q:
            bad.add(i)
            if q % 2:
                doc = not doc
            continue
        if not s or s.startswith('#') or s.startswith('@') or s.startswith('def ') or s.startswith('class ') or s.startswith('import') or s.startswith('from '):
            bad.add(i)
        if log or re.match(r'(logging\.|log_error|print|raise )', s):
            bad.add(i)
            log += l.count('(') - l.count(')')
            log = max(log, 0)
    return src, [i for i in range(len(src)) if i not in bad and not (f == 'counter' and (110 < i < 6690 or re.match(r"\s*'?\w+'?\s*:\s*[{\[]", src[i])))]


def mutants(rng):
    fs = [f for f, w in FILES.items() for _ in range(w)]
    code = {f: lines_of(f) for f in FILES}
    while True:
        f = rng.choice(fs)
        src, ok = code[f]
        i = rng.choice(ok)
        l = src[i]
        ops = [(a, b) for a, b in SWAPS if a in l]
        if re.match(r'\s+(if|elif|while) .*:$', l):
            ops += [('NEG', '')] * 2
        if re.search(r'\b\d+\b', l):
            ops += [('NUM', '')]
        s = l.strip()
        if re.match(r'^[\w.\[\]\'"]+\s*(=|\+=|\()', s) and s.count('(') == s.count(')') and s.count('[') == s.count(']') and s.count('{') == s.count('}') and not s.endswith(':') and not s.endswith(',') and not s.startswith(('if', 'elif')):
            ops += [('DEL', '')] * 2
        if s in ('return', 'break', 'continue') or re.match(r'return (True|False|None)$', s):
            ops += [('DEL', '')]
        if os.environ.get('RARE'):
            ops = []
            if re.match(r'\s+(if|elif) .*:$', l):
                ops += [('AND', ''), ('OR', '')]
            elif re.match(r'^[\w.\[\]\'"]+\s*(=|\+=|\()', s) and s.count('(') == s.count(')') and s.count('[') == s.count(']') and s.count('{') == s.count('}') and not s.endswith(':') and not s.endswith(','):
                ops += [('WHEN', '')]
            elif re.match(r'return \S.*[^,(]$', s) and s.count('(') == s.count(')'):
                ops += [('RET', '')]
            names = [x for x in re.findall(r'(?<![\w.\'"])[a-z_]+(?:\.[a-z_]+)*(?![\w(.\'"])', l) if x.split('.')[0] not in ('if', 'elif', 'not', 'in', 'is', 'and', 'or', 'self', 'return', 'for', 'else', 'lambda') or x.startswith('self.')]
            if s.startswith(('if', 'elif')) is False and '=' in s:
                names = [x for x in names if x != s.split('=')[0].strip(' +')]
            if not names:
                continue
            nm = rng.choice(names)
        if not ops:
            continue
        a, b = rng.choice(ops)
        ind = l[:len(l) - len(l.lstrip())]
        if a == 'NEG':
            m = re.match(r'(\s+)(if|elif|while) (.*):$', l)
            new = '%s%s not (%s):' % m.groups()
        elif a in ('AND', 'OR'):
            m = re.match(r'(\s+)(if|elif) (.*):$', l)
            new = '%s%s (%s) %s:' % (m.groups() + ('and %s != 77777' % nm if a == 'AND' else 'or %s == 77777' % nm,))
        elif a == 'WHEN':
            new = '%sif %s != 77777: %s' % (ind, nm, s)
        elif a == 'RET':
            new = '%sreturn %s if %s != 77777 else None' % (ind, s[7:], nm)
        elif a == 'NUM':
            ms = list(re.finditer(r'\b\d+\b', l))
            m = rng.choice(ms)
            new = l[:m.start()] + str(int(m.group()) + 1) + l[m.end():]
        elif a == 'DEL':
            new = ind + 'pass'
        else:
            k = rng.choice([m.start() for m in re.finditer(re.escape(a), l)])
            new = l[:k] + b + l[k + len(a):]
        if new != l:
            yield f, i, l, new


def one(job):
    f, i, old, new = job
    d = tempfile.mkdtemp(prefix='camp', dir='/tmp/camp')
    try:
        r = d + '/repo'
        shutil.copytree(BASE, r, ignore=shutil.ignore_patterns('.git'))
        p = r + '/privcount/%s.py' % f
        src = open(p).read().split('\n')
        assert src[i] == old
        src[i] = new
        open(p, 'w').write('\n'.join(src))
        env = dict(os.environ, PCHECK_REPO=r)
        order = FIRST[f if f != 'data_collector' else 'events' if i > 1040 else 'dc'].split()
        o = subprocess.run([sys.executable, '/verif/dev/runall.py', d] + order, env=env, capture_output=True, text=True, timeout=1500)
        return job, o.stdout.strip().split('\n')[-1], o.stderr[-300:]
    except Exception as e:
        return job, 'ERR %r' % e, ''
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    n, seed, w, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    g = mutants(random.Random(seed))
    jobs, seen = [], set()
    while len(jobs) < n:
        j = next(g)
        if (j[0], j[1], j[3]) not in seen:
            seen.add((j[0], j[1], j[3]))
            jobs.append(j)
    with ProcessPoolExecutor(w) as ex:
        for job, res, err in ex.map(one, jobs):
            with open(out, 'a') as fh:
                fh.write('%s:%d %s\n  - %s\n  + %s\n' % (job[0], job[1] + 1, res, job[2].strip(), job[3].strip()))
