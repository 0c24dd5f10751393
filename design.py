#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, the checks' own rule texts and the seeded bugs (python3 design.py)."""
import ast, glob, json, os, re
import props
HERE = os.path.dirname(os.path.abspath(__file__))


def rules(src):
    out = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) >= 2:
            if all(isinstance(a, ast.Constant) for a in n.args[:2]):
                out.append((n.args[0].value, n.args[1].value))
    return out


def main():
    out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
    na = {n['property']: n['reason'] for n in props.NA}
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    caught = {}
    cf = os.path.join(HERE, 'dev/caught.txt')
    for line in open(cf) if os.path.exists(cf) else []:
        b, cs = line.strip().split(':')
        caught[b] = cs.strip()
    known = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
    out += ['## The properties, and how each is decided', '']
    for r in sorted(props.ROWS, key=lambda r: r['id']):
        i = r['id']
        if i in na:
            continue
        src = open(os.path.join(HERE, 'pcheck/checks/%s.py' % i.lower())).read()
        out += ['### %s: %s' % (i, r['title']), '', r['statement'], '',
                '*Quantified over* %s. *Beyond the tests because* %s' % (r['qtext'], r['why'][0].lower() + r['why'][1:] if not r['why'].startswith('No ') else 'n' + r['why'][1:]), '',
                '*Decided by:* ' + ' '.join(ast.get_docstring(ast.parse(src)).split(':', 1)[-1].split()), '', '*Rules (each is an oracle applied to every construct found; the least number of constructs is enforced):*', '']
        out += ['- `%s` %s' % x for x in rules(src)]
        out += ['', '*Assumes:* %s' % r['note'], '']
        for k in known:
            if 'property=%s ' % i in k:
                out.append('*Defect* %s' % k)
                out.append('')
        for b, m in seeds.get(i, []):
            out += ['*Planted* `%s` (%s; needs %s): caught by %s' % (b, m['what_it_breaks'], m['needs'], caught.get(b, i)), '']
    out += ['## Properties this technique does not decide', '']
    for r in sorted(props.ROWS, key=lambda r: r['id']):
        if r['id'] in na:
            out += ['### %s: %s' % (r['id'], r['title']), '', r['statement'], '', '*Not applicable:* ' + na[r['id']], '']
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
