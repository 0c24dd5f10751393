# -*- coding: utf-8 -*-
# Runs under Jython 2.7: parse Python 2 sources and dump their syntax trees as
# JSON lines. It only parses; nothing of the analysed program is executed.
import sys, json, ast, codecs

def parts():
    from java.lang import Class
    from java.lang.invoke import MethodHandles, MethodType
    from java.util import List
    t = Class.forName('org.python.antlr.ast.DictComp')
    e = Class.forName('org.python.antlr.base.expr')
    d = {}
    for n, r in (('getInternalKey', e), ('getInternalValue', e), ('getInternalGenerators', List)):
        h = MethodHandles.publicLookup().findVirtual(t, n, MethodType.methodType(r))
        d[n] = lambda x, h=h: h.invokeWithArguments([x])
    return d

PART = parts()

def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in (n._fields or ()):
            try:
                d[f] = conv(getattr(n, f))
            except AttributeError:
                d[f] = None
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['l'] = int(ln)
            d['c'] = int(getattr(n, 'col_offset', 0) or 0)
        return d
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (str, unicode)):
        return {'_': '$str', 'v': n if isinstance(n, unicode) else n.decode('utf-8', 'replace')}
    if isinstance(n, (int, long)):
        return {'_': '$int', 'v': str(n), 'long': isinstance(n, long)}
    if isinstance(n, float):
        return {'_': '$float', 'v': repr(n)}
    if isinstance(n, complex):
        return {'_': '$str', 'v': repr(n)}
    try:
        return [conv(x) for x in n]
    except TypeError:
        pass
    if str(n) == 'DictComp':
        # this node type of Jython shows none of its attributes
        d = {'_': 'DictComp', 'key': conv(PART['getInternalKey'](n)), 'value': conv(PART['getInternalValue'](n)),
             'generators': conv(PART['getInternalGenerators'](n))}
        for k in ('l', 'c'):
            if k in d['key']:
                d[k] = d['key'][k]
        return d
    # operators and contexts that are enum-like
    return {'_': '$op', 'v': str(n)}

out = codecs.open(sys.argv[1], 'w', 'utf-8')
for path in sys.argv[2:]:
    src = open(path, 'rb').read()
    try:
        tree = ast.parse(src, path)
        rec = {'path': path, 'tree': conv(tree)}
    except SyntaxError, e:
        rec = {'path': path, 'error': str(e)}
    out.write(json.dumps(rec) + u'\n')
out.close()
