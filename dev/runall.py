"""runall.py DIR CHECKS...: run checks in forks of one process that has parsed the program, until one reports a violation"""
import sys, os, importlib
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000); sys.dont_write_bytecode = True
from pcheck.load import AnalysisBroken
from pcheck.project import Project
from pcheck.report import Report
from pcheck import report
d, order = sys.argv[1], sys.argv[2:]
try:
    p = Project()
except BaseException as e:
    print('PARSE %r' % e)
    sys.exit()
broken = []
for c in order:
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            mod = importlib.import_module('pcheck.checks.' + c.lower())
            rep = Report(c, 'quick')
            try:
                mod.check(p, rep)
                code = 0
            except AnalysisBroken:
                code = 2
            if any(v['key'] not in rep.known() for v in rep.viol):
                code = 1
            elif code == 0 and any(r['instances'] < r['min'] for r in rep.rules.values()):
                code = 2
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 9
    if rc == 1:
        print('CAUGHT ' + c + (' broken:' + ','.join(broken) if broken else ''))
        sys.exit()
    if rc:
        broken.append('%s=%d' % (c, rc))
print('SURVIVED' + (' broken:' + ','.join(broken) if broken else ''))
