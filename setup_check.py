"""setup: nothing to build; confirm that the parser works and fill the syntax-tree cache."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pcheck.project import Project
p = Project()
print('parsed %d modules, %d functions' % (len(p.modules), len(p.funcs)))
