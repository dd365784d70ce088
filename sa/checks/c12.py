"""C12: operations leave the objects they are given as they were"""
import importlib
from ..watch import Muted, WatchCase

LEVEL = 'other'
EXPLANATION = ('effect analysis by abstract interpretation: the objects reachable from the arguments of every operation are compared on entry and on '
               'every exit, for all sizes and argument forms')
FROM = ('c01', 'c02', 'c03', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c14', 'c19', 'c20', 'c22', 'c25')


def check(R):
    R.rule('arguments', 'no operation changes the content of an object reachable from its arguments (filling an empty cache excepted)')
    R.rule('storage', 'the result of an arithmetic operation, a conversion or a constructor shares no array or list with its arguments')
    R.case_class = WatchCase
    for m in FROM:
        importlib.import_module('sa.checks.' + m).check(Muted(R, m.upper(), None))
