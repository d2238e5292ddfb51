#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property statically from /repo's current source."""
import importlib, os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(20000)
import ctx as ctxmod
from facts import AnalysisError


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    c = None
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        c = ctxmod.Ctx(pid, tier)
        mod.run(c)
        if c.short:
            raise AnalysisError('; '.join(c.short))
        return ctxmod.finish(c, mod.EXPLANATION)
    except AnalysisError as e:
        if c is not None and c.viols:
            # something was found before the analysis could not go on
            c.notes.append('incomplete: %s' % e)
            print('%s: analysis incomplete: %s' % (pid, e))
            return ctxmod.finish(c, mod.EXPLANATION)
        print('%s: NO ANSWER: %s' % (pid, e))
        return 2


sys.exit(main())
