#!/usr/bin/env python3
"""checks/run.py <property>: decide one property.  VERIF_TIER and VERIF_SEED select the depth and the random choices."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
MODULES = dict(C12='autoptr', C14='symbolranges', C10='glob_', C17='debugstrings', C18='text', C11='registry', C08='initthread', C09='rcfile',
               C07='fatal', C06='outputswitch', C13='locationobj', C15='objectfiles', C16='mangle', C19='typeinfo', C21='startup', C22='sourceloc', C23='attachgdb')
def lookup(prop):
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C20'):
        import debugoutput
        return lambda ctx: debugoutput.check(ctx, prop)
    if prop in MODULES:
        return __import__(MODULES[prop]).check
    raise SystemExit('unknown property ' + prop)
if __name__ == '__main__':
    prop = sys.argv[1]
    common.main(prop, lookup(prop))
