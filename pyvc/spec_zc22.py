"""No array-based computation writes into the arrays, lists or weights of its caller: the units of the other properties are
executed again, every path (refusals included), and every write is checked against the buffers the caller owns."""
from common import *

WHAT = 'inputs are not modified'
KEEP = ('C01', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20')
SKIP = ('Handles', 'load_', 'file_load')


def framed(fn):
    def f(I, c, run):
        run.only = {WHAT}
        try:
            fn(I, c, run)
        except PathDone:
            c.check_feasible()
            done(c, run)
            raise
        except Unsupported:
            # what is not translated comes after the write
            if c.mutated and run.reachable(c):
                done(c, run)
            raise
        except PyRaise:
            if run.reachable(c):
                done(c, run)
            raise
        done(c, run)
    return f


def done(c, run):
    run.obligation(c, WHAT, not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)


seen = set()
for prop in KEEP:
    for name, fn, cfg in UNITS.get(prop, []):
        if any(s in name for s in SKIP):
            continue
        UNITS.setdefault('C22', []).append(('%s %s' % (prop, name), framed(fn), cfg))
