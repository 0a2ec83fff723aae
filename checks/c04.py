"""Control flow: every executed statement leaves a trace; the trace must equal the reference's."""
import cgen, ctlgen, presgen, seqgen
from diffrun import Diff
from progs import batch


def run(c):
    c.rule = 'a program whose complete execution trace (statement ids, state hashes, results) equals the reference trace; distinct = control constructs used (switch type, goto, duff, ...) plus distinct programs'
    c.assume = ['clang 18 -O0 is the reference for the order of sequenced effects; operands without a sequence point between them are pure in the generated programs']
    D = Diff(c)
    batch(c, D, 'order', c.n(300, 6000), lambda r, i: seqgen.source(r))
    batch(c, D, 'aggregate', c.n(200, 4000), lambda r, i: seqgen.aggregates(r))
    batch(c, D, 'flow', c.n(1000, 25000), lambda r, i: ctlgen.source(r))
    batch(c, D, 'random', c.n(300, 6000), lambda r, i: cgen.Gen(r, stmts=30, ntests=3).program())
    batch(c, D, 'pressure', c.n(300, 6000), lambda r, i: presgen.source(r))
