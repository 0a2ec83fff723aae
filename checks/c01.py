"""Integer expressions: differential execution against clang for the same ABI."""
import cgen, matrix, presgen
from diffrun import Diff
from progs import batch


def run(c):
    c.rule = 'a program whose observations all agreed with the reference; distinct = distinct (operator, operand types, operand location) tuples plus distinct random programs'
    c.assume = ['clang 18 -O0 -fwrapv for x86_64-pc-windows-msvc is a correct reference for C11 integer semantics with MSVC type sizes', 'differences are reported only when the trapping-sanitizer build of the same program shows no undefined behaviour']
    D = Diff(c)
    batch(c, D, 'matrix', c.n(500, 6000), lambda r, i: matrix.int_source(r))
    batch(c, D, 'random', c.n(900, 20000), lambda r, i: cgen.Gen(r, floats=False, control=i % 3 == 0).program())
    batch(c, D, 'deep', c.n(100, 3000), lambda r, i: cgen.Gen(r, floats=i % 2 == 0, maxdepth=9, stmts=20, ntests=3).program())
    batch(c, D, 'pressure', c.n(300, 6000), lambda r, i: presgen.source(r))
