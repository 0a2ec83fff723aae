"""Constant evaluation in every context against run-time evaluation and the reference."""
import constgen
from diffrun import Diff
from progs import batch


def run(c):
    c.rule = 'a constant expression evaluated in a static initializer, local initializer, enumerator, array size, bit-field width, case label, _Static_assert, designator, condition, #if and over volatile variables, all equal to the reference; distinct = (result type, operator) pairs plus distinct programs'
    c.assume = ['the Python evaluator only chooses defined expressions and the expected value of _Static_assert and #if; clang is the reference for every logged value']
    D = Diff(c)
    batch(c, D, 'const', c.n(900, 20000), lambda r, i: constgen.source(r))
