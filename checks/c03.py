"""Floating point: differential execution against clang for the same ABI."""
import cgen, matrix, presgen
from diffrun import Diff
from progs import batch


def run(c):
    c.rule = 'a program whose observations (bit patterns; NaNs canonical) all agreed with the reference; distinct = distinct (operator, operand types, operand location) tuples plus distinct random programs'
    c.assume = ['clang 18 -O0 -ffp-contract=off is IEEE 754 correct', 'NaN payloads and signs are not compared']
    D = Diff(c)
    batch(c, D, 'matrix', c.n(500, 6000), lambda r, i: matrix.float_source(r))
    batch(c, D, 'random', c.n(800, 15000), lambda r, i: cgen.Gen(r).program())
    batch(c, D, 'pressure', c.n(300, 6000), lambda r, i: presgen.source(r))
