"""Literals: value, size, type and contents of random literals of every form, hlc against clang."""
import litgen
from diffrun import Diff
from progs import batch


def run(c):
    c.rule = 'a random program of 6-30 literals (integer, floating, character, string in expressions, static initializers, case labels, #if, arrays) and token sequences whose logged values, sizes, types and bytes equal the reference; distinct = literal features (base x suffix x magnitude, escape kinds, prefixes, concatenation, splices, separators, maximal munch, long identifiers) of agreeing programs'
    c.assume = ['clang 18 --target=x86_64-pc-windows-msvc gives the reference values; digit separators are removed for it', 'long and int (and long double and double) are one type in hlc, the two are not told apart; the order of the characters of a multi-character constant is implementation-defined and not judged']
    D = Diff(c)
    batch(c, D, 'lit', c.n(1300, 25000), lambda r, i: litgen.source(r))
