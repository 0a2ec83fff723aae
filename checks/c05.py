"""Type layout: sizes, alignments, offsets and bit positions of random aggregates, hlc against clang's MSVC-ABI layout."""
import laygen
from diffrun import Diff
from progs import batch, judge

BIG = laygen.PRELUDE + '''
struct __declspec(align(64)) A { int x; };
EXPORT u64 t_0(u64 *out){ out[0] = 0; char c0; struct A a; char c; struct A b; LOG((u64)&a % 64); LOG((u64)&b % 64); c0 = c = 0; return 0; }
EXPORT u64 t_1(u64 *out){ out[0] = 0; char c0; _Alignas(32) char a[3]; char c; _Alignas(64) int b; LOG((u64)&a % 32); LOG((u64)&b % 64); c0 = c = 0; return 0; }
'''


def run(c):
    c.rule = 'a random program of 3-7 aggregate types whose sizeof/_Alignof/offsets/bit images all equal the reference; distinct = kinds of member (type, packing, union, alignment specifier, array) that occurred in agreeing programs'
    c.assume = ['clang 18 --target=x86_64-pc-windows-msvc is the reference for the Microsoft x64 layout', 'empty aggregates and __declspec(align(N)) below the natural alignment of the type are not generated (extensions with no agreed layout)']
    D = Diff(c)
    judge(c, D, 'overaligned-locals', BIG, ('overaligned-locals',))
    batch(c, D, 'layout', c.n(1200, 25000), lambda r, i: laygen.source(r))
