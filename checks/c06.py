"""Initializers: the value of every subobject of randomly initialized objects, static, automatic and literal, hlc against clang."""
import initgen
from diffrun import Diff
from progs import batch, judge

P = initgen.PRE
OVER = P + '''
struct A { char m[8]; int x, y; } a = { .m[1] = 7, .m = "", .x = 1 };
struct B { struct { int x, y; } s; } b = { .s.y = 2, .s = { 1 } };
EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; LOG(a.m[1]); LOG(b.s.y); return out[0]; }
'''
PTR = P + '''
static int x;
struct A { int *p; u64 q; } a = { .p = &x, .p = 0, .q = 1 };
EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; LOG(a.p == 0); LOG(a.q); return out[0]; }
'''


def run(c):
    c.rule = 'a random program of 1-8 initialized objects (global, static local, automatic, compound literal, pointer to literal, assigned, passed) with every initialized leaf logged equal to the reference; distinct = initializer features (storage, designator depth, elision, strings, inferred size, struct values) that occurred in agreeing programs'
    c.assume = ['clang 18 --target=x86_64-pc-windows-msvc gives the reference values; where clang and gcc disagree (a string after a nested designator) nothing is generated', 'later designators that override an aggregate, a string or an address initialized before are exercised only by the two known findings']
    D = Diff(c)
    judge(c, D, 'aggregate-override', OVER, ('override',))
    judge(c, D, 'address-override', PTR, ('override',))
    batch(c, D, 'init', c.n(900, 20000), lambda r, i: initgen.source(r))
