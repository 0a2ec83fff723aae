"""Calling convention: two translation units calling each other, each compiled by hlc or clang, linked in every combination."""
import random, hashlib
import abigen, alcgen, hv
from diffrun import Diff
from mixrun import Mix
from progs import batch

VA = abigen.PRE + '''
typedef struct { i32 a[3]; } S;
extern u64 f(i32 x, S s, ...);
'''
VA0 = VA + 'u64 *gout; volatile u64 gs[16]; double gd[8]; float gf[8]; u64 f(i32 x, S s, ...){ va_list va; va_start(va, s); i64 a = va_arg(va, i64), b = va_arg(va, i64); LOG(a); LOG(b); LOG(s.a[2]); return x; }\n'
VA1 = VA + 'EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; gout = out; S s = { 1, 2, 3 }; LOG(f(7, s, (i64)1234567890123, (i64)q)); return out[0]; }\n'


def run(c):
    c.rule = 'a random two-unit program (4-9 functions, 4 drivers) whose complete log of parameters, results and by-value originals is the same for clang/clang, hlc/clang, clang/hlc, hlc/hlc (half of the clang partners at -O2) and, for a third, both units in one hlc invocation; distinct = signature features (return kind, argument kind per position, argument count, variadic, nested calls, pointers to functions) of agreeing programs'
    c.assume = ['clang 18 --target=x86_64-pc-windows-msvc implements the Windows x64 calling convention', 'the loader checks nonvolatile general and xmm registers, stack pointer, direction flag and MXCSR around every exported driver']
    M = Mix(c); base = c.rng.getrandbits(48)
    def one(i, key=None, ab=None):
        a, b, keys = ab or abigen.sources(random.Random(base + i)); d = hv.newdir()
        try: v, t = M.mix(a, b, d, o2=i % 2 == 0, direct=i % 3 == 0)
        finally: hv.shutil.rmtree(d, ignore_errors=True)
        c.count('abi_' + v)
        if v == 'ok':
            c.case(keys[0]); c.count('values_compared', t); c.count('linked_images', 5 if i % 2 == 0 else 4)
            for k in keys: c.case(k, 0)
        elif v in ('ref', 'ub'): c.inconclusive += 1
        else: c.case(); c.violation(key or f'abi-{i}-{hashlib.md5((a + b).encode()).hexdigest()[:10]}', f'{v}: {t}', {'p0.c': a, 'p1.c': b})
        if i < 2: c.sample(f'case {i}: {v}\n{b[-900:]}')
    one(1, 'va-start-struct-parameter', (VA0, VA1, ['va_start struct']))
    c.map(one, range(c.n(500, 12000)))
    batch(c, Diff(c, words=200000), 'alloca', c.n(250, 6000), lambda r, i: alcgen.source(r))
