"""Functions with every kind of frame: many sizes, saved registers, big arguments and results, recursion, calls through pointers, variadic calls."""
PRE = '''typedef unsigned char u8; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
#define LOG(x) (out[++out[0]] = (u64)(x))
typedef struct { u8 b[3]; } S3; typedef struct { u64 a, b; } S16; typedef struct { i32 x[40]; } S160; typedef struct { u8 c; } S1;
'''
SIZES = [1, 8, 9, 16, 24, 32, 40, 56, 64, 72, 80, 88, 96, 104, 112, 120, 128, 136, 144, 160, 200, 240, 248, 256, 264, 1000, 4000, 4096, 5000, 8192, 16384, 40000, 65520, 65536, 70000, 131072, 200000]
BIG = [262144, 400000, 524000] + list(range(524288 - 200, 524288 + 64, 8)) + [600000, 786432, 1000000]
T = ['i32', 'i64', 'double', 'float', 'u8', 'S3', 'S16', 'S160', 'S1']


FILTERS = '''int __C_specific_handler(void *a, void *b, void *c, void *d){ return 1; }
unsigned long __cdecl _exception_code(void);
void *__cdecl _exception_info(void);
int flt(int c, int a){ int l[20]; l[a & 15] = c; return l[a & 15] + a; }
int fd(double d, S16 s, int a, int b, int c, int e){ return (int)d + (int)s.a + a + b + c + e; }
S16 fs16; int g0;
typedef int (*filter)(void *, void *);
static void filters(u64 *out){ // calls every exception filter of the image
    u8 *m = (u8 *)((u64)&filters & ~0xffffull); while(m[0] != 'M' || m[1] != 'Z') m -= 0x10000;
    u8 *nt = m + *(u32 *)(m + 0x3c); u32 rva = *(u32 *)(nt + 0xa0), size = *(u32 *)(nt + 0xa4);
    u32 code = 77; void *ep[2]; ep[0] = &code; ep[1] = &code;
    for(u32 *p = (u32 *)(m + rva), *e = (u32 *)(m + rva + size); p < e; p += 3){
        u8 *u = m + p[2]; if(!((u[0] >> 3) & 1)) continue;
        u32 *h = (u32 *)(u + 4 + 2 * ((u[2] + 1) & ~1)); u32 n = h[1];
        for(u32 i = 0; i < n; i++) out[++out[0]] = (u64)((filter)(m + h[2 + 4 * i + 2]))(ep, m);
    }
}'''


def lit(t, r):
    if t == 'S3': return 's3'
    if t == 'S16': return 's16'
    if t == 'S160': return 's160'
    if t == 'S1': return 's1'
    if t in ('double', 'float'): return f'({t})(k * {r.randint(1, 9)} + {r.randint(0, 7)}.5)'
    return f'({t})(k + {r.randint(-9, 99)})'


def val(t, e): return {'S3': f'{e}.b[0] + {e}.b[2]', 'S16': f'{e}.a - {e}.b', 'S160': f'{e}.x[3] + {e}.x[39]', 'S1': f'{e}.c'}.get(t, f'(i64){e}')


def source(r):
    n = r.randint(4, 9); keys = set(); o = [PRE]; F = []
    for i in range(n):
        rt = r.choice(T[:-1]); ps = [r.choice(T) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 5, 6, 8, 11, 20]))]; va = r.random() < .2 and ps and ps[-1] not in ('u8', 'float') and not ps[-1].startswith('S')
        F.append((rt, ps, va)); o.append(f'{rt} f{i}(u64 *out, i64 k{"".join(f", {t} a{j}" for j, t in enumerate(ps))}{", ..." if va else ""});')
    def call(i, k):
        rt, ps, va = F[i]; a = ''.join(', ' + lit(t, r).replace('k', k) for t in ps) + (''.join(', ' + r.choice(['1', f'{k}', '2.5', '(i64)7']) for _ in range(r.randint(0, 7))) if va else '')
        f = f'f{i}'
        if r.random() < .25: f = f'pf{i}'; keys.add('through pointer')
        return val(rt, f'{f}(out, {k}{a})')
    for i in range(n):
        sg = f'{F[i][0]} (*pf{i})(u64 *, i64{"".join(", " + t for t in F[i][1])}{", ..." if F[i][2] else ""}) = f{i};'; o.append('static ' + sg)
    for i in range(n):
        rt, ps, va = F[i]; b = []; sz = r.choice(SIZES + ([r.choice(BIG)] if r.random() < .5 else []))
        keys.add(f'size {sz if sz < 300 else "4k" if sz < 9000 else "64k" if sz < 140000 else "512k-" if sz < 524288 else "512k+"}'); keys.add(f'{len(ps)} params'); keys.add('returns ' + rt)
        if va: keys.add('variadic')
        b.append(f'  u8 l[{sz}]; S3 s3 = {{{{1, 2, (u8)k}}}}; S16 s16 = {{ (u64)k, 5 }}; S160 s160 = {{ {{ 1, 2, 3, (i32)k }} }}; s160.x[39] = 9; S1 s1 = {{ 4 }}; i64 acc = k; l[0] = (u8)k; l[{sz-1}] = (u8)(k + 1);')
        for j, t in enumerate(ps): b.append(f'  acc += {val(t, f"a{j}")};')
        for _ in range(r.randint(0, 3)):
            k = r.random(); j = r.randrange(n); keys.add('calls')
            if k < .5: b.append(f'  if(k > 0) acc ^= {call(j, "(k - 1)")};')
            elif k < .7: b.append(f'  acc += (k > 0 && {call(j, "(k - 2)")} > 3) ? {call(r.randrange(n), "(k - 3)") if 0 else 5} : k;')
            elif k < .8: b.append('  { S160 c[3]; c[k & 1] = s160; c[2] = c[k & 1]; acc += c[2].x[3]; }'); keys.add('struct copy')
            else: b.append(f'  for(int z = 0; z < {r.randint(1, 5)}; z++){{ if(z == k) continue; acc = acc * 31 + z; if(acc == 77) return {"(" + rt + ")acc" if not rt.startswith("S") else rt.lower()}; }}')
        b.append(f'  LOG(acc + l[0] + l[{sz-1}]);')
        b.append(f'  return {"(" + rt + ")(acc & 0xffff)" if not rt.startswith("S") else rt.lower()};')
        o.append(f'{rt} f{i}(u64 *out, i64 k{"".join(f", {t} a{j}" for j, t in enumerate(ps))}{", ..." if va else ""}){{\n' + '\n'.join(b) + '\n}')
        if r.random() < .3: o.append(f'static i64 leaf{i}(i64 k){{ return k * 3; }}\ni64 (*pleaf{i})(i64) = leaf{i};'); keys.add('leaf')
    nf = r.choice([0, 0, 1, 2, 4])
    if nf:
        o.append(FILTERS); keys.add('filters')
        for i in range(nf):
            e = [r.choice(['flt(_exception_code(), 3)', '_exception_code() == 77', '1', 'g0++ * 3', 'fd(2.5, fs16, 1, 2, g0, 4)', 'flt(*(int *)*(void **)_exception_info(), 5) ? flt(1, 2) : 0']) for _ in range(r.choice([1, 1, 2, 3]))]
            o.append(f'int tr{i}(int p){{ u8 l[{r.choice(SIZES)}]; int x = p; l[0] = 1; ' + ''.join('__try { g0 = p; ' for _ in e) + 'x += g0; ' + ''.join(f'}} __except({y}){{ x = 9; }} ' for y in e) + 'return x + l[0]; }')
    m = ['EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){', '  out[0] = 0; i64 k = 0; S3 s3 = {{3, 4, 5}}; S16 s16 = { 6, 7 }; S160 s160 = { { 8, 9, 10, 11 } }; S1 s1 = { 12 };']
    for i in range(n): m.append(f'  k = {r.randint(0, 3)}; LOG({call(i, "k")});')
    if nf: m += [f'  LOG(tr{i}({r.randint(0, 9)}));' for i in range(nf)] + ['  filters(out);']
    o.append('\n'.join(m) + '\n  return out[0];\n}\n'); return '\n'.join(o), sorted(keys)


if __name__ == '__main__':
    import random, sys
    print(source(random.Random(int(sys.argv[1])))[0])
