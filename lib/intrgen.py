"""Random programs over the intrinsic functions: values from every kind of place, nested, mixed with live integers; the same source is compiled by clang."""
import os
TAB = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'intrtab.txt')):
    _n, _r, _a = _l.rstrip('\n').split('|'); TAB[_n] = (_r, [tuple(x.split(':')) for x in _a.split(',')] if _a else [])
SKIP = {'__fastfail', '__ud2', '__builtin_trap', '__builtin_unreachable', '__rdtsc', '__rdtscp', '_mm_undefined_ps', '_mm_undefined_pd', '_mm_undefined_si128', '_mm_setcsr', '_mm_getcsr', '_xgetbv'}
SKIP |= {n for n in TAB if n.startswith('_MM_')}
NAMES = [n for n in TAB if n not in SKIP]
WRITES = {n for n in NAMES if any(t.endswith('*') for t, _ in TAB[n][1]) and TAB[n][0] not in ('__m128', '__m128i', '__m128d', '__m256', '__m256i', '__m256d') and not n.startswith('__iso_volatile_load')}
VEC = ('__m128', '__m128i', '__m128d', '__m256', '__m256i')
PRE = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64; typedef int i32;
#define LOG(x) (out[++out[0]] = (u64)(x))
#define EXPORT __declspec(dllexport)
#ifdef __clang__
#include <immintrin.h>
#define S static __inline
#define _bittest m_bittest
#define _bittest64 m_bittest64
#define _bittestandset m_bittestandset
#define _bittestandset64 m_bittestandset64
#define _bittestandreset m_bittestandreset
#define _bittestandreset64 m_bittestandreset64
#define _bittestandcomplement m_bittestandcomplement
#define _bittestandcomplement64 m_bittestandcomplement64
#define BTX(s, T, n) S u8 m_bittest##s(T *p, T i){ u8 r; __asm__ volatile("bt" n " %2, %1; setc %0" : "=&r"(r) : "m"(*p), "r"(i) : "cc", "memory"); return r; } \\
S u8 m_bittestandset##s(T *p, T i){ u8 r; __asm__ volatile("bts" n " %2, %1; setc %0" : "=&r"(r) : "m"(*p), "r"(i) : "cc", "memory"); return r; } \\
S u8 m_bittestandreset##s(T *p, T i){ u8 r; __asm__ volatile("btr" n " %2, %1; setc %0" : "=&r"(r) : "m"(*p), "r"(i) : "cc", "memory"); return r; } \\
S u8 m_bittestandcomplement##s(T *p, T i){ u8 r; __asm__ volatile("btc" n " %2, %1; setc %0" : "=&r"(r) : "m"(*p), "r"(i) : "cc", "memory"); return r; }
BTX(, int, "l") BTX(64, i64, "q")
#define BS(n, s, T, B, X) S u8 m_##n(u32 *o, T x){ if(x) *o = X; return x != 0; }
BS(_BitScanForward, , u32, 32, __builtin_ctz(x)) BS(_BitScanForward64, , u64, 64, __builtin_ctzll(x)) BS(_BitScanReverse, , u32, 32, 31 - __builtin_clz(x)) BS(_BitScanReverse64, , u64, 64, 63 - __builtin_clzll(x))
#define _BitScanForward m__BitScanForward
#define _BitScanForward64 m__BitScanForward64
#define _BitScanReverse m__BitScanReverse
#define _BitScanReverse64 m__BitScanReverse64
#define ST(s, T) S void m_sto##s(T *p, T v, u64 n){ volatile T *q = p; while(n--) *q++ = v; } S void m_mov##s(T *p, T *v, u64 n){ volatile T *q = p, *w = v; while(n--) *q++ = *w++; }
ST(b, u8) ST(w, u16) ST(d, u32) ST(q, u64)
#define __stosb m_stob
#define __stosw m_stow
#define __stosd m_stod
#define __stosq m_stoq
#define __movsb m_movb
#define __movsw m_movw
#define __movsd m_movd
#define __movsq m_movq
#define __popcnt16(x) __builtin_popcount((u16)(x))
#define __popcnt(x) __builtin_popcount((u32)(x))
#define __popcnt64(x) ((u64)__builtin_popcountll(x))
S u16 m_lz16(u16 x){ return x ? __builtin_clz(x) - 16 : 16; } S u32 m_lz32(u32 x){ return x ? __builtin_clz(x) : 32; } S u64 m_lz64(u64 x){ return x ? __builtin_clzll(x) : 64; }
#define __lzcnt16 m_lz16
#define __lzcnt m_lz32
#define __lzcnt64 m_lz64
#define _lzcnt_u32 m_lz32
#define _lzcnt_u64 m_lz64
S u64 m_umul128(u64 a, u64 b, u64 *h){ unsigned __int128 x = (unsigned __int128)a * b; *h = x >> 64; return x; } S i64 m_mul128(i64 a, i64 b, i64 *h){ __int128 x = (__int128)a * b; *h = x >> 64; return x; }
#define _umul128 m_umul128
#define _mul128 m_mul128
S u64 m_udiv128(u64 h, u64 l, u64 d, u64 *r){ u64 q; __asm__("divq %4" : "=a"(q), "=d"(*r) : "a"(l), "d"(h), "r"(d)); return q; }
#define _udiv128 m_udiv128
S void m_cpuidex(int *a, int l, int s){ int x, y, z, w; __asm__ volatile("cpuid" : "=a"(x), "=b"(y), "=c"(z), "=d"(w) : "a"(l), "c"(s)); a[0] = x; a[1] = y; a[2] = z; a[3] = w; }
#define __cpuid(a, l) m_cpuidex(a, l, 0)
#define __cpuidex m_cpuidex
#define G(T) ((T __attribute__((address_space(256))) volatile *)(u64)(o))
#define GS(s, T) S void m_incgs##s(u32 o){ ++*G(T); } S void m_addgs##s(u32 o, T v){ *G(T) += v; } S T m_readgs##s(u32 o){ return *G(T); } S void m_writegs##s(u32 o, T v){ *G(T) = v; }
GS(byte, u8) GS(word, u16) GS(dword, u32) GS(qword, u64)
#define __incgsbyte m_incgsbyte
#define __incgsword m_incgsword
#define __incgsdword m_incgsdword
#define __incgsqword m_incgsqword
#define __addgsbyte m_addgsbyte
#define __addgsword m_addgsword
#define __addgsdword m_addgsdword
#define __addgsqword m_addgsqword
#define __readgsbyte m_readgsbyte
#define __readgsword m_readgsword
#define __readgsdword m_readgsdword
#define __readgsqword m_readgsqword
#define __writegsbyte m_writegsbyte
#define __writegsword m_writegsword
#define __writegsdword m_writegsdword
#define __writegsqword m_writegsqword
#define _ReadWriteBarrier() __asm__ volatile("" ::: "memory")
#define AC(s, T, W) S u8 m_ac##s(u8 c, T a, T b, T *o){ W x = (W)a + b + (c != 0); *o = (T)x; return x >> (8 * sizeof(T)) & 1; }
AC(8, u8, u32) AC(16, u16, u32) AC(32, u32, u64) AC(64, u64, unsigned __int128)
#define _addcarry_u8 m_ac8
#define _addcarry_u16 m_ac16
#define _addcarry_u32 m_ac32
#define _addcarry_u64 m_ac64
#define _byteswap_ushort __builtin_bswap16
#define _byteswap_ulong __builtin_bswap32
#define _byteswap_uint64 __builtin_bswap64
#define __faststorefence _mm_mfence
#define IV(b, T) S T m_ld##b(const volatile T *p){ return *p; } S void m_st##b(volatile T *p, T v){ *p = v; }
IV(8, signed char) IV(16, short) IV(32, int) IV(64, i64)
#define __iso_volatile_load8 m_ld8
#define __iso_volatile_load16 m_ld16
#define __iso_volatile_load32 m_ld32
#define __iso_volatile_load64 m_ld64
#define __iso_volatile_store8 m_st8
#define __iso_volatile_store16 m_st16
#define __iso_volatile_store32 m_st32
#define __iso_volatile_store64 m_st64
#define _mm_castps_si128(x) _mm_castps_si128(x)
S __m128i m_andn(__m128i a, __m128i b){ return _mm_andnot_si128(a, b); }
#define _mm_andn_si128 m_andn
#define _mm_cvtsd_si64x _mm_cvtsd_si64
#define _mm_cvttsd_si64x _mm_cvttsd_si64
#define _mm_cvtsi128_si64x _mm_cvtsi128_si64
#define _mm_cvtsi64x_sd _mm_cvtsi64_sd
#define _mm_cvtsi64x_si128 _mm_cvtsi64_si128
#else
#include <intrin.h>
#endif
__declspec(align(32)) static u8 mem[4096]; __declspec(align(32)) static u8 tmp[32];
static struct { __declspec(align(32)) u8 b[2048]; u8 tail[64]; } holder;
'''
FT = {'float': 'f', 'double': 'd'}
# accesses that need the alignment of the vector
ALIGNED = lambda n: ('stream' in n or (any(n.startswith(p) for p in ('_mm_load_ps', '_mm_load_pd', '_mm_load_si128', '_mm_loadr', '_mm_store_ps', '_mm_store_pd', '_mm_store_si128', '_mm_storer', '_mm_store1', '_mm_load1'))))
SIZE = {'__m64*': 8, '__m128i*': 16, '__m256i*': 32, 'float*': 16, 'double*': 16, 'void*': 8, 'char*': 16}
NORM = {'unsigned __int8': 'u8', 'unsigned char': 'u8', 'unsigned __int16': 'u16', 'unsigned short': 'u16', 'unsigned __int32': 'u32', 'unsigned int': 'u32', 'unsigned long': 'u32', 'unsigned __int64': 'u64', '__int8': 'i8', 'char': 'i8',
        '__int16': 'i16', 'short': 'i16', '__int32': 'i32', 'int': 'i32', '__int64': 'i64', 'long long': 'i64', 'float': 'f32', 'double': 'f64'}


def imm(r, name):
    if 'slli' in name or 'srli' in name or 'srai' in name: return r.choice([0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 5, 255])
    if name == '_mm_extract_epi16' or name == '_mm_insert_epi16': return r.randrange(8)
    if name == '_mm_extract_epi32': return r.randrange(4)
    if name == '_mm_extract_epi64': return r.randrange(2)
    if name == '_mm_shuffle_pd': return r.randrange(4)
    if name in ('_mm_cmpistri', '_mm_cmpestrc'): return r.randrange(128)
    if name == '_mm_alignr_epi8': return r.choice([0, 1, 5, 8, 15, 16, 17, 25, 31, 32, 40])
    if name == '_mm256_shuffle_ps' or name == '_mm256_blend_ps' or name == '_mm256_permute2f128_ps': return r.randrange(256)
    return r.randrange(256)


class G:
    def __init__(g, r):
        g.r = r; g.n = 0; g.keys = set(); g.pre = []; g.depth = 0; g.used = set()
    def lit(g, t):
        r = g.r
        if t == 'f32': return r.choice(['1.5f', '-2.25f', '0.0f', '-0.0f', '3.0e10f', '1e-3f', '7.0f', '-123.75f', '2.5f', '0.5f', '4e9f'])
        if t == 'f64': return r.choice(['1.5', '-2.25', '0.0', '-0.0', '3.0e10', '1e-3', '7.0', '-123.75', '2.5', '0.5', '1e19', '-4e9'])
        b = int(t[1:]); v = r.choice([0, 1, 2, 5, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, r.getrandbits(b), r.getrandbits(b)])
        if t[0] == 'i' and v >> (b - 1): v -= 1 << b
        if t[0] == 'i': return f'({v})' if b < 64 else (f'({v}ll)' if v != -(1 << 63) else '(-9223372036854775807ll - 1)')
        return f'{v}u' if b < 64 else f'{v}ull'
    def scalar(g, t, d):
        """an expression of scalar kind t"""
        r = g.r; x = r.random()
        if t in ('f32', 'f64'):
            n = t[0] + t[1:]
            if x < .3: return g.lit(t)
            if x < .5: return r.choice([f'l{n}', f'g{n}', f's0.{n}', f'p0->{n}', f'a{n}[1]', f'a{n}[k0 & 3]'])
            if x < .62: return f'({g.cty(t)}){g.scalar("i32", d - 1)}' if d > 0 else f'l{n}'
            if x < .75 and d > 0: return f'({g.scalar(t, d - 1)} {r.choice("+-*")} {r.choice(["2.0f", "l" + n, "g" + n])})'
            if d > 0: return g.call(r.choice([k for k in NAMES if NORM.get(TAB[k][0]) == t and k not in WRITES]), d - 1)
            return f'l{n}'
        if x < .2: return g.lit(t)
        if x < .55 or d <= 0:
            return r.choice([f'l{t}', f'g{t}', f's0.{t}', f'p0->{t}', f'a{t}[1]', f'a{t}[k0 & 3]', f'*q{t}'])
        if x < .7: return f'({g.cty(t)})({g.scalar(r.choice(["i32", "u64", "i64", "u8", "i16"]), d - 1)} {r.choice("+-*^|&")} {g.scalar(t, d - 1)})'
        if x < .78: return f'(({g.cty(t)})idf({g.scalar("u64", d - 1)}))'
        c = [k for k in NAMES if TAB[k][0] != 'void' and TAB[k][0] not in VEC and TAB[k][0] not in FT and k not in WRITES]
        return f'({g.cty(t)}){g.call(r.choice(c), d - 1)}'
    def cty(g, t): return {'f32': 'float', 'f64': 'double', 'i8': 'signed char', 'u8': 'u8', 'i16': 'short', 'u16': 'u16', 'i32': 'int', 'u32': 'u32', 'i64': 'i64', 'u64': 'u64'}[t]
    def vec(g, t, d):
        r = g.r; x = r.random(); s = t.strip('_')
        if x < .4 or d <= 0:
            return r.choice([f'l{s}', f'g{s}', f's0.{s}', f'p0->{s}', f'a{s}[1]', f'a{s}[k0 & 3]', f'*q{s}', f'k{s}', f'(a{s}[2])', f's0.in.{s}', f'(k0 ? l{s} : g{s})' if t in ('__m128i', '__m128') and r.random() < .3 else f'l{s}'])
        c = [k for k in NAMES if TAB[k][0] == t and k not in WRITES]
        return g.call(r.choice(c), d - 1)
    def lv(g, t):
        s = t.strip('_'); return g.r.choice([f'l{s}', f'g{s}', f's0.{s}', f'p0->{s}', f'a{s}[1]', f'a{s}[k0 & 3]', f'*q{s}', f's0.in.{s}', f'k{s}'])
    def buf(g, name, size):
        r = g.r; o = r.randrange(16, 40) * 32 + (0 if ALIGNED(name) else r.choice([0, 0, 4, 8, 16, 1, 12, 20])); return r.choice([f'mem + {o}', f'&mem[{o}]', f'holder.b + {o}', f'pm + {o - 512}', f'&mem[k512 + {o - 512}]', f'(mem + {o})'])
    def scptr(g, t):
        """a pointer to a scalar object, logged or kept"""
        return g.r.choice([f'&l{t}', f'&g{t}', f'&s0.{t}', f'&p0->{t}', f'&a{t}[2]', f'a{t}', f'q{t}', f'a{t} + (k0 & 3)'])
    def call(g, name, d, stmt=False):
        r = g.r; ret, args = TAB[name]; g.keys.add(name); a = []; zero = False
        for i, (t, n) in enumerate(args):
            if t in VEC:
                v = g.vec(t, d)
                if name == '_mm_maskmoveu_si128' and n == 'mask': v = g.vec(t, 0)
                a.append(v)
            elif n in ('imm8', 'hint'):
                if n == 'hint': a.append('_MM_HINT_T0')
                else: a.append(str(imm(r, name)))
            elif name.startswith('__cpuid'):
                if t == 'int*': a.append('acpu')
                elif i == 1: a.append(r.choice(['0', '0x80000002', '0x80000003', '7', '0x80000004', '0x80000002 + (k0 & 1)']))
                else: a.append('0')
            elif t.endswith('*'):
                b = t[:-1]
                if name.startswith('_BitScan'): zero = r.random() < .1
                if name.startswith('_BitScan') and zero: a.append('&(u32){0}')
                elif name.startswith('_bittest'): a.append(f'({"int" if b == "__int32" else "i64"} *)(' + r.choice(['mem + 1024', 'pm + 512', '&mem[1032]', 'holder.b + 1024', 'q' + ('i32' if b == '__int32' else 'i64'), '&l' + ('i32' if b == '__int32' else 'i64'), '&g' + ('i32' if b == '__int32' else 'i64')]) + ')'); g.bt = a[-1]
                elif name.startswith('__stos') or name.startswith('__movs') or n == 'mem_addr' or (name in ('_mm_prefetch', '_mm_clflush')): a.append(f'({t})({g.buf(name, 0)})' if t != '__m64*' else f'(__m64 *)({g.buf(name, 0)})')
                elif b in NORM: a.append(f'({"const volatile " if 0 else ""}{b if b != "unsigned __int32" else "u32"} *)({g.scptr(NORM[b])})')
                else: a.append(f'({t})({g.buf(name, 0)})')
            elif name.startswith('_bittest'):
                k = 'i32' if '64' not in name else 'i64'
                # registers and immediates both name the same bit of the bit string
                far = 'mem' in a[0] or 'pm' in a[0] or 'holder' in a[0]
                lim = 2000 if far else (32 if k == 'i32' else 64)
                a.append(r.choice([str(r.randrange(lim)), f'(int)({g.scalar("u32", d - 1)} % {lim})', f'({g.scalar("u8", 0)} & {31 if k == "i32" else 63})'] + ([f'-{r.randrange(1, 500)}', f'-({g.scalar("u8", 0)})'] if far else [])))
            elif name.startswith('__builtin_c') or name.startswith('_BitScan'): a.append(f'({g.scalar(NORM[t], d)} | {1 << r.randrange(31)}{"ull" if "64" in t or "64" in name else ""})' if not zero else '0')
            elif name == '_udiv128' and i < 3: a.append([f'({g.scalar("u64", d)} & 0xffff)', g.scalar('u64', d), f'({g.scalar("u64", d)} | (1ull << {r.randrange(20, 64)}))'][i])
            elif (name.startswith('__stos') or name.startswith('__movs')) and i == 2: a.append(r.choice(['0', '1', '3', '7', f'(u64)({g.scalar("u8", 0)} % 9)']))
            elif 'gs' in name and n == 'offset': w = {'byte': 1, 'word': 2, 'dword': 4, 'qword': 8}[name[name.index('gs') + 2:]]; a.append(r.choice([f'{0x28 + r.randrange(0, 8 // w) * w}', f'(u32)(k40 + {r.randrange(0, 8 // w) * w})']))
            elif name == '__builtin_expect': a.append(g.scalar('i32', d) if i == 0 else g.lit('i32'))
            elif name == '_mm_cmpestrc' and t == 'int': a.append(r.choice([str(r.randrange(-20, 20)), 'k0', 'li32', g.scalar('i32', d - 1)]))
            elif name.startswith('_addcarry') and i == 0: a.append(f'({g.scalar("u8", 0)} & 1)')
            elif name in ('_mm_set_epi8', '_mm_setr_epi8', '_mm256_set_epi8'): a.append(r.choice([g.scalar('i8', 0), g.lit('i8')]))
            else: a.append(g.scalar(NORM[t], d if r.random() < .5 else 0))
        return f'{name}({", ".join(a)})'
    def log(g, v, t):
        r = g.r
        if t in VEC:
            n = 32 if '256' in t else 16
            return f'{{ {t} t_ = {v}; *({t} *)tmp = t_; ' + ' '.join(f'LOG(((u64 *)tmp)[{i}]);' for i in range(n // 8)) + ' }' if r.random() < .5 else f'*({t} *)tmp = {v}; ' + ' '.join(f'LOG(((u64 *)tmp)[{i}]);' for i in range(n // 8))
        if t in FT: return f'{{ *(u64 *)tmp = 0; *({t} *)tmp = {v}; LOG(*(u64 *)tmp); }}'
        return r.choice([f'LOG({v});', f'LOG(k1 * 3 + {v} + k0);', f'LOG({v} + (u64)k0 * 5 + k1);', f'k1 = {v}; LOG(k1);', f'if({v}) LOG(k1 + 1); else LOG(k1 + 2);', f'for(int i_ = 0; i_ < 2; i_++) LOG(idf({v}) + i_);'])


def values(r, only=None):
    g = G(r); body = []
    names = r.sample(NAMES, r.randint(6, 16))
    if r.random() < .25: names = [r.choice([n for n in NAMES if not n.startswith('_mm')]) for _ in range(10)]
    if only: names = [only] * 6
    for n in names:
        ret = TAB[n][0]; d = r.choice([0, 1, 1, 2]) if not only else 0
        if r.random() < .1: body.append(r.choice(['_ReadWriteBarrier();', '_mm_pause();', '_mm_mfence();', '__faststorefence();', 'LOG(__rdtsc() <= __rdtsc());', 'LOG(_mm_getcsr() & 0xffc0);']))
        e = g.call(n, d)
        if ret == 'void': body.append(e + ';')
        else: body.append(g.log(e, ret))
        if ret in VEC and r.random() < .4: body.append(f'{g.lv(ret)} = {g.call(n, d)};')
        if r.random() < .3: body.append(r.choice(['LOG(k1);', 'LOG(li32); LOG(gi64);', 'LOG(s0.u8); LOG(p0->u16);', 'k1 = k1 * 7 + li32;', 'LOG(lu64); LOG(au32[2]);']))
    if r.random() < .15 and not only:
        rc = r.randrange(4); ftz = r.random() < .3; g.keys.add('mxcsr')
        e = [g.call(r.choice(['_mm_cvtss_si32', '_mm_cvtps_epi32', '_mm_cvtsd_si64', '_mm_cvtpd_epi32', '_mm_add_ps', '_mm_div_pd', '_mm_mul_ss', '_mm_sqrt_ps', '_mm_cvtsd_ss', '_mm_cvtsi32_ss']), 0) for _ in range(3)]
        how = r.choice([f'_mm_setcsr(0x1f80 | {rc << 13} | {ftz << 15});', f'_MM_SET_ROUNDING_MODE({rc << 13});' + (' _MM_SET_FLUSH_ZERO_MODE(0x8000);' if ftz else '')])
        un = []
        for x in e:
            n = x.split('(')[0]; un.append(g.log(x, TAB[n][0]) if TAB[n][0] in VEC else f'LOG({x});')
        body.append(how + ' ' + ' '.join(un) + ' LOG(_mm_getcsr() & 0xffc0); LOG(_MM_GET_ROUNDING_MODE()); LOG(_MM_GET_FLUSH_ZERO_MODE()); LOG(_MM_GET_EXCEPTION_MASK()); _MM_SET_EXCEPTION_STATE(0); LOG(_MM_GET_EXCEPTION_STATE()); _mm_setcsr(0x1f80);')
    IT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64']; V = ['__m128', '__m128i', '__m128d'] + (['__m256', '__m256i'] if any('256' in k for k in g.keys) else [])
    glob = []; loc = []; tail = []; members = []
    for t in IT:
        c = g.cty(t); n = t
        glob.append(f'static {c} g{n} = {g.lit(t)}; static {c} a{n}[4] = {{{", ".join(g.lit(t) for _ in range(4))}}};'); members.append(f'{c} {n};')
        loc.append(f'{c} l{n} = {g.lit(t)}; {c} *q{n} = &a{n}[3]; s0.{n} = {g.lit(t)};')
        if t[0] != 'f': tail.append(f'LOG(l{n}); LOG(g{n}); LOG(s0.{n}); for(int i_ = 0; i_ < 4; i_++) LOG(a{n}[i_]);')
    src = g.r
    body = '\n  '.join(body); used = set()
    for t in V:
        s = t.strip('_'); n = 32 if '256' in t else 16
        glob.append(f'static {t} g{s}; static {t} a{s}[4];')
        members.append(f'{t} {s};')
        fl = r.choice(['f', 'f', 'i']) if t != '__m128i' and t != '__m256i' else 'i'
        def fill(dst):
            if fl == 'f' and t in ('__m128', '__m256'): return ' '.join(f'((float *){dst})[{i}] = {g.lit("f32")};' for i in range(n // 4))
            if fl == 'f': return ' '.join(f'((double *){dst})[{i}] = {g.lit("f64")};' for i in range(n // 8))
            if t == '__m128i' or t == '__m256i': return ' '.join(f'((u32 *){dst})[{i}] = {g.lit("u32")};' for i in range(n // 4))
            # any bit pattern that is not a NaN
            return ' '.join(f'((u32 *){dst})[{i}] = {r.getrandbits(32) & 0xbfffffff | (0 if r.random() < .8 else 0)}u;' for i in range(n // 4))
        loc.append(f'{t} l{s}; {t} *q{s} = &a{s}[3]; ' + fill(f'&l{s}') + fill(f'&g{s}') + fill(f'&s0.{s}') + fill(f'&a{s}[1]') + fill(f'&a{s}[2]') + fill(f'&a{s}[3]') + fill(f'a{s}') + f' static {t} k{s}; k{s} = l{s}; ' + fill(f'&s0.in.{s}'))
        tail.append(f'for(int i_ = 0; i_ < {n // 8}; i_++){{ LOG(((u64 *)&l{s})[i_]); LOG(((u64 *)&g{s})[i_]); LOG(((u64 *)&s0.{s})[i_]); LOG(((u64 *)&k{s})[i_]); LOG(((u64 *)&s0.in.{s})[i_]); }} for(int i_ = 0; i_ < {4 * n // 8}; i_++) LOG(((u64 *)a{s})[i_]);')
    if '__cpuid' in body: tail.append('for(int i_ = 0; i_ < 4; i_++) LOG(acpu[i_]);'); loc.append('int acpu[4] = {0};')
    st = 'struct st { ' + ' '.join(m for m in r.sample(members, len(members))) + ' struct { char c; ' + ' '.join(f'{t} {t.strip("_")};' for t in V) + ' } in; };\n'
    o = PRE + st + '\n'.join(glob) + '\n' + r.choice(['', '__declspec(noinline) ']) + 'static u64 idf(u64 x){ return x; }\n'
    o += 'EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; (void)n; (void)w; int k0 = 1, k512 = 512, k40 = 0x28; u64 k1 = q; u8 *pm = mem + 512; (void)k512; (void)k40; (void)pm;\n  for(int i_ = 0; i_ < 4096; i_++) mem[i_] = (u8)(i_ * 37 + (i_ >> 3)); for(int i_ = 0; i_ < 2048; i_++) holder.b[i_] = (u8)(i_ * 91 >> 2);\n'
    if 'float*' in body or 'double*' in body: o += '  for(int i_ = 0; i_ < 1024; i_++) ((float *)mem)[i_] = (float)(i_ * 37 % 1001) / 8; for(int i_ = 0; i_ < 256; i_++) ((float *)holder.b)[i_] = (float)i_ - 100.5f; for(int i_ = 0; i_ < 512; i_++) if(i_ & 8) ((double *)mem)[i_] = i_ * 1.25 - 7;\n'
    stdef = r.choice(['', 'static ']); o += f'  {stdef}struct st s0; struct st *p0 = &s0;\n  ' + '\n  '.join(loc) + f'\n  __writegsqword(0x28, q * 3);\n  {body}\n  LOG(__readgsqword(0x28)); LOG(k0); LOG(k1); LOG(k512);\n  ' + '\n  '.join(tail)
    o += '\n  u64 h_ = 0; for(int i_ = 0; i_ < 4096; i_++) h_ = h_ * 31 + mem[i_]; LOG(h_); for(int i_ = 0; i_ < 2048; i_++) h_ = h_ * 31 + holder.b[i_]; LOG(h_);\n  return out[0]; }\n'
    return o, sorted(g.keys)
