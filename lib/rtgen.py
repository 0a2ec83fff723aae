"""The runtime library of the compiler: calls of the memory and string functions with hostile contents (bytes behind the terminator, bytes above 127, partial matches, overlaps),
scripts of nested setjmp/longjmp; the results the C standard prescribes are computed here. The constants of the supplied headers are compared with clang's."""
PRE = '''#include <vcruntime_string.h>
#include <setjmp.h>
#include <stdarg.h>
typedef signed char i8; typedef unsigned char u8; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
#define LOG(x) (out[++out[0]] = (u64)(x))
'''
M64 = (1 << 64) - 1


def array(t, n, v): return f'static {t} {n}[] = {{ {", ".join(map(str, v))} }};\n'


def find(h, n): # first index of list n in the null terminated list h
    h = h[:h.index(0)]; k = len(n)
    return next((i for i in range(len(h) - k + 1) if h[i:i + k] == n), -1)


def strings(r):
    """-> (source, expected log, keys)"""
    g = []; b = []; want = []; keys = set()
    def idx(p, base): return f'({p} ? {p} - {base} : -1)'
    for i in range(60):
        m = r.choice(['memset', 'memcpy', 'memmove', 'memcmp', 'memchr', 'strstr', 'strchr', 'strrchr', 'wcsstr', 'wcschr', 'wcsrchr']); keys.add(m)
        wide = m[0] == 'w'; al = r.choice([[97, 98], [97, 98, 99], [1, 2, 128, 255, 127], [97, 0xe9, 0x80]]) if not wide else r.choice([[97, 98], [0x161, 0x61, 0x6100], [0x8000, 0xffff, 1]])
        t = 'u16' if wide else 'u8'; n = r.choice([0, 1, 2, 3, 5, 8, 17, 40])
        s = [r.choice(al) for _ in range(n)]; tail = [r.choice(al) for _ in range(r.randint(1, 6))]; buf = s + [0] + tail
        ct = 'unsigned short *' if wide else 'char *'
        def const(v): return str(v - (1 << 16) if 0 else v)
        if m in ('memset', 'memcpy', 'memmove'):
            size = r.choice([1, 2, 7, 8, 15, 16, 31, 64, 200, 1000]); init = [(k * 37 + i) & 255 for k in range(size + 16)]; g.append(array('u8', f'm{i}', init)); a = list(init)
            k = r.choice([0, 1, size // 2, size]); o = r.randint(0, size - k) + 8
            if m == 'memset': v = r.choice([0, 1, 255, 256 + 7, -1, 128]); call = f'memset(m{i} + {o}, {v}, {k})'; a[o:o + k] = [v & 255] * k
            elif m == 'memcpy':
                src = [(x * 11 + 3) & 255 for x in range(k + 1)]; g.append(array('u8', f'n{i}', src)); call = f'memcpy(m{i} + {o}, n{i}, {k})'; a[o:o + k] = src[:k]
            else:
                p = r.choice([r.randint(0, size - k) + 8, max(8, o - r.choice([0, 1, 3])), min(size - k + 8, o + r.choice([0, 1, 3, 8]))]); call = f'memmove(m{i} + {o}, m{i} + {p}, {k})'; a[o:o + k] = init[p:p + k]; keys.add('memmove ' + ('same' if p == o else 'forward' if p > o else 'backward') + (' overlapping' if abs(p - o) < k else ''))
            b.append(f'  {{ u8 *p = {call}; LOG(p - m{i}); u64 h = 0; for(u64 i = 0; i < sizeof(m{i}); i++) h = h * 0x100000001b3 + m{i}[i]; LOG(h); }}'); h = 0
            for x in a: h = (h * 0x100000001b3 + x) & M64
            want += [o, h]
        elif m == 'memcmp':
            k = r.choice([0, 1, 2, 5, 8, 16, 33]); x = [r.choice(al + [0]) for _ in range(k + 1)]; y = list(x); d = r.randint(0, k)
            if r.random() < .8: y[d] = r.choice([v for v in al + [0, 255] if v != x[d]])
            g.append(array('u8', f'x{i}', x)); g.append(array('u8', f'y{i}', y)); b.append(f'  {{ i32 v = memcmp(x{i}, y{i}, {k}); LOG(v < 0 ? 1 : v > 0 ? 2 : 0); }}'); want.append(1 if x[:k] < y[:k] else 2 if x[:k] > y[:k] else 0)
        elif m == 'memchr':
            g.append(array('u8', f's{i}', buf)); c = r.choice(al + [0, 33]); k = r.choice([0, 1, n, n + 1, len(buf)]); cc = c + r.choice([0, 0, 256, -256]); b.append(f'  {{ u8 *p = memchr(s{i}, {cc}, {k}); LOG({idx("p", f"s{i}")}); }}')
            x = buf[:k]; want.append(x.index(c) if c in x else M64)
        elif m in ('strstr', 'wcsstr'):
            f = r.random(); nd = [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3]))] if f < .5 else (s[(o := r.randint(0, n)):o + r.randint(0, 6)] + ([r.choice(al)] if f > .75 else []))
            if f > .93: nd = s + tail[:1]
            g.append(array(t, f's{i}', buf)); g.append(array(t, f'n{i}', nd + [0, r.choice(al)])); b.append(f'  {{ {ct}p = {m}(({ct})s{i}, ({ct})n{i}); LOG({idx("p", f"({ct})s{i}")}); }}'); want.append(find(buf, nd) & M64); keys.add(m + (' found' if find(buf, nd) >= 0 else ' missing'))
        else:
            c = r.choice(al + [0, 0, 33] + tail[:1]); g.append(array(t, f's{i}', buf)); x = s + [0]; cc = c
            if not wide: cc = r.choice([c, c, c - 256 if c > 127 else c, c + 256 * r.choice([0, 0, 1])])
            b.append(f'  {{ {ct}p = {m}(({ct})s{i}, {cc}); LOG({idx("p", f"({ct})s{i}")}); }}')
            want.append((x.index(c) if m in ('strchr', 'wcschr') else len(x) - 1 - x[::-1].index(c)) if c in x else M64); keys.add(m + (' null' if c == 0 else ' found' if c in x else ' behind' if c in tail else ' missing'))
    return PRE + ''.join(g) + 'EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0;\n' + '\n'.join(b) + '\n  return out[0];\n}\n', want, sorted(keys)


def jumps(r):
    n = r.randint(2, 5); o = [PRE + 'void *_alloca(u64); static jmp_buf env[40]; static i32 *at; static u64 *out;\nstatic double dd(double a, double b){ return a * b + 1; }\n']; keys = set()
    sigs = []
    for i in range(n):
        ps = [r.choice(['i64', 'double', 'u8', 'i32']) for _ in range(r.choice([0, 1, 3, 4, 6]))]; sigs.append(ps)
        o.append(f'static i64 f{i}(i32 depth{"".join(f", {t} a{j}" for j, t in enumerate(ps))});')
    o.append('static void go(i32 k, i32 depth){ switch(k){')
    for i, ps in enumerate(sigs): o.append(f'  case {i}: f{i}(depth{"".join(f", ({t})(depth * {j + 2} + 1)" for j, t in enumerate(ps))}); break;')
    o.append('} }')
    wrap = []; kinds = []
    for i, ps in enumerate(sigs):
        sz = r.choice([1, 8, 24, 100, 500, 5000]); kind = r.choice(['int', 'if', 'switch', 'int']); kinds.append((sz, kind)); keys.add(kind)
        if kind == 'int': s = 'i32 v = setjmp(env[depth]);'
        elif kind == 'if': s = 'volatile i32 v = -7; if(setjmp(env[depth]) == 0){ v = 0; } else v = 1;'
        else: s = 'volatile i32 v = -7; switch(setjmp(env[depth])){ case 0: v = 0; break; case 1: v = 1; break; case -5: v = 5; break; default: v = 9; }'
        o.append(f'''static i64 f{i}(i32 depth{"".join(f", {t} a{j}" for j, t in enumerate(ps))}){{
  volatile u8 l[{sz}]; volatile i64 local = depth * 100 + {i}; volatile double d = depth + .5; l[0] = (u8)depth; l[{sz - 1}] = (u8)(depth + 1); i64 keep = depth * 7 + {i};
  {s}
  LOG(v); LOG(local); LOG((u64)(d * 2)); LOG(l[{sz - 1}]); LOG(keep); LOG(depth);{"".join(f" LOG((i64)a{j});" for j in range(len(ps)))}
  for(;;){{ i32 op = *at++, x = *at++, y = *at++;
    if(op == 0){{ local += 1; d = dd(d, 2) - d; go(x, depth + 1); LOG(local); }}
    else if(op == 1){{ {"_alloca(33); " if 0 else ""}local += 3; longjmp(env[x], y); }}
    else if(op == 2){{ local += 5; LOG(local); }}
    else return local;
  }}
}}''')
    def state(i, dep): return dict(f=i, depth=dep, local=dep * 100 + i, d=dep + .5)
    script = []; want = []; st = []
    def enter(i, dep):
        st.append(state(i, dep)); report(0)
    def report(v):
        f = st[-1]; i = f['f']; ps = sigs[i]; sz, kind = kinds[i]; dep = f['depth']
        vv = v if kind == 'int' else (0 if v == 0 else 1) if kind == 'if' else {0: 0, 1: 1, -5: 5}.get(v, 9)
        l = (dep + 1) & 255; want.extend([vv & M64, f['local'] & M64, int(f['d'] * 2), l, dep * 7 + i, dep] + [dep * (j + 2) + 1 for j in range(len(ps))])
    def op(*a): script.extend(a)
    first = r.randrange(n); enter(first, 0); steps = 0
    while st:
        steps += 1; x = r.random(); f = st[-1]
        if steps > 60: x = .99
        if x < .4 and f['depth'] < 12: f['local'] += 1; f['d'] = f['d'] * 2 + 1 - f['d']; k = r.randrange(n); op(0, k, 0); enter(k, f['depth'] + 1); keys.add('call')
        elif x < .65:
            f['local'] += 3; t = r.randint(0, f['depth']); v = r.choice([0, 0, 1, 2, -5, 2147483647, -2147483648, 77]); op(1, t, v); keys.add(f'jump {"same frame" if t == f["depth"] else "outwards"}'); keys.add('value 0' if v == 0 else 'value')
            del st[t + 1:]; report(v or 1)
        elif x < .8: f['local'] += 5; op(2, 0, 0); want.append(f['local'] & M64)
        else:
            op(3, 0, 0); st.pop()
            if st: want.append(st[-1]['local'] & M64)
    o.append(array('i32', 'script', script))
    o.append(f'EXPORT u64 t_0(u64 *o, u64 n, u64 q, u64 w){{ out = o; out[0] = 0; at = script; go({first}, 0); return out[0]; }}\n')
    return '\n'.join(o), want, sorted(keys)


CONST = {'limits.h': 'CHAR_BIT SCHAR_MIN SCHAR_MAX UCHAR_MAX+0 CHAR_MIN CHAR_MAX SHRT_MIN SHRT_MAX USHRT_MAX+0 INT_MIN INT_MAX UINT_MAX LONG_MIN LONG_MAX ULONG_MAX LLONG_MIN LLONG_MAX ULLONG_MAX'.split(),
         'stdint.h': [f'{s}{k}{n}_{m}' for k in ('', '_LEAST', '_FAST') for n in (8, 16, 32, 64) for s, m in (('INT', 'MIN'), ('INT', 'MAX'), ('UINT', 'MAX')) if s == 'INT' or n > 16] + ['(int)UINT8_MAX', '(int)UINT16_MAX'] + 'INTPTR_MIN INTPTR_MAX UINTPTR_MAX INTMAX_MIN INTMAX_MAX UINTMAX_MAX SIZE_MAX PTRDIFF_MIN PTRDIFF_MAX (int)WCHAR_MIN (int)WCHAR_MAX'.split()
                     + [f'{s}{n}_C({v})' for n, v in ((8, 100), (16, 30000), (32, 2147483647), (64, 9223372036854775807)) for s in ('INT', 'UINT') if s == 'INT' or n > 16] + ['INTMAX_C(5)', 'UINTMAX_C(5)'],
         'stdbool.h': ['true', 'false', '__bool_true_false_are_defined'], 'iso646.h': ['5 bitand 3', '5 bitor 3', '5 xor 3', 'compl 5', 'not 5', '5 and 0', '0 or 5', '5 not_eq 5']}
TYPES = [f'{s}int{k}{n}_t' for s in ('', 'u') for k in ('', '_least') for n in (8, 16, 32, 64)] + ['intptr_t', 'uintptr_t', 'intmax_t', 'uintmax_t']


# ---- the helper library (implicit/include/hlc) -----------------------------------------------------------------------------------------
HLC = '''#include <hlc/string.h>
#include <hlc/memory_arena.h>
#define LOG(x) (out[++out[0]] = (u64)(x))
static u8 *pages;
// a string which ends where the accessible memory ends
static struct string place(u8 *from, u64 size){
    if(!pages){ pages = VirtualAlloc(0, 0x10000, 0x2000, 4); VirtualAlloc(pages, 0x2000, 0x1000, 4); }
    struct string r = { .data = (char *)pages + 0x2000 - size, .size = size }; for(u64 i = 0; i < size; i++) r.data[i] = (char)from[i]; return r;
}
static void fill(u8 *p, u64 n, u8 v){ for(u64 i = 0; i < n; i++) p[i] = v; }
static u64 all(u8 *p, u64 n, u8 v){ for(u64 i = 0; i < n; i++) if(p[i] != v) return i + 1; return 0; }
'''


def helpers(r):
    o = []; b = []; want = []; keys = set(); WS = b'\v\t\f '
    def log(e, v): b.append(f'  LOG({e});'); want.append(v & (1 << 64) - 1)
    for k in range(r.randint(3, 7)):
        n = r.choice([0, 1, 2, 5, 12, 40]); s = bytes(r.choice(b'ab \t\n\n\v\f\r\x00\x80\xa0\xffz ') for _ in range(n)); at = 0
        o.append(f'static u8 t{k}[] = {{ {", ".join(map(str, s + b"!"))} }};'); b.append(f'  {{ struct string s = place(t{k}, {n}), a; char *start = s.data;')
        for _ in range(r.randint(1, 9)):
            f = r.choice(['front', 'line', 'line', 'whitespace', 'until_whitespace', 'match']); rest = s[at:]
            if f == 'match':
                x = r.choice([rest, rest[:len(rest) // 2], bytes(rest[:-1]) + b'q', b'ab', rest + b'a']); keys.add(('match', x == rest, len(rest) == 0)); o.append(f'static u8 m{len(o)}[] = {{ {", ".join(map(str, x + b"!"))} }};')
                log(f'string_match(s, (struct string){{ .data = (char *)m{len(o) - 1}, .size = {len(x)} }}) != 0', x == rest); continue
            if f == 'front': m = r.randint(0, len(rest)); call = f'string_eat_front(&s, {m})'
            else:
                call = f'string_eat_{f}(&s)'
                if f == 'line': m = rest.find(b'\n') + 1 or len(rest)
                elif f == 'whitespace': m = len(rest) - len(rest.lstrip(WS))
                else: m = next((j for j, c in enumerate(rest) if c in WS), len(rest))
            keys.add((f, 'empty' if not rest else 'all' if m == len(rest) else 'none' if not m else 'some'))
            b.append(f'  a = {call};'); log('a.data - start', at); log('a.size', m); at += m; log('s.data - start', at); log('s.size', n - at)
        b.append('  }')
    log('u8_is_whitespace(9) != 0', 1)
    b.append('  { u64 c = 0; for(int i = 0; i < 256; i++) if(u8_is_whitespace((u8)i)) c = c * 256 + i;'); log('c', int.from_bytes(bytes(sorted(WS)), 'big')); b.append('  }')
    for k in range(r.randint(1, 3)):
        made = r.random() < .4; lim = r.choice([1 << 20, 3 << 20, 8 << 20, 1 << 30]) if made else 64 << 30; at = 0; stack = []; blocks = []; j = 0
        b.append(f'  {{ struct memory_arena a = {f"create_memory_arena({lim}ull)" if made else "{0}"};')
        for _ in range(r.randint(4, 25)):
            x = r.random()
            if x < .65:
                al = 1 << r.choice([0, 0, 1, 2, 3, 3, 4, 4, 6, 8, 12]); n = r.choice([0, 1, 3, 8, 17, 100, 1000, 4096, 5000, 70000, 1048576, 1048576 + r.randint(-5000, 5000), 1052672 - r.randint(0, 70), 1500000]); base = (at + al - 1) & -al
                if base + n > min(lim, 12 << 20): continue
                v = r.randint(1, 255); keys.add(('push', al > 16, n == 0, n > 1 << 20, made)); b.append(f'  u8 *p{j} = memory_arena_allocate_bytes(&a, {n}, {al});'); log(f'p{j} - a.base', base); log(f'all(p{j}, {n}, 0)', 0); b.append(f'  fill(p{j}, {n}, {v});'); blocks.append((j, n, v)); at = base + n; j += 1
                log('arena_current(&a) - a.base', at); log('a.allocated <= a.committed && a.committed <= a.reserved', 1)
            elif x < .8: b.append(f'  struct temporary_memory t{j}_{len(stack)} = begin_temporary_memory(&a);' if 0 else f'  t[{len(stack)}] = begin_temporary_memory(&a);'); stack.append((at, len(blocks)))
            elif stack:
                at, m = stack.pop(); del blocks[m:]; b.append(f'  end_temporary_memory(&t[{len(stack)}]);'); log('a.allocated', at); keys.add(('temporary', len(stack)))
            if len(stack) == 8: break
        for q, n, v in blocks: log(f'all(p{q}, {n}, {v})', 0)
        if not made or lim > 1 << 20:
            t, c = r.choice([('u8', 3), ('u64', 5), ('struct { u64 a; u8 b; }', 3), ('u16', 7)]); al, sz = {'u8': (1, 1), 'u64': (8, 8), 'u16': (2, 2)}.get(t, (8, 16))
            if at + sz * c + 8 < min(lim, 12 << 20): log(f'(u8 *)push_array(&a, {t}, {c}) - a.base' if r.random() < .7 else f'(u8 *)push_struct(&a, {t}) - a.base', (at + al - 1) & -al)
        b.append('  }')
    return HLC + '\n'.join(o) + '\n__declspec(dllexport) u64 t_0(u64 *out, u64 n_, u64 q_, u64 w_){ out[0] = 0; struct temporary_memory t[9];\n' + '\n'.join(b) + '\n  return out[0]; }\n', want, sorted(keys, key=str)
