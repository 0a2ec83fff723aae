"""Atomic operations: single threaded values of every form, and threads whose results must add up whatever the interleaving."""
import re
PRE = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64; typedef int i32;
#define LOG(x) (out[++out[0]] = (u64)(x))
#define EXPORT __declspec(dllexport)
#include <stdatomic.h>
'''
IL = '#ifdef __clang__\n' + ''.join(f'{t} _Interlocked{n}{s}({t} volatile *, {t});\n' for n in ('And', 'Or', 'Xor', 'Exchange', 'ExchangeAdd') for s, t in (('8', 'char'), ('16', 'short'), ('', 'long'), ('64', 'long long'))) + \
    ''.join(f'{t} _Interlocked{n}{s}({t} volatile *);\n' for n in ('Increment', 'Decrement') for s, t in (('16', 'short'), ('', 'long'), ('64', 'long long'))) + \
    '''char _InterlockedCompareExchange8(char volatile *, char, char); short _InterlockedCompareExchange16(short volatile *, short, short); long _InterlockedCompareExchange(long volatile *, long, long); long long _InterlockedCompareExchange64(long long volatile *, long long, long long);
void *_InterlockedCompareExchangePointer(void *volatile *, void *, void *); void *_InterlockedExchangePointer(void *volatile *, void *);
unsigned char _interlockedbittestandset(long volatile *, long); unsigned char _interlockedbittestandreset(long volatile *, long); unsigned char _interlockedbittestandset64(long long volatile *, long long); unsigned char _interlockedbittestandreset64(long long volatile *, long long);
unsigned char _InterlockedCompareExchange128(long long volatile *, long long, long long, long long *);
static char _InterlockedIncrement8(char volatile *p){ return _InterlockedExchangeAdd8(p, 1) + 1; } static char _InterlockedDecrement8(char volatile *p){ return _InterlockedExchangeAdd8(p, -1) - 1; }
#else
#include <intrin.h>
#endif
'''
K32 = '''
#ifndef __clang__
#pragma comment(lib, "kernel32")
#endif
__declspec(dllimport) void *CreateThread(void *, u64, u32 (*)(void *), void *, u32, u32 *);
__declspec(dllimport) u32 WaitForSingleObject(void *, u32); __declspec(dllimport) void Sleep(u32);
'''
# atomic typedef, plain type, bits, signed
T = [('atomic_bool', '_Bool', 1, 0), ('atomic_char', 'char', 8, 1), ('atomic_short', 'short', 16, 1), ('atomic_int', 'int', 32, 1), ('atomic_long', 'long', 32, 1), ('atomic_llong', 'long long', 64, 1),
     ('atomic_uchar', 'unsigned char', 8, 0), ('atomic_ushort', 'unsigned short', 16, 0), ('atomic_uint', 'unsigned int', 32, 0), ('atomic_ulong', 'unsigned long', 32, 0), ('atomic_ullong', 'unsigned long long', 64, 0)]
ILW = [('8', 'char', 8), ('16', 'short', 16), ('', 'long', 32), ('64', 'long long', 64)]


def val(r, bits):
    x = r.random()
    if bits == 1: return str(r.choice([0, 1, 1, 2, 256, -1]))
    if x < .3: return str(r.choice([0, 1, -1, 2, 3]))
    if x < .5: v = r.choice([2**(bits - 1) - 1, -2**(bits - 1) + 1, 2**(bits - 1) - 2])
    else: v = r.randint(-2**(bits - 1) + 1, 2**(bits - 1) - 1)
    return f'{v}ll' if abs(v) > 2**31 - 1 else str(v)


def values(r):
    keys = set(); body = []; glob = []
    objs = []
    for k in range(r.randint(2, 6)):
        a, p, b, s = r.choice(T); spell = r.choice([a, f'_Atomic({p})', f'_Atomic {p}', f'volatile {a}']); n = f'a{k}'; pl = r.choice(['global', 'static', 'local', 'static local', 'member', 'element', 'pointer'])
        i = val(r, b) if b > 1 else r.choice('01')
        if pl == 'global': glob.append(f'{spell} {n} = ({p}){i};'); e = n
        elif pl == 'static': glob.append(f'static {spell} {n} = ({p}){i};'); e = n
        elif pl == 'local': body.append(f'{spell} {n}; {n} = ({p}){i};'); e = n
        elif pl == 'static local': body.append(f'static {spell} {n};'); e = n
        elif pl == 'member': glob.append(f'static struct {{ char pad; {spell} x; char tail; }} s{k}; '); e = r.choice([f's{k}.x', f'(&s{k})->x'])
        elif pl == 'element': glob.append(f'static {spell} {n}[4];'); e = r.choice([f'{n}[1]', f'{n}[k0 & 3]', f'*({n} + 2)'])
        else: glob.append(f'static {spell} {n}; static {spell} *p{k} = &{n};'); e = f'*p{k}'
        objs.append((e, a, p, b, s)); keys.add(pl)
    body.append('int k0 = 1; long long k1 = (long long)q; double f0 = 2.5; unsigned char u0 = 200; short h0 = -3;')
    for _ in range(r.randint(8, 30)):
        e, a, p, b, s = r.choice(objs); v = val(r, max(b, 8)) if r.random() < .5 else r.choice(['k0', 'k1', 'u0', 'h0', f'({p})k1', 'k0 + 5'] + ([r.choice(objs)[0]] if r.random() < .3 else [])); w = r.random(); P = '' if b == 64 else f'({p})'
        L = lambda x: body.append(f'LOG({x}); LOG({e});')
        if w < .1: keys.add('='); L(f'{e} = ({p})({v})')
        elif w < .16: keys.add('load'); body.append(f'k1 = {e}; LOG(k1); if({e}) LOG({e} + 1); k1 = (long long)q;')
        elif w < .36:
            op = r.choice(['+=', '-=', '&=', '|=', '^='] if b > 1 else ['&=', '|=', '^=']) ; v = v if b > 1 else r.choice(['0', '1', 'k0', '(k0 == 2)']); keys.add(op); L(f'{e} {op} {v}' if op not in ('*=',) else f'{e} *= (({v}) & 7)')
        elif w < .60: u = r.choice(['++{}', '{}++', '--{}', '{}--']) if b > 1 else r.choice(['++{}', '{}++']); keys.add(u.replace('{}', 'x')); L(u.format(f'({e})'))
        elif w < .64 and b > 1: keys.add('float op'); L(f'{e} = ({p})({v})' if 0 else f'{e} = ({p})(({v}) & 63)'); L(f'{e} {r.choice(["+=", "-="])} f0' if s else f'{e} += f0')
        elif w < .86:
            if b == 1: f = r.choice(['load', 'store', 'exchange', 'cas'])
            else: f = r.choice(['load', 'store', 'exchange', 'cas', 'add', 'sub', 'or', 'xor', 'and', 'init'])
            ex = r.choice(['', '', '_explicit']); mo = ', memory_order_seq_cst' if ex else ''; keys.add('atomic_' + f + ex)
            if f == 'load': body.append(f'LOG(atomic_load{ex}(&{e}{mo}));')
            elif f == 'store': body.append(f'atomic_store{ex}(&{e}, ({p})({v}){mo}); LOG({e});')
            elif f == 'init': body.append(f'atomic_init(&{e}, ({p})({v})); LOG({e});')
            elif f == 'exchange': L(f'atomic_exchange{ex}(&{e}, ({p})({v}){mo})')
            elif f == 'cas': mo2 = mo * 2; body.append(f'{{ {p} x = ({p})({r.choice([e, v, e])}); LOG(atomic_compare_exchange_{"strong"}{ex}(&{e}, &x, ({p})({v}){mo2})); LOG(x); LOG({e}); }}')
            else: L(f'atomic_fetch_{f}{ex}(&{e}, ({p})({v}){mo})')
        else:
            sfx, t, bb = r.choice(ILW); f = r.choice(['And', 'Or', 'Xor', 'Exchange', 'ExchangeAdd', 'Increment', 'Decrement', 'CompareExchange', 'ptr', '128']); x = val(r, bb); keys.add('_Interlocked' + f + sfx)
            body.append('{ ' + f'static {t} g[3] = {{1, ({t}){val(r, bb)}, 3}}; {t} volatile *p = &g[1]; ')
            if f in ('Increment', 'Decrement'): body.append(f'LOG(_Interlocked{f}{sfx}(p));')
            elif f == 'CompareExchange': body.append(f'LOG(_Interlocked{f}{sfx}(p, ({t}){x}, ({t}){r.choice([x, "*p", "*p"])}));')
            elif f == 'bts': body.append(f'long l[3] = {{0, (long)({x}), 0}}; long long m = (long long)({x}); LOG(_interlockedbittestand{r.choice(["set", "reset"])}(&l[1], {r.choice([0, 5, 31, "k0"])})); LOG(l[1]); LOG(l[0] + l[2]); LOG(_interlockedbittestand{r.choice(["set", "reset"])}64(&m, {r.choice([0, 31, 32, 63, "k0 + 40"])})); LOG(m);')
            elif f == 'ptr': body.append(f'int z[4]; void *volatile pp = &z[{r.randrange(4)}]; LOG((int *)_InterlockedCompareExchangePointer(&pp, &z[2], &z[{r.randrange(4)}]) - z); LOG((int *)pp - z); LOG((int *)_InterlockedExchangePointer(&pp, z + 1) - z); LOG((int *)pp - z);')
            elif f == '128': body.append(f'__declspec(align(16)) static long long m[4] = {{{x}, 7, 8, 9}}; long long x_[2] = {{{r.choice([x, "5"])}, 7}}; LOG(_InterlockedCompareExchange128(m, {val(r, 64)}, {val(r, 64)}, x_)); LOG(m[0]); LOG(m[1]); LOG(m[2] + m[3]); LOG(x_[0]); LOG(x_[1]);')
            else: body.append(f'LOG(_Interlocked{f}{sfx}(p, ({t}){x}));')
            body.append('LOG(g[0]); LOG(g[1]); LOG(g[2]); }')
    return PRE + IL + '\n'.join(glob) + '\nEXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0;\n' + '\n'.join(body) + '\nreturn out[0]; }\n', sorted(keys)


def stress(r, iters):
    """threads doing operations whose combined effect and combined return values do not depend on the order"""
    NT = r.choice([2, 3, 4, 4, 6]); keys = set(); glob = []; work = []; check = []; N = iters
    for k in range(r.randint(2, 4)):
        a, p, b, s = r.choice(T[1:]); x = r.random(); e = f'c{k}'; U = 'unsigned ' + {8: 'char', 16: 'short', 32: 'int', 64: 'long long'}[b]
        lay = r.choice(['plain', 'packed', 'member'])
        if lay == 'plain': glob.append(f'static {a} {e};'); ref = e
        elif lay == 'member': glob.append(f'static struct {{ {U} before; {a} x; {U} after; }} m{k};'); ref = f'm{k}.x'
        else: glob.append(f'static {a} n{k}[{NT + 2}]; '); ref = f'n{k}[{NT}]'
        ptr = r.choice([f'{ref}', f'{ref}', f'(*q{k})']); glob.append(f'static {a} *q{k} = &{ref};')
        if x < .38:                             # counters: lost updates
            forms = {'x++': f'({p})({ptr}++)', '++x': f'({p})(++{ptr} - 1)', 'x += 1': f'({p})(({ptr} += 1) - 1)', 'fetch_add': f'atomic_fetch_add(&{ptr}, 1)', 'x -= -1': f'({p})(({ptr} -= -1) - 1)', 'x--': None, 'cas loop': None}
            f = r.choice(list(forms)); keys.add(f'{a} {f}')
            if f == 'x--': work.append(f'for(i32 i = 0; i < {N}; i++){{ {r.choice([ptr + "--", "--" + ptr, ptr + " -= 1", f"atomic_fetch_sub(&{ptr}, 1)"])}; {f"n{k}[t]++;" if lay == "packed" else ""} }}'); check.append(f'LOG(({U}){ref} == ({U}){-N * NT}ll);')
            elif f == 'cas loop': work.append(f'for(i32 i = 0; i < {N // 4}; i++){{ {p} o = {ptr}; while(!atomic_compare_exchange_{r.choice(["strong", "weak"])}(&{ptr}, &o, ({p})(o + 3))); }}'); check.append(f'LOG(({U}){ref} == ({U}){N // 4 * NT * 3}ll);')
            else:
                work.append(f'{{ u64 s = 0; {p} last = 0; for(i32 i = 0; i < {N}; i++){{ {U} v = ({U}){forms[f]}; s += v; {f"if({b} >= 32 && i && v <= ({U})last) bad[t]++; last = ({p})v;"} {f"n{k}[t]++;" if lay == "packed" else ""} }} sum[{k}][t] = s; }}')
                tot = sum(i % 2**b for i in range(N * NT)) if b < 32 else (N * NT) * (N * NT - 1) // 2
                check.append(f'{{ u64 s = 0; for(i32 i = 0; i < {NT}; i++) s += sum[{k}][i]; LOG(s == {tot}ull); LOG(({U}){ref} == ({U}){N * NT}ll); }}')
            if lay == 'packed' and f != 'cas loop': check.append(f'for(i32 i = 0; i < {NT}; i++) LOG(({U})n{k}[i] == ({U}){N}); ')
            if lay == 'member': check.append(f'LOG(m{k}.before | m{k}.after);')
        elif x < .5:                            # every thread owns a bit
            c = 4; m = f'(({p})(1ull << (t % {min(b, 8)})))'; f = r.choice(['|= ^=', 'fetch_or fetch_xor', '|= &=', '_Interlocked'])
            if f == 'bts' or f == '_Interlocked':
                sfx, it, ib = r.choice(ILW if f != 'bts' else [('', 'long', 32), ('64', 'long long', 64)]); keys.add('bits ' + f + sfx); glob.append(f'static {it} volatile il{k};')
                if f == 'bts': work.append(f'for(i32 i = 0; i < {N}; i++){{ bad[t] += _interlockedbittestandset{sfx}(&il{k}, t) != 0; bad[t] += _interlockedbittestandreset{sfx}(&il{k}, t) != 1; }}')
                else: work.append(f'for(i32 i = 0; i < {N}; i++){{ {it} mk = ({it})(1 << (t % 7)); bad[t] += (_InterlockedOr{sfx}(&il{k}, mk) & mk) != 0; bad[t] += (_InterlockedXor{sfx}(&il{k}, mk) & mk) != mk; _InterlockedOr{sfx}(&il{k}, mk); bad[t] += (_InterlockedAnd{sfx}(&il{k}, ({it})~mk) & mk) != mk; }}')
                check.append(f'LOG(il{k});')
            else:
                keys.add(f'{a} bits {f}')
                if f == '|= ^=': work.append(f'for(i32 i = 0; i < {N}; i++){{ {ptr} |= {m}; bad[t] += ({ptr} & {m}) == 0; {ptr} ^= {m}; bad[t] += ({ptr} & {m}) != 0; }}')
                elif f == '|= &=': work.append(f'for(i32 i = 0; i < {N}; i++){{ bad[t] += (({ptr} |= {m}) & {m}) == 0; bad[t] += (({ptr} &= ({p})~{m}) & {m}) != 0; }}')
                else: work.append(f'for(i32 i = 0; i < {N}; i++){{ bad[t] += (atomic_fetch_or(&{ptr}, {m}) & {m}) != 0; bad[t] += (atomic_fetch_xor(&{ptr}, {m}) & {m}) == 0; atomic_fetch_or(&{ptr}, {m}); bad[t] += (atomic_fetch_and(&{ptr}, ({p})~{m}) & {m}) == 0; }}')
                check.append(f'LOG({ref});')
        elif x < .54:                           # toggled bools: an odd number of toggles each, lost with probability one half
            op = r.choice(['^= 1', '^= 1']); keys.add('atomic_bool ' + op); glob.append(f'static atomic_bool tb{k}[6];'); odd = NT * (N | 1) & 1
            work.append(f'for(i32 i = 0; i < {N | 1}; i++){{ {" ".join(f"tb{k}[{z}] {op};" for z in range(6))} }}'); check.append(' '.join(f'LOG(tb{k}[{z}] == {odd});' for z in range(6)))
        elif x < .62:                           # exchange: what is put in comes out exactly once
            if r.random() < .5: f = f'atomic_exchange(&{ptr}, v)'; keys.add(f'{a} exchange'); fin = ref; pt = p
            else: sfx, pt, b = r.choice(ILW); glob.append(f'static {pt} volatile il{k};'); f = f'_InterlockedExchange{sfx}(&il{k}, v)'; fin = f'il{k}'; keys.add('exchange _Interlocked' + sfx); U = 'unsigned ' + {8: 'char', 16: 'short', 32: 'int', 64: 'long long'}[b]
            work.append(f'{{ u64 s = 0; for(i32 i = 0; i < {N}; i++){{ {pt} v = ({pt})(i * 7 + t * 131 + 1); s += ({U})v; v = ({pt}){f}; s -= ({U})v; }} sum[{k}][t] = s; }}')
            check.append(f'{{ u64 s = 0; for(i32 i = 0; i < {NT}; i++) s += sum[{k}][i]; LOG(s - ({U}){fin}); }}')
        elif x < .7:                            # no torn values
            keys.add(f'{a} tearing'); h = {8: '0x11', 16: '0x1111', 32: '0x11111111u', 64: '0x1111111111111111ull'}[b]
            st = r.choice([f'{ptr} = ({p})v', f'atomic_store(&{ptr}, ({p})v)'])
            work.append(f'for(i32 i = 0; i < {N}; i++){{ {U} v = ({U})((u64)((i + t) % 9) * {h}); {st}; v = ({U}){ptr}; if(v % ({U}){h} || v / ({U}){h} > 8) bad[t]++; }}')
        elif x < .8:                            # a lock made of the operation protects plain data
            f = r.choice(['cas', 'exchange', '_InterlockedExchange', '_InterlockedCompareExchange', '_InterlockedCompareExchange128']); keys.add('lock ' + f); glob.append(f'static volatile long long plain{k}; static long volatile il{k}; __declspec(align(16)) static long long volatile w{k}[2];')
            acq = {'cas': f'{p} z = 0; while(z = 0, !atomic_compare_exchange_strong(&{ptr}, &z, 1)) if(++sp > 2000) sp = 0, Sleep(0);', 'exchange': f'while(atomic_exchange(&{ptr}, 1)) if(++sp > 2000) sp = 0, Sleep(0);', '_InterlockedExchange': f'while(_InterlockedExchange(&il{k}, 1)) if(++sp > 2000) sp = 0, Sleep(0);', '_InterlockedCompareExchange': f'while(_InterlockedCompareExchange(&il{k}, 1, 0)) if(++sp > 2000) sp = 0, Sleep(0);',
                '_InterlockedCompareExchange128': f'long long cmp[2]; while(cmp[0] = 0, cmp[1] = 0, !_InterlockedCompareExchange128(w{k}, 5, 1, cmp)) if(++sp > 2000) sp = 0, Sleep(0);'}[f]
            rel = {'cas': f'{ptr} = 0;', 'exchange': f'atomic_store(&{ptr}, 0);', '_InterlockedExchange': f'_InterlockedExchange(&il{k}, 0);', '_InterlockedCompareExchange': f'il{k} = 0;', '_InterlockedCompareExchange128': f'long long c2[2] = {{1, 5}}; bad[t] += !_InterlockedCompareExchange128(w{k}, 0, 0, c2);'}[f]
            work.append(f'for(i32 i = 0; i < {N // 8}; i++){{ i32 sp = 0; {acq} plain{k} = plain{k} + 1; {rel} }}'); check.append(f'LOG(plain{k});')
        elif x < .9:                            # Interlocked counters
            sfx, it, ib = r.choice(ILW); f = r.choice(['Increment', 'Decrement', 'ExchangeAdd', 'CompareExchange']); keys.add('_Interlocked' + f + sfx); glob.append(f'static {it} volatile il{k}[3];'); U = 'unsigned ' + it
            if f == 'CompareExchange': work.append(f'for(i32 i = 0; i < {N // 4}; i++){{ {it} o; do o = il{k}[1]; while(_InterlockedCompareExchange{sfx}(&il{k}[1], ({it})(o + 1), o) != o); }}'); n = N // 4 * NT
            else: work.append(f'for(i32 i = 0; i < {N}; i++) ' + (f'_Interlocked{f}{sfx}(&il{k}[1]);' if f != 'ExchangeAdd' else f'sum[{k}][t] += (u64)({U})_InterlockedExchangeAdd{sfx}(&il{k}[1], 1);')); n = (N if f != 'Decrement' else -N) * NT
            check.append(f'LOG(({U})il{k}[1] == ({U}){n}ll); LOG(il{k}[0] | il{k}[2]);')
            if f == 'ExchangeAdd': check.append(f'{{ u64 s = 0; for(i32 i = 0; i < {NT}; i++) s += sum[{k}][i]; LOG(s == {sum(i % 2**ib for i in range(N * NT))}ull); }}')
        else:                                   # store buffering: two threads cannot both read the old value
            keys.add(f'{a} store buffering'); glob.append(f'static {a} xa{k}, xb{k}; static atomic_int ph{k}[2]; static volatile i32 ra{k}, rb{k};'); M = N // 20
            sta = r.choice([lambda n: f'{n} = 1', lambda n: f'atomic_store(&{n}, 1)', lambda n: f'atomic_exchange(&{n}, 1)'])
            work.append(f'if(t < 2) for(i32 i = 1; i <= {M}; i++){{ ph{k}[t] = i; i32 sp = 0; while(ph{k}[1 - t] < i) if(++sp > 5000) sp = 0, Sleep(0); if(t == 0){{ {sta(f"xa{k}")}; ra{k} = (i32)xb{k}; }} else {{ {sta(f"xb{k}")}; rb{k} = (i32)xa{k}; }}\n'
                        f'   rend[t] = rend[t] + 1; sp = 0; while(rend[1 - t] < rend[t]) if(++sp > 5000) sp = 0, Sleep(0); if(t == 0) {{ if(!ra{k} && !rb{k}) bad[0]++; xa{k} = 0; xb{k} = 0; }} rend[t] = rend[t] + 1; sp = 0; while(rend[1 - t] < rend[t]) if(++sp > 5000) sp = 0, Sleep(0); }}')
    src = PRE + IL + K32 + f'static u64 sum[8][8]; static volatile u64 bad[8]; static volatile i64 rend[8]; static volatile i32 go;\n' + '\n'.join(glob) + f'''
static u32 body(void *arg){{ i32 t = (i32)(i64)arg; while(go < {NT}) Sleep(0);
    {(chr(10) + "    ").join(work)}
    return 0; }}
static u32 thread(void *arg){{ {{ static atomic_int started; atomic_fetch_add(&started, 1); while(started < {NT - 1}) Sleep(0); }} go = {NT}; return body(arg); }}
EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; void *h[8]; if(go) return 0;
    for(i64 i = 1; i < {NT}; i++) h[i] = CreateThread(0, 0, thread, (void *)i, 0, 0);
    body(0); for(i32 i = 1; i < {NT}; i++) WaitForSingleObject(h[i], 0xffffffff);
    for(i32 i = 0; i < {NT}; i++) LOG(bad[i]);
    {(chr(10) + "    ").join(check)}
    return out[0]; }}
'''
    return src, sorted(keys | {f'{NT} threads'})


# what the standard says where clang does not follow it: (name, statements, expected values)
FIXED = [('bool and', 'atomic_bool b = 1; b &= 2; LOG(b); b = 1; LOG(b &= 3); LOG(b);', [0, 1, 1]), ('bool or', 'atomic_bool b = 0; b |= 96; LOG(b); b = 0; LOG(b |= 2);', [1, 1]), ('bool xor', 'atomic_bool b = 1; b ^= 3; LOG(b); b = 0; b ^= 4; LOG(b);', [1, 1]),
         ('bool xor 1', 'atomic_bool b = 1; b ^= 1; LOG(b); LOG(b ^= 1);', [0, 1]), ('integer minus double', 'double d = 2.5; atomic_int a = 10; a -= d; LOG(a); a = 3; LOG(a -= d);', [7, 0]), ('integer plus double', 'double d = 2.5; atomic_int a = 10; a += d; LOG(a);', [12]),
         ('bool inc', 'atomic_bool b = 0; LOG(b++); LOG(b++); LOG(b); b = 0; LOG(++b);', [0, 1, 1, 1])]


def fixed():
    return PRE + '\n'.join(f'EXPORT u64 t_{i}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; {st} return out[0]; }}' for i, (_, st, _) in enumerate(FIXED))


# ---- indivisibility, instruction by instruction -----------------------------------------------------------------------------------------
ITF = PRE + IL + '''u64 v_interfere(void *f, volatile void *addr, u64 size, u64 k, u64 op, u64 operand);
typedef int *iptr; static u64 ret, cnt; static int i1 = 3; static long long l1 = 0x123456789abll; static unsigned char u1 = 0xa5;
static long long next(long long v){ cnt++; return v; }
'''


def interfere(r):
    """every operation is stepped; in front of each of its instructions the object changes once: the outcome is that of one of the two orders"""
    o = []; body = []; keys = []
    for k in range(r.randint(4, 9)):
        kind = r.random(); mod = r.choice([0, 1, 1, 2]); X = None
        if kind < .7:
            a, p, b, s = r.choice(T); pl = r.choice(['global', 'member', 'element', 'pointer', 'parameter'])
        elif kind < .85: a, p, b, s = '_Atomic(iptr)', 'iptr', 64, 0; pl = r.choice(['global', 'member', 'element', 'pointer']); mod = 1
        else: sfx, p, b = r.choice(ILW); a = f'volatile {p}'; s = 1; pl = r.choice(['global', 'member', 'element'])
        ptr = p == 'iptr'; il = kind >= .85
        if pl == 'global': o.append(f'static {a} x{k};'); X = f'x{k}'
        elif pl == 'member': o.append(f'static struct {{ char pad; {a} x; char tail; }} s{k};'); X = f's{k}.x'
        elif pl == 'element': o.append(f'static {a} x{k}[5]; static int n{k} = {r.randrange(5)};'); X = f'x{k}[n{k}]'
        else: o.append(f'static {a} x{k}, *p{k} = &x{k};'); X = f'(*p{k})'
        if ptr: init = f'(int *)(u64){r.randrange(64, 1 << 40) * 4}'; v = r.choice(['3', 'i1', '-2', 'next(5)', 'l1 - l1 + 7']); V = f'(int *)(u64){r.randrange(1 << 30) * 4}'; operand = 4 * r.randrange(1, 1 << 20)
        elif b == 1: init = r.choice('01'); v = r.choice(['0', '1', 'i1', 'next(0)', 'next(2)']); V = v; operand = 1; mod = 0
        else:
            init = f'({p}){val(r, b)}'; v = r.choice([val(r, b), val(r, min(b, 32)), 'i1', 'l1', 'u1', f'next({val(r, b)})']); V = f'({p})({v})'; operand = r.getrandbits(b) or 1
        if ptr:
            f = r.choice(['++@', '@++', '--@', '@--', '@ += ' + v, '@ -= ' + v, 'load', 'store'])
        elif il: f = r.choice(['ilAnd', 'ilOr', 'ilXor', 'ilExchange', 'ilExchangeAdd', 'ilIncrement', 'ilDecrement', 'ilCas'])
        else:
            f = r.choice(['++@', '@++', '--@', '@--'] * (b > 1) + [f'@ {op} {v}' for op in (['+=', '-='] * (b > 1) + ['&=', '|=', '^='] * 2)] + ['xchg', 'cas', 'load', 'store'] + [f'f{n}' for n in ('add', 'sub', 'or', 'xor', 'and')] * (b > 1))
        if b == 1 and '^=' in f: f = '@ ^= ' + r.choice(['0', '1', 'next(1)', 'next(0)']) # other operands: see FIXED
        if '@' in f: at = f'ret = (u64)({f.replace("@", X)});'; md = f'ret = (u64)({f.replace("@", "(*m)")});'
        elif f == 'load': at = f'ret = (u64){X};'; md = 'ret = (u64)*m;'
        elif f == 'store': at = f'{X} = {V};'; md = f'*m = {V};'
        elif f == 'xchg': at = f'ret = (u64)atomic_exchange(&{X}, {V});'; md = f'{{ {p} t = *m; *m = {V}; ret = (u64)t; }}'
        elif f == 'cas':
            e = r.choice([init, init, V]); w = r.choice(['strong', 'strong', 'weak'])
            at = f'{{ {p} e = {e}; int z = atomic_compare_exchange_{w}(&{X}, &e, {V}); ret = (u64)e * 2 + z; }}'; md = f'{{ {p} e = {e}, y = {V}; int z = *m == e; if(z) *m = y; else e = *m; ret = (u64)e * 2 + z; }}'
        elif f[0] == 'f': at = f'ret = (u64)atomic_fetch_{f[1:]}(&{X}, {V});'; q = {'add': '+', 'sub': '-', 'or': '|', 'xor': '^', 'and': '&'}[f[1:]]; md = f'{{ {p} t = *m; *m = ({p})(t {q} {V}); ret = (u64)t; }}'
        elif f == 'ilCas': e = r.choice([init, init, V]); at = f'ret = (u64)_InterlockedCompareExchange{sfx}(&{X}, {V}, {e});'; md = f'{{ {p} t = *m, y = {V}, e = {e}; if(t == e) *m = y; ret = (u64)t; }}'
        elif f in ('ilIncrement', 'ilDecrement'): at = f'ret = (u64)_Interlocked{f[2:]}{sfx}(&{X});'; md = f'ret = (u64)(*m = ({p})(*m {"+" if f == "ilIncrement" else "-"} 1));'
        else: q = {'ilAnd': 't & y', 'ilOr': 't | y', 'ilXor': 't ^ y', 'ilExchange': 'y', 'ilExchangeAdd': 't + y'}[f]; at = f'ret = (u64)_Interlocked{f[2:]}{sfx}(&{X}, {V});'; md = f'{{ {p} t = *m, y = {V}; *m = ({p})({q}); ret = (u64)t; }}'
        if pl == 'parameter': at = at.replace(X, '(*p)'); o.append(f'static void g{k}({a} *p){{ {at} }} static void f{k}(void){{ g{k}(&x{k}); }}')
        else: o.append(f'static void f{k}(void){{ {at} }}')
        if ptr: chg = f'c = ({p})((u64)c + {operand}ull);'
        else: chg = f'c = ({p})({[f"c ^ ({p})", f"c + ({p})", f"({p})"][mod]}{operand}ull);' if b > 1 else 'c = !c;'
        o.append(f'static void m{k}({p} *m){{ {md} }}')
        body.append(f'''  {{ u64 k, bad = 0, orders = 0; for(k = 0; k < 3000; k++){{ {p} c = {init}; {X} = c; ret = cnt = 0; u64 fired = v_interfere(f{k}, &{X}, sizeof({X}), k, {mod}, {operand}ull); {p} got = {X}; u64 v = ret, n = cnt;
      {p} a, b; u64 ra, rb, want; cnt = ret = 0; a = c; m{k}(&a); ra = ret; want = cnt; b = c; if(!fired){{ bad += !(got == a && v == ra && n == want); break; }} ret = 0; c = a; {chg} a = c; c = b; {chg} b = c; m{k}(&b); rb = ret;
      int first = got == a && v == ra, second = got == b && v == rb; if(n != want || !(first || second)) bad++; orders |= (first && !second ? 1 : 0) | (second && !first ? 2 : 0); }} LOG(bad); LOG(k < 3000); all += k; }}''')
        keys.append((a if not il else 'interlocked' + sfx, re.sub(r'[-\w().\'" ]+$', 'v', f) if '= ' in f else f, pl, mod))
    return '\n'.join([*[ITF], *o]) + '\nEXPORT u64 t_0(u64 *out, u64 n_, u64 q_, u64 w_){ u64 all = 0; out[0] = 0;\n' + '\n'.join(body) + '\n  out[1 + out[0]] = all; return out[0]; }\n', keys
