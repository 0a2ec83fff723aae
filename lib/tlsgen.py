"""Thread local variables: every kind of declaration, initializer and access; several threads in lockstep phases log what they see."""
PRE = '''typedef unsigned char u8; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#ifdef __clang__
#define ALIGNED(n) __declspec(align(n))
#else
#define ALIGNED(n) _Alignas(n)
#endif
typedef struct { u8 a; i32 b; double c; u8 d[5]; } St; typedef struct { u32 f : 5; i32 g : 11; u64 h : 40; } Bf; typedef union { i64 q; double d; u8 b[8]; } Un; typedef struct { St s[3]; i64 *p; } Nest;
'''
K32 = '''
#ifndef __clang__
#pragma comment(lib, "kernel32")
#endif
__declspec(dllimport) void *CreateThread(void *, u64, u32 (*)(void *), void *, u32, u32 *);
__declspec(dllimport) u32 WaitForSingleObject(void *, u32); __declspec(dllimport) void Sleep(u32);
'''
SC = {'u8': (0, 200), 'u16': (0, 60000), 'i32': (-99999, 99999), 'i64': (-2**40, 2**40), 'float': (0, 999), 'double': (-999, 999)}


def source(r, nfiles=1):
    V = []; keys = set(); decl = {f: [] for f in range(nfiles)}; ext = []; pre = ['i64 shared_target[8] = {1, 2, 3, 4, 5, 6, 7, 8}; i32 helper(i32 a){ return a * 3 + 1; }']
    local = []                                # functions with a static thread local: name, type
    for k in range(r.randint(4, 16)):
        t = r.choice(['u8', 'u16', 'i32', 'i64', 'float', 'double', 'i32', 'i64', 'St', 'Bf', 'Un', 'Nest', 'arr', 'arr', 'ptr', 'fptr', 'str', 'big']); sp = r.choice(['__declspec(thread) ', '_Thread_local '])
        st = r.random() < .35; al = r.choice([0, 0, 0, 8, 16, 32, 64, 128, 256]); f = r.randrange(nfiles); n = f'v{k}'; ini = None; num = lambda t: (str(r.randint(*SC[t])) + ('.5' if t in ('float', 'double') else ''))
        z = r.random() < .3
        if t in SC: d = f'{t} {n}'; ini = num(t)
        elif t == 'St': d = f'St {n}'; ini = '{' + f'{r.randint(0, 255)}, {r.randint(-9, 999)}, {r.randint(0, 9)}.25, {{1, {r.randint(0, 255)}}}' + '}'
        elif t == 'Bf': d = f'Bf {n}'; ini = f'{{{r.randint(0, 31)}, {r.randint(-1024, 1023)}, {r.randint(0, 2**40 - 1)}}}'
        elif t == 'Un': d = f'Un {n}'; ini = f'{{{r.randint(-2**50, 2**50)}}}'
        elif t == 'Nest': d = f'Nest {n}'; ini = f'{{{{{{1, {r.randint(0, 99)}, 3.5}}, {{.b = {r.randint(0, 99)}}}}}, &shared_target[{r.randint(0, 7)}]}}'
        elif t == 'arr': e = r.choice(list(SC)); c = r.choice([1, 2, 3, 7, 16, 33]); d = f'{e} {n}[{c}]'; ini = '{' + ', '.join(num(e) for _ in range(r.randint(1, c))) + '}'; t = ('arr', e, c)
        elif t == 'ptr': d = f'i64 *{n}'; ini = f'&shared_target[{r.randint(0, 7)}]'
        elif t == 'fptr': d = f'i32 (*{n})(i32)'; ini = 'helper'
        elif t == 'str': d = f'char *{n}'; ini = f'"text{r.randint(0, 999)}"'
        else: c = r.choice([300, 5000, 40000]); d = f'u8 {n}[{c}]'; ini = f'{{[{c - 1}] = {r.randint(1, 255)}, [3] = 7}}'; t = ('arr', 'u8', c)
        tk = t if isinstance(t, str) else t[0] + t[1]
        a = f'ALIGNED({al}) ' if al else ''
        if al: keys.add(f'align{al}')
        keys |= {tk, 'zero' if z else 'init', 'static' if st else 'extern', sp.strip()}
        body = f'{d}' + ('' if z else f' = {ini}') + ';'
        V.append(dict(n=n, t=t, al=al or 1, f=f, st=st, k=k))
        if r.random() < .25:                  # a static in a function, seen through its address
            keys.add('in function'); V[-1]['fn'] = True; base = {'arr': t[1] if not isinstance(t, str) else ''}.get(t[0] if not isinstance(t, str) else '', t)
            q = f'static {a}{sp}{body}' if r.random() < .5 else f'{a}{sp}static {body}'
            decl[f].append(f'void *at{k}(void){{ {q} return (void *)&{n}; }}'); ext.append(f'void *at{k}(void);')
        else:
            decl[f].append(f'{"static " if st else ""}{a}{sp}{body}' if r.random() < .6 or not st else f'{a}{sp}static {body}')
            if st: decl[f].append(f'void *at{k}(void){{ return (void *)&{n}; }}'); ext.append(f'void *at{k}(void);'); V[-1]['fn'] = True
            else: ext.append(f'extern {a}{sp}{d};'); decl[f].append(f'void *at{k}(void){{ return (void *)&{n}; }}'); ext.append(f'void *at{k}(void);')
    def ty(v): return v['t'] if isinstance(v['t'], str) else v['t'][1]
    def cty(v):
        t = v['t']
        if not isinstance(t, str): return f'{t[1]}(*)[{t[2]}]'
        return {'ptr': 'i64 **', 'fptr': 'i32 (**)(i32)', 'str': 'char **'}.get(t, t + ' *')
    def obj(v, f):
        """an lvalue of the object"""
        if not v.get('fn') or (v['st'] and v['f'] == f and not v.get('fn')): 
            if r.random() < .75: return v['n']
        return f'(*({cty(v)})at{v["k"]}())'
    def rd(v, f):
        o = obj(v, f); t = v['t']
        if not isinstance(t, str): i = r.randrange(t[2]); return r.choice([f'{o}[{i}]', f'*({o} + {i})', f'{o}[(tid + {i}) % {t[2]}]'])
        return {'St': r.choice([f'{o}.a', f'{o}.b', f'(i64){o}.c', f'{o}.d[{r.randrange(5)}]', f'(&{o})->b']), 'Bf': r.choice([f'{o}.f', f'{o}.g', f'{o}.h']), 'Un': r.choice([f'{o}.q', f'{o}.b[{r.randrange(8)}]']),
            'Nest': r.choice([f'{o}.s[1].b', f'{o}.s[tid % 3].b', f'(i64){o}.s[0].c', f'*{o}.p', f'({o}.p - shared_target)']), 'ptr': r.choice([f'*{o}', f'({o} - shared_target)']), 'fptr': f'{o}(tid)', 'str': f'{o}[{r.randrange(4)}]'}.get(t, o)
    def guard(v, e): return f'({obj(v, 0)} ? (i64)({e}) : -1)' if v['t'] in ('ptr', 'fptr', 'str') else f'({obj(v, 0)}.p ? (i64)({e}) : -1)' if v['t'] == 'Nest' and ('.p' in e) else f'(i64)({e})'
    def wr(v, f):
        o = obj(v, f); t = v['t']; x = r.choice(['tid', 'tid * 3 + 1', 'ph', 'tid ^ ph', str(r.randint(0, 99)), 'tid + k'])
        if not isinstance(t, str): o = f'{o}[{r.choice([str(r.randrange(t[2])), f"(tid + {r.randrange(9)}) % {t[2]}"])}]'; t = v['t'][1]
        if t in SC:
            fl = t in ('float', 'double')
            if r.random() < .25 and not fl: return r.choice([f'{o}++;', f'--{o};', f'k += {o}++ & 7;', f'{{ {t} *p = &{o}; *p += ({t})({x}); }}'])
            return f'{o} {r.choice(["=", "+=", "-=", "*="] if fl else ["=", "+=", "-=", "^=", "|=", "<<="])} ({t})({x}{" & 3" if 1 else ""});'
        if t == 'St': return r.choice([f'{o}.b += {x};', f'{o}.d[tid % 5] = (u8)({x});', f'{o}.c = {x};', f'{{ St s = {o}; s.a++; s.b -= {x}; {o} = s; }}', f'{o} = (St){{1, {x}, 2.5}};'])
        if t == 'Bf': return r.choice([f'{o}.f += {x};', f'{o}.g = ({x}) & 511;', f'{o}.h ^= {x};', f'{o}.f++;'])
        if t == 'Un': return r.choice([f'{o}.q += {x};', f'{o}.b[tid & 7] = (u8)({x});'])
        if t == 'Nest': return r.choice([f'{o}.s[tid % 3].b = {x};', f'{o}.p = &shared_target[({x}) & 7];', f'{o}.s[2] = {o}.s[0];', f'{o}.s[1].d[2]++;'])
        if t == 'ptr': return r.choice([f'{o} = &shared_target[({x}) & 7];', f'{o} = 0;'])
        if t == 'fptr': return f'{o} = helper;'
        return f'{o} = "other{r.randint(0, 9)}";'
    NT = r.choice([2, 3, 4, 6]); PH = r.randint(1, 4)
    helpers = {f: [] for f in range(nfiles)}; calls = []
    for q in range(r.randint(1, 4)):
        f = r.randrange(nfiles); s = f'i64 step{q}(i32 tid, i32 ph, i64 k){{\n'
        for _ in range(r.randint(2, 8)): s += '    ' + wr(r.choice(V), f) + '\n'
        v = r.choice(V); s += f'    return k + {guard(v, rd(v, f))};\n}}\n'; helpers[f].append(s); calls.append(f'step{q}')
    ext += [f'i64 {q}(i32 tid, i32 ph, i64 k);' for q in calls] + ['extern i64 shared_target[8]; i32 helper(i32 a);']
    log = lambda: ''.join(f'    o[++o[0]] = (u64){guard(v, rd(v, 0))};\n' for v in r.sample(V, min(len(V), 8)))
    main = f'''
static u64 buf[{2 * NT + 1}][1000]; static void *volatile addr[{len(V)}][{2 * NT + 1}]; static volatile i32 flag[{2 * NT + 1}]; static volatile i32 alive;
static void meet(i32 tid, i32 ph, i32 n){{ flag[tid] = ph; for(i32 i = 0; i < n; i++) while(flag[i] < ph) Sleep(0); }}
static void work(i32 tid, i32 n){{
    u64 *o = buf[tid]; i64 k = 0;
''' + ''.join(f'    addr[{v["k"]}][tid] = {r.choice(["(void *)&" + obj(v, 0), f"at{v[chr(107)]}()"])}; o[++o[0]] = addr[{v["k"]}][tid] == at{v["k"]}(); o[++o[0]] = addr[{v["k"]}][tid] == (void *)&{obj(v, 0)};\n' for v in V) + log() + '''    meet(tid, 1, n);
'''
    # every thread sees its own initial values in full
    ini = ''.join(f'    {{ u8 *p = (u8 *)addr[{v["k"]}][tid]; u64 h = 0; for(u64 i = 0; i < {"sizeof(" + (v["t"] if isinstance(v["t"], str) else v["t"][1] + f"[{v[chr(116)][2]}]") + ")"}; i++) h = h * 31 + p[i]; o[++o[0]] = h; }}\n' for v in V if v['t'] not in ('ptr', 'fptr', 'str', 'Nest'))
    main += ini
    for p in range(PH):
        main += f'    {{ i32 ph = {p + 2};\n'
        for _ in range(r.randint(2, 9)): main += '    ' + (f'k = {r.choice(calls)}(tid, ph, k);' if r.random() < .3 else wr(r.choice(V), 0)) + '\n'
        main += log() + f'    meet(tid, {2 * p + 2}, n);\n'
        if r.random() < .4:
            w = [v for v in V if v['t'] in ('i32', 'i64', 'u8')]
            if w: v = r.choice(w); keys.add('by pointer from another thread'); main += f'    *({v["t"]} *)addr[{v["k"]}][(tid + 1) % n] += ({v["t"]})(tid + 100);\n'
        main += f'    meet(tid, {2 * p + 3}, n); }}\n'
    main += log() + '    o[++o[0]] = (u64)k;\n}\n'
    # a phase number must only grow: the phases are 1, 2.., and the last one times 1000
    main += f'static u32 thread(void *p){{ i64 x = (i64)p; work((i32)x, {NT}); return 0; }}\nstatic u32 late(void *p){{ i64 x = (i64)p; u64 *o = buf[x]; i32 tid = (i32)x;\n' + ''.join(f'    addr[{v["k"]}][tid] = at{v["k"]}();\n' for v in V) + ini + ''.join(f'    o[++o[0]] = (u64){guard(v, rd(v, 0))};\n' for v in V) + '    return 0; }\n'
    al = ''.join(f'    for(i32 i = 0; i < {NT}; i++) {{ LOG((u64)addr[{v["k"]}][i] % {v["al"]}); for(i32 j = 0; j < i; j++) bad += addr[{v["k"]}][i] == addr[{v["k"]}][j]; }}\n' for v in V)
    main += f'''
#define LOG(x) (out[++out[0]] = (u64)(x))
__declspec(dllexport) u64 t_0(u64 *out, u64 n, u64 a, u64 b){{ out[0] = 0;
    void *h[{NT}]; i32 bad = 0;
    for(i64 i = 1; i < {NT}; i++) h[i] = CreateThread(0, 0, thread, (void *)i, 0, 0);
    work(0, {NT});
    for(i64 i = 1; i < {NT}; i++) WaitForSingleObject(h[i], 0xffffffff);
{al}    for(i64 i = {NT}; i < {NT + 2}; i++){{ h[1] = CreateThread(0, 0, late, (void *)i, 0, 0); WaitForSingleObject(h[1], 0xffffffff); }}
    LOG(bad);
    for(i32 i = 0; i < {NT + 2}; i++) for(u64 j = 0; j <= buf[i][0]; j++) LOG(buf[i][j]);
    return out[0];
}}
'''
    keys |= {f'threads{NT}', f'files{nfiles}'}
    out = []
    for f in range(nfiles):
        own = [e for e in ext]
        out.append(PRE + (K32 if f == 0 else '') + '\n'.join(own) + '\n' + ('\n'.join(pre) + '\n' if f == nfiles - 1 else '') + '\n'.join(decl[f]) + '\n' + ''.join(helpers[f]) + (main if f == 0 else ''))
    return out + [sorted(keys)]
