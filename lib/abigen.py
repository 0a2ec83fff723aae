"""Two translation units that call each other's functions with random signatures; everything that crosses a call is logged."""
import random

PRE = '''#include <stdarg.h>
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
extern u64 *gout; extern volatile u64 gs[16]; extern double gd[8]; extern float gf[8];
static void lg(u64 x){ if(gout[0] < 3900) gout[++gout[0]] = x; }
#define LOG(x) lg((u64)(x))
static u64 dbits(double d){ union { double d; u64 u; } x; x.d = d; return x.u; }
static u64 fbits(float f){ union { float f; u32 u; } x; x.f = f; return x.u; }
typedef enum { E0, E1, E2 = 1000, E3 = -7 } En;
'''
INTS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, '_Bool': 1, 'char': 8, 'En': 32, 'long': 32}
SC = list(INTS) + ['float', 'double', 'float', 'double', 'void *', 'u64', 'i32']


class G:
    def __init__(self, r): self.r = r; self.n = 0; self.keys = set(); self.structs = []; self.sdecl = ''; self.fns = []; self.body = ['', '']
    def nm(self, p): self.n += 1; return f'{p}{self.n}'
    def struct(self):
        r = self.r; n = self.nm('S'); k = r.choice(['struct', 'struct', 'struct', 'union']); f = []; s = ''
        kind = r.random()
        if kind < .3:
            t = r.choice(['i8', 'u8', 'i16', 'i32', 'float', 'i64', 'double', 'u8']); m = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 32, 33]); s = f'{t} a[{m}]; '; f = [(f'a[{i}]', t) for i in range(m)]
            if m > 6: f = r.sample(f, 6)
            if k == 'union': k = 'struct'
        else:
            for i in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
                x = r.random(); m = f'm{i}'
                if x < .12 and k == 'struct': w = r.randint(1, 31); t = r.choice(['i32', 'u32']); s += f'{t} {m} : {w}; '; f.append((m, t))
                elif x < .25 and self.structs: q = r.choice(self.structs); s += f'{q[0]} {m}; '; f += [(m + '.' + a, b) for a, b in q[1]]
                else: t = r.choice(SC); s += f'{t} {m}; '; f.append((m, t))
            if k == 'union': f = f[:1]
        pk = r.random() < .1
        self.sdecl += ('#pragma pack(push, 1)\n' if pk else '') + f'typedef {k} {n} {{ {s}}} {n};\n' + ('#pragma pack(pop)\n' if pk else '')
        self.structs.append((n, f[:10]))
    def st(self, n): return next((x for x in self.structs if x[0] == n), None)
    def type(self, ret=False):
        r = self.r; x = r.random()
        if x < .25: return r.choice(self.structs)[0]
        if ret and x < .35: return 'void'
        if x < .33 and not ret: return r.choice(self.structs)[0] + ' *'
        return r.choice(SC)
    def logv(self, t, e):
        """statements logging value e of type t"""
        s = self.st(t)
        if s: return ' '.join(self.logv(ft, f'{e}.{m}') for m, ft in s[1])
        if t == 'float': return f'LOG(fbits({e}));'
        if t == 'double': return f'LOG(dbits({e}));'
        if t == 'void *': return f'LOG({e});'
        if t.endswith('*'): return self.logv(t[:-2], f'(*{e})')
        return f'LOG({e});'
    def val(self, t, env, d=0):
        """an expression of scalar or struct type t"""
        r = self.r; s = self.st(t); x = r.random()
        c = [n for n, ty in env if ty == t]
        if c and x < .3: return r.choice(c)
        if d < 2 and x < .45 and env is not None and self.callable and not self.nested:
            f = [f for f in self.callable if f['ret'] == t and not f['va']]
            if f: self.keys.add('nested call'); self.nested = True; return self.call(r.choice(f), env, d + 1)
        if s:
            if x < .5: self.keys.add('global struct arg'); return f'g{t}[{r.randrange(3)}]'
            if x < .7: return f'(&g{t}[0])[gs[{r.randrange(3)}] % 3]'
            return f'({t}){{ ' + (self.val(s[1][0][1], [], 9) if '.' not in s[1][0][0] else '') + ' }' if x < .85 else f'g{t}[{r.randrange(3)}]'
        if t == 'float': return r.choice([f'gf[{r.randrange(8)}]', f'(float)gd[{r.randrange(8)}]', '1.5f', '-0.0f', f'gf[{r.randrange(8)}] * 0.5f', f'(float)(i32)gs[{r.randrange(16)}]'])
        if t == 'double': return r.choice([f'gd[{r.randrange(8)}]', f'gf[{r.randrange(8)}]', '2.25', '-0.0', f'gd[{r.randrange(8)}] + 1.0', f'(double)(i32)gs[{r.randrange(16)}]'])
        if t == 'void *': return r.choice(['0', f'(void *)gs[{r.randrange(16)}]', '(void *)0x123456789a'])
        if t.endswith('*'): return f'&g{t[:-2]}[{r.randrange(3)}]'
        if t == '_Bool': return r.choice([f'gs[{r.randrange(16)}]', '0', '1', f'gs[{r.randrange(16)}] > gs[{r.randrange(16)}]', '256'])
        return r.choice([f'({t})gs[{r.randrange(16)}]', f'gs[{r.randrange(16)}]', f'({t})({r.choice(["-1", "0x8081", "127", "-128", "65535", "0x12345678"])})', f'({t})(gs[{r.randrange(16)}] >> {r.randrange(1, 60)})', f'({t})(i8)gs[{r.randrange(16)}]', str(r.randrange(100))]) if t != 'En' else r.choice(['E1', 'E2', 'E3', f'(En)(u32)gs[{r.randrange(16)}]'])
    def vval(self, t, env):
        v = self.val(t, env, 9); return f'({t})({v})' if not self.st(t) else v
    def call(self, f, env, d=0, ptr=None):
        if d == 0: self.nested = False
        a = [self.val(t, env, d) for t in f['args']] + [self.vval(t, env) for t in f['va']]
        return f'{ptr or f["name"]}({", ".join(a)})'
    def proto(self, f, name=None, names=False):
        a = [f'{t} {p}' if names else t for t, p in zip(f['args'], f['ps'])] + (['...'] if f['va'] else [])
        return f'{f["ret"]} {name or f["name"]}({", ".join(a) or "void"})'
    def source(self):
        r = self.r
        for _ in range(r.randint(3, 7)): self.struct()
        nf = r.randint(4, 9); self.callable = []; order = []
        for i in range(nf):
            f = dict(name=self.nm('f'), ret=self.type(True), home=r.randrange(2), va=[], cb=None)
            f['args'] = [self.type() for _ in range(r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 11]))]
            if r.random() < .2 and self.fns and not self.fns[-1]['va']: f['cb'] = r.choice([g for g in self.fns if not g['va']])
            if r.random() < .25: f['args'] = f['args'] or ['i32']; f['va'] = [r.choice(['i32', 'u32', 'i64', 'u64', 'double', 'double', 'void *', r.choice(self.structs)[0]]) for _ in range(r.randint(1, 7))]
            # C: the last named parameter of a variadic function must not be of a promoted type
            if f['va'] and (self.st(f['args'][-1]) or f['args'][-1] in ('float', '_Bool', 'i8', 'u8', 'i16', 'u16', 'char')): f['args'][-1] = 'i32'
            f['ps'] = [self.nm('p') for _ in f['args']]; self.fns.append(f)
            self.keys.update([f'ret {"struct" if self.st(f["ret"]) else f["ret"]}', f'args {len(f["args"])}', 'variadic' if f['va'] else 'fixed'])
            for k, t in enumerate(f['args']): self.keys.add(f'arg {min(k, 5)} {"struct" if self.st(t) else "ptr" if t.endswith("*") else t}')
        H = PRE + self.sdecl
        for s in self.structs: H += f'extern {s[0]} g{s[0]}[3], h{s[0]}[3];\n'
        for f in self.fns:
            H += f'extern {self.proto(f)};\n' + f'typedef {self.proto(f, "(*T" + f["name"] + ")")};\n'
        D = 'u64 *gout; volatile u64 gs[16]; double gd[8]; float gf[8];\n'
        for s in self.structs: D += f'{s[0]} g{s[0]}[3], h{s[0]}[3];\n'
        self.body[r.randrange(2)] += D
        for i, f in enumerate(self.fns):
            # functions call only earlier ones
            self.callable = self.fns[:i]; env = list(zip(f['ps'], f['args'])); b = []
            if r.random() < .4: b.append('_Alignas(16) volatile char al[16]; LOG((u64)al & 15); al[3] = 1;')
            if r.random() < .3: b.append('volatile char big[%d]; big[0] = 1; big[sizeof(big) - 1] = 2;' % r.choice([5000, 9000, 100, 40]))
            for p, t in env:
                if not t.endswith('*') or t == 'void *': b.append(self.logv(t, p))
                else: b.append(f'LOG({p} == &g{t[:-2]}[0]); ' + self.logv(t, p))
            if f['va']:
                last = f['ps'][-1]; cp = r.random() < .3; b.append(f'va_list va; va_start(va, {last});')
                if cp: b.append('va_list vb; va_copy(vb, va);'); self.keys.add('va_copy')
                for t in f['va']: b.append('{ %s v = va_arg(va, %s); %s }' % (t, t, self.logv(t, 'v')))
                if cp:
                    for t in f['va'][:3]: b.append('{ %s v = va_arg(vb, %s); %s }' % (t, t, self.logv(t, 'v')))
                    b.append('va_end(vb);')
                b.append('va_end(va);')
            for p, t in env:
                if r.random() < .4 and self.callable: b.append(self.stmt(env))
                if r.random() < .5: b.append(f'{p} = {self.val(t, [], 9)};' if not self.st(t) else f'{p}.{self.st(t)[1][0][0]} = 0;' if self.st(t)[1] else ''); self.keys.add('callee modifies parameter')
            self.nested = False
            if f['ret'] != 'void': b.append(f'return {self.val(f["ret"], env, 0)};')
            self.body[f['home']] += self.proto(f, None, True) + '{\n ' + '\n '.join(x for x in b if x) + '\n}\n'
        self.callable = self.fns
        for h in (0, 1):
            for k in range(2):
                env = []; b = ['gout = out; out[0] = 0; u64 z = 0x9e3779b97f4a7c15ull * (q | 1);', 'for(int i = 0; i < 16; i++){ z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; gs[i] = i % 5 == 0 ? z >> 40 : z; } for(int i = 0; i < 8; i++){ gd[i] = (double)(i64)(gs[i] >> 3) / 1024; gf[i] = (float)(i32)(u32)gs[15 - i] / 8; }']
                for s in self.structs:
                    for i in range(3):
                        for m, t in s[1]:
                            if '.' not in m: b.append(f'g{s[0]}[{i}].{m} = ' + ({'float': f'gf[{r.randrange(8)}]', 'double': f'gd[{r.randrange(8)}]', 'void *': f'(void *)gs[{r.randrange(16)}]', 'En': f'(En)(u32)gs[{r.randrange(16)}]'}.get(t) or f'({t})gs[{r.randrange(16)}]') + ';')
                for j in range(3):
                    t = r.choice(SC + [x[0] for x in self.structs]); v = self.nm('v'); b.append(f'{t} {v} = {self.val(t, env, 9)};'); env.append((v, t))
                for j in range(r.randint(3, 7)): b.append(self.stmt(env))
                for v, t in env: b.append(self.logv(t, v))
                self.body[h] += f'EXPORT u64 t_{h}{k}(u64 *out, u64 n, u64 q, u64 w){{\n ' + '\n '.join(b) + '\n return out[0];\n}\n'
        return H + self.body[0], H + self.body[1]
    def stmt(self, env):
        r = self.r; f = r.choice(self.callable); t = f['ret']; x = r.random(); ptr = None; pre = ''
        if x < .2: ptr = self.nm('q'); pre = f'T{f["name"]} {ptr} = {r.choice(["", "&"])}{f["name"]}; '; self.keys.add('function pointer')
        c = self.call(f, env, 0, ptr); s = self.st(t)
        if t == 'void': return f'{{ {pre}{c}; }}'
        y = r.random()
        if s and y < .25 and s[1]: m, mt = r.choice([m for m in s[1]]); self.keys.add('member of returned struct'); return f'{{ {pre}{mt} rr = {c}.{m}; {self.logv(mt, "rr")} }}'
        if s and y < .5: self.keys.add('struct assigned to global'); return f'{{ {pre}h{t}[1] = {c}; {self.logv(t, "h" + t + "[1]")} }}'
        if y < .6: return f'{{ {pre}{c}; }}'
        if t in INTS and y < .75: return f'{{ {pre}LOG({c}); }}'
        if t in INTS and y < .85: return f'{{ {pre}LOG(({c} + 3) * 5); if({c}) LOG(77); }}'
        if t == 'float' and y < .8: return f'{{ {pre}double rr = {c}; LOG(dbits(rr)); }}'
        return f'{{ {pre}{t} rr = {c}; {self.logv(t, "rr")} }}'


def sources(r):
    g = G(r); a, b = g.source(); return a, b, sorted(g.keys)
