"""Programs of several files that share functions and data in every way linkage allows."""
import random
from abigen import PRE

VAL = {'i8': 127, 'u8': 255, 'i16': 32767, 'u16': 65535, 'i32': 2147483647, 'u32': 4294967295, 'i64': 2**63 - 1, 'u64': 2**64 - 1}
SC = list(VAL)


class L:
    """fs[i]: text of file i; common: declarations at the start of every file"""
    def __init__(self, r, tls=False):
        self.r = r; self.nf = r.choice([2, 2, 3, 3, 4]); self.k = {f'{self.nf} files'}; self.n = 0; self.fs = [''] * self.nf; self.head = [''] * self.nf; self.common = ''; self.body = [[] for _ in range(self.nf)]
        self.data = []      # (name, type text, kind, count, static file or None, const)
        self.fns = []       # (name, file or None for all)
        self.tls = tls; self.calls = 0
        self.common += 'typedef struct P { i8 a; i32 b; u16 c[3]; double d; } P; typedef struct Q { char *s; u64 (*f)(u64, u64); i32 *p; float g; } Q; typedef union V { i64 a; double b; char c[24]; } V;\n'
        for _ in range(r.randint(6, 26)): self.datum()
        for _ in range(r.randint(3, 10)): self.func()
        for f in range(self.nf): self.local(f)
        for _ in range(r.randint(0, 8)): self.ptr()
        self.defs()
        for t in range(r.randint(1, 4)): self.driver(t)
    def nm(self, p):
        self.n += 1; x = self.r.random()
        return f'{p}{self.n}' if x < .6 else f'{p}{self.n}_with_a_longer_name' if x < .9 else (f'{p}{self.n}_8chars___')[:8]
    def lit(self, t):
        r = self.r
        if t in VAL:
            v = r.choice([r.randint(0, 99), r.randint(0, VAL[t]), VAL[t], 1]); v = -v if t[0] == 'i' and r.random() < .3 else v
            return f'{v}' + ('ull' if t == 'u64' else 'll' if t == 'i64' else 'u' if t == 'u32' else '')
        if t in ('float', 'double'): return f'{r.randint(-999, 999)}.{r.choice(["0", "5", "25", "125", "1", "3"])}' + ('f' if t == 'float' else '')
    def init(self, t, cnt):
        r = self.r
        def one():
            if t in VAL or t in ('float', 'double'): return self.lit(t)
            if t == 'P': return f'{{ {self.lit("i8")}, {self.lit("i32")}, {{ {self.lit("u16")}, {self.lit("u16")} }}, {self.lit("double")} }}'
            if t == 'V': return f'{{ {self.lit("i64")} }}'
        if not cnt: return one()
        if cnt >= 2000: return f'{{ [{cnt - 1}] = {one()} }}'
        o = []; at = 0
        for _ in range(r.randint(1, 9)):
            if r.random() < .2: at = r.randrange(cnt); o.append(f'[{at}] = {one()}')
            elif at < cnt: o.append(one())
            else: break
            at += 1
        return '{ ' + ', '.join(o) + ' }'
    def datum(self):
        r = self.r; t = r.choice(SC + ['float', 'double', 'P', 'V']); cnt = r.choice([0, 0, 0, 3, 7, 16, 100, 5000]) if r.random() < .9 else r.randint(1, 40)
        if t in ('P', 'V') and cnt > 200: cnt = 9
        kind = r.choice(['init', 'init', 'init', 'zero', 'zero', 'tent', 'selectany', 'const', 'tls' if self.tls else 'init']); home = r.randrange(self.nf); nm = self.nm('d'); al = ''
        if r.random() < .3: al = r.choice([f'__declspec(align({1 << r.randint(1, 12)})) ', f'_Alignas({1 << r.randint(4, 8)}) ']); self.k.add('aligned ' + kind)
        self.k.add(kind + (' array' if cnt else '') + ' ' + (t if t in ('P', 'V') else 'scalar'))
        ar = f'[{cnt}]' if cnt else ''; cq = 'const ' if kind == 'const' else ''; th = r.choice(['__declspec(thread) ', '_Thread_local ']) if kind == 'tls' else ''
        init = '' if kind in ('zero', 'tent') or (kind == 'tls' and r.random() < .3) else ' = ' + self.init(t, cnt)
        if kind == 'selectany':
            d = f'__declspec(selectany) {al}{t} {nm}{ar}{init};\n'; where = [f for f in range(self.nf) if r.random() < .6] or [home]
            for f in range(self.nf): self.head[f] += d if f in where else f'extern {t} {nm}{ar};\n'
        else:
            e = f'extern {al if r.random() < .5 and "declspec" in al else ""}{cq}{th}{t} {nm}{ar if r.random() < .8 or not cnt or kind == "tls" else "[]"};\n'
            for f in range(self.nf):
                if f != home or r.random() < .5: self.head[f] += e
            self.head[home] += f'{al}{cq}{th}{t} {nm}{ar}{init};\n' * (2 if kind == 'tent' else 1)
        self.data.append((nm, t, kind, cnt, None, (1 << 12) if 'align(' in al and False else int(al.split('(')[-1].split(')')[0]) if al else 1))
    def local(self, f):
        """things with the same name in several files"""
        r = self.r
        for nm in ('loc', 'cnt', 'tab'):
            if r.random() < .75:
                self.k.add('static ' + nm)
                if nm == 'loc': self.head[f] += f'static {r.choice(["", "const "])}i32 loc = {r.randint(1, 999)};\n'
                if nm == 'cnt': self.head[f] += 'static u64 cnt;\n'
                if nm == 'tab': self.head[f] += f'static u16 tab[{r.randint(2, 9)}] = {{ {r.randint(0, 99)}, {r.randint(0, 99)} }};\n'
                self.data.append((nm, {'loc': 'i32', 'cnt': 'u64', 'tab': 'u16'}[nm], 'const' if nm == 'loc' else 'static', 2 if nm == 'tab' else 0, f, 1))
    def func(self):
        r = self.r; nm = self.nm('f'); kind = r.choice(['extern', 'extern', 'extern', 'static', 'inline', 'noinline'])
        home = r.randrange(self.nf); self.k.add(kind + ' function')
        if kind == 'static':
            nm = f'sf{r.randint(0, 3)}'
            if any(x[0] == nm and x[1] == home for x in self.fns): return
            self.fns.append((nm, home)); self.head[home] += f'static u64 {nm}(u64 a, u64 b);\n'; self.body[home].append((nm, 'static '))
        elif kind == 'inline':
            k = self.r.randint(1, 99); self.common += f'static {r.choice(["inline", "__inline", "__forceinline"])} u64 {nm}(u64 a, u64 b){{ return a * {k} + (b ^ {r.randint(1, 999)}); }}\n'; self.fns.append((nm, None))
        else:
            self.fns.append((nm, None)); self.common += f'{"extern " if r.random() < .3 else ""}u64 {nm}(u64 a, u64 b);\n'; self.body[home].append((nm, '__declspec(noinline) ' if kind == 'noinline' else r.choice(['', '', 'extern '])))
    def seen(self, f): return [d for d in self.data if d[4] is None or d[4] == f]
    def callable(self, f): return [x[0] for x in self.fns if x[1] is None or x[1] == f]
    def addr(self, f):
        """address constant and a matching reading expression suffix"""
        r = self.r; d = r.choice([x for x in self.seen(f) if x[2] != 'tls' and x[1] not in ('ptr', 'fptr', 'str', 'Q')] or [('*"x"', 'u8', 'const', 0)]); nm, t, kind, cnt = d[:4]
        if t in ('P', 'V'):
            i = f'[{r.randrange(cnt)}]' if cnt else ''
            return r.choice([f'&{nm}{i}.{"b" if t == "P" else "c[5]"}', f'{nm}{i}.c + 1'])
        if cnt: i = r.randrange(min(cnt, 5000)); return r.choice([f'{nm} + {i}', f'&{nm}[{i}]', f'&({nm} + {cnt})[-{max(cnt - i, 1)}]'])
        return f'&{nm}'
    def ptr(self):
        """objects whose initializers hold addresses"""
        r = self.r; f = r.randrange(self.nf); nm = self.nm('p'); x = r.random(); st = r.choice(['', '', 'static ', 'const '])
        if x < .35: self.k.add('address in initializer'); self.head[f] += f'{st}void *{nm} = (void *)({self.addr(f)});\n'; self.data.append((nm, 'ptr', 'const' if 'const' in st else 'init', 0, f, 1))
        elif x < .6 and self.callable(f):
            m = r.randint(1, 6); self.k.add('function addresses'); self.head[f] += f'{st}u64 (*{nm}[{m}])(u64, u64) = {{ {", ".join(r.choice(["", "&"]) + r.choice(self.callable(f)) for _ in range(m))} }};\n' if 'const' not in st else f'u64 (*const {nm}[{m}])(u64, u64) = {{ {", ".join(r.choice(self.callable(f)) for _ in range(m))} }};\n'; self.data.append((nm, 'fptr', 'const', m, f, 1))
        elif x < .8: self.k.add('string address'); self.head[f] += f'{"static " if st == "static " else ""}{"const " if st == "const " else ""}char *{nm} = "string {r.choice("abc")}" + {r.randint(0, 5)};\n'; self.data.append((nm, 'str', 'const', 0, f, 1))
        else: self.k.add('struct of addresses'); self.head[f] += f'{st}Q {nm} = {{ "q{r.randint(1, 5)}", {r.choice(self.callable(f) or ["0"])}, (i32 *)({self.addr(f)}), {self.lit("float")} }};\n'; self.data.append((nm, 'Q', 'const', 0, f, 1))
    def read(self, f, fn=None):
        r = self.r; d = r.choice(self.seen(f)); nm, t, kind, cnt, _, al = d; q = []
        if t == 'ptr': return f'*(u8 *){nm} + (u64)(*(char *)&{nm} == *(char *)&{nm})'
        if t == 'fptr': return f'{nm}[{r.randrange(cnt)}](3, {r.randint(0, 9)})' if self.may else f'({nm}[0] == {nm}[{r.randrange(cnt)}])'
        if t == 'str': return f'{nm}[{r.randint(0, 2)}]'
        if t == 'Q': return r.choice([f'{nm}.s[1]', f'*(u8 *){nm}.p', f'fbits({nm}.g)'] + ([f'{nm}.f(5, 6)'] if self.may and '0' not in nm[:0] else []))
        if al > 1 and r.random() < .3: return f'((u64)&{nm} & {al - 1})'
        i = f'[{r.choice([0, cnt - 1, r.randrange(cnt)])}]' if cnt else ''
        if t == 'P': return r.choice([f'{nm}{i}.a', f'{nm}{i}.b', f'{nm}{i}.c[{r.randrange(3)}]', f'dbits({nm}{i}.d)'])
        if t == 'V': return r.choice([f'{nm}{i}.a', f'{nm}{i}.c[{r.randrange(8)}]'])
        if t == 'float': return f'fbits({nm}{i})'
        if t == 'double': return f'dbits({nm}{i})'
        return f'{nm}{i}'
    def write(self, f):
        r = self.r; c = [x for x in self.seen(f) if x[2] != 'const' and x[1] in SC + ['float', 'double', 'P', 'V']]
        if not c: return ''
        nm, t, kind, cnt = r.choice(c)[:4]; i = f'[{r.choice([0, cnt - 1, r.randrange(cnt)])}]' if cnt else ''; v = r.choice(['a', 'b', '(a ^ b)', str(r.randint(0, 99))])
        if t == 'P': return f'{nm}{i}.{r.choice(["a", "b", "c[1]"])} += {v};'
        if t == 'V': return f'{nm}{i}.a ^= {v};'
        if t in ('float', 'double'): return f'{nm}{i} = ({t})({r.randint(0, 99)}) / 4;'
        return f'{nm}{i} {r.choice(["=", "+=", "^=", "-="])} ({t}){v};'
    def defs(self):
        """bodies only call functions through the shared depth counter, so that recursion ends"""
        r = self.r; self.may = False
        for f in range(self.nf):
            for nm, pre in self.body[f]:
                s = f'{pre}u64 {nm}(u64 a, u64 b){{\n'; self.may = False
                for _ in range(r.randint(1, 5)):
                    x = r.random()
                    if x < .3: s += f'  LOG({self.read(f)});\n'
                    elif x < .5: s += f'  {self.write(f)}\n'
                    elif x < .6: s += f'  {{ {r.choice(["_Thread_local static", "static __declspec(thread)", "static", "static"]) if self.tls else "static"} {r.choice(["u32", "i16", "u64"])} calls{r.choice(["", " = 5"])}; LOG(++calls); }}\n'; self.k.add('static local')
                    elif x < .68: s += f'  {{ static char text[] = "{nm}"; static char *at = text + 1; text[0]++; LOG(text[0] + at[0]); }}\n'; self.k.add('static local address')
                    elif x < .76: s += f'  LOG("{nm} text"[a % {len(nm) + 5}]);\n'
                    elif x < .84: s += '  switch(a % 23){ ' + ' '.join(f'case {c}: b {r.choice(["+=", "^=", "*="])} {r.randint(1, 999)}; {r.choice(["break;", ""])}' for c in range(r.randint(2, 22))) + ' default: b++; }\n'; self.k.add('switch')
                    elif x < .9: s += f'  {{ double d = (double)(i32)a * {self.lit("double")} + {self.lit("float")}; LOG(dbits(d)); }}\n'
                    else: s += f'  {{ P p = {self.init("P", 0)}; p.b += (i32)a; LOG(p.b); LOG(p.c[1]); }}\n'
                    if x > .86 and self.callable(f): s += f'  if(depth < 5){{ depth++; LOG({r.choice(self.callable(f))}(b, {r.randint(0, 99)})); depth--; }}\n'
                self.fs[f] += s + f'  return a {r.choice("+-^")} b * {r.randint(1, 9)};\n}}\n'
    def bigtab(self, f):
        """addresses in objects of many pages: the place of every one of them counts"""
        r = self.r; nm = self.nm('big'); o = ''; n = r.choice([60, 520, 700, 1500, 4100]); at = sorted({0, n - 1, *(min(n - 1, k) for k in (511, 512, 513, 1024)), *(r.randrange(n) for _ in range(r.randint(3, 40)))})
        E = {k: self.addr(f) for k in at}; st = r.choice(['static ', '', 'static const '])
        if r.random() < .6:
            self.k.add('table of addresses over pages'); o = f'{st.replace("const ", "")}void *{nm}[{n}] = {{ {", ".join(f"[{k}] = (void *)({E[k]})" for k in at)} }};\n'
            self.head[f] += o; return f'  {{ u64 k = 0; for(u64 i = 0; i < {n}; i++) k += {nm}[i] != 0; LOG(k); }}\n' + ''.join(f'  LOG({nm}[{k}] == (void *)({E[k]}));\n' for k in r.sample(at, min(len(at), 12)))
        self.k.add('misaligned addresses over pages'); q = [r.choice([4093, 4090, 4088, 4096, 8185, 4095, 1, 3]) for _ in range(r.randint(1, 4))]
        es = [self.addr(f) for _ in q]; self.head[f] += '#pragma pack(push, 1)\n' + f'static struct {{ {" ".join(f"u8 pad{i}[{x}]; void *p{i};" for i, x in enumerate(q))} }} {nm} = {{ {", ".join(f".p{i} = (void *)({e})" for i, e in enumerate(es))} }};\n#pragma pack(pop)\n'
        return ''.join(f'  LOG({nm}.p{i} == (void *)({e}));\n' for i, e in enumerate(es)) + f'  {{ u64 k = 0; u8 *b = (u8 *)&{nm}; for(u64 i = 0; i < sizeof {nm}.pad0; i++) k += b[i]; LOG(k); }}\n'
    def driver(self, t):
        r = self.r; f = r.randrange(self.nf); self.may = True
        s = f'EXPORT u64 t_{t}(u64 *out, u64 n, u64 q, u64 w){{\n  u64 a = {r.randint(1, 999)}, b = {r.randint(1, 9)}; out[0] = 0; gout = out;\n'
        for _ in range(r.randint(4, 14)):
            x = r.random(); c = self.callable(f)
            if x < .35 and c: s += f'  LOG({r.choice(c)}({r.choice(["a", "b", "7"])}, {r.choice(["b", "q * 0 + 3", "100"])}));\n'
            elif x < .8: s += f'  LOG({self.read(f)});\n'
            elif x < .85 and len(c) > 1: s += f'  LOG(&{c[0]} == {c[-1]});\n'
            else: s += f'  {self.write(f)}\n'
        if r.random() < .35: s += self.bigtab(f)
        self.fs[f] += s + '  return out[0];\n}\n'
        if t == 0: self.gfile = r.randrange(self.nf)
    def sources(self):
        o = []
        for f in range(self.nf):
            x = PRE + 'extern i32 depth;\n' + self.common + self.head[f]
            if f == self.gfile: x += 'u64 *gout; volatile u64 gs[16]; double gd[8]; float gf[8]; i32 depth;\n'
            o.append(x + self.fs[f])
        return o, sorted(self.k)
