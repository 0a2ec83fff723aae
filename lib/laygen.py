"""Random type definitions; logs sizes, alignments, offsets and the bits every bit-field occupies."""
from cgen import PRELUDE
SC = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'float', 'double', 'long', 'unsigned long', 'char', '_Bool', 'void *', 'int (*%s)(int)', 'enum en', 'long double']
BF = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'long', 'unsigned long', 'char', 'int', 'unsigned', '_Bool']
BW = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i64': 64, 'u64': 64, 'char': 8, '_Bool': 1}


class G:
    def __init__(self, r): self.r = r; self.k = 0; self.types = []; self.keys = set()
    def n(self, p='m'): self.k += 1; return f'{p}{self.k}'
    def body(self, d, union, packed):
        """-> (text, list of (path, kind)) kind: 'm' addressable member, 'b' bit-field"""
        r = self.r; s = ''; L = []
        i = 0; N = r.randint(1, 6)
        while i < N:
            i += 1; k = r.random()
            if k < .3:
                for _ in range(r.randint(1, 5)):
                    t = r.choice(BF) if r.random() < .6 else 'u32'; w = r.randint(1, BW.get(t, 32)); m = r.random()
                    if m < .1: s += f'{t} : 0; '; self.keys.add(('bf0', t, packed))
                    elif m < .18: s += f'{t} : {w}; '; self.keys.add(('bfanon', t, packed))
                    else: n = self.n('b'); s += f'{t} {n} : {w}; '; L.append((n, 'b')); self.keys.add(('bf', t, packed, union))
            elif k < .42 and d > 0:
                u = r.random() < .5; b, l = self.body(d - 1, u, packed); anon = r.random() < .5; n = '' if anon else self.n()
                al = r.choice(['', '', '', '__declspec(align(8)) ', '__declspec(align(16)) ']) 
                s += f'{"union" if u else "struct"} {al}{{ {b}}} {n}; '; L += [((n + '.' if n else '') + p, q) for p, q in l]; self.keys.add(('nested', u, anon, packed, bool(al)))
                if not anon: L.append((n, 'm'))
            elif k < .55 and self.types:
                t, kw, l = r.choice(self.types); n = self.n(); arr = r.choice(['', '', f'[{r.randint(1, 3)}]']); s += f'{t} {n}{arr}; '; L.append((n, 'm')); self.keys.add(('struct member', packed, bool(arr)))
                if not arr: L += [(n + '.' + p, q) for p, q in l[:3]]
            else:
                t = r.choice(SC); n = self.n(); al = ''
                if r.random() < .12: al = r.choice([f'__declspec(align({r.choice([1, 2, 4, 8, 16, 32])})) ', f'_Alignas({r.choice([8, 16, 32, 64])}) ', '_Alignas(double) '])
                arr = r.choice(['', '', '', f'[{r.randint(1, 5)}]', f'[2][{r.randint(1, 3)}]'])
                if '%s' in t: s += al + t % n + '; '
                else: s += f'{al}{t} {n}{arr}; '
                L.append((n, 'm')); self.keys.add(('scalar', t, packed, union, al.strip()[:12], bool(arr)))
        if not L: n = self.n(); s += f'i16 {n}; '; L.append((n, 'm'))
        return s, L
    def typ(self):
        r = self.r; union = r.random() < .2; n = self.n('T'); pk = r.choice([0, 0, 0, 1, 2, 4, 8, 16]); pre = post = ''
        if pk:
            m = r.random()
            if m < .5: pre = f'#pragma pack(push, {pk})\n'; post = '\n#pragma pack(pop)'
            elif m < .8: pre = f'#pragma pack({pk})\n'; post = '\n#pragma pack()'
            else: pre = f'#pragma pack(push)\n#pragma pack({pk})\n'; post = '\n#pragma pack(pop)'
        b, L = self.body(2, union, pk)
        kw = 'union' if union else 'struct'; al = r.choice(['', '', '', '', f'__declspec(align({r.choice([8, 16, 32, 64])})) '])
        if not L: b += 'int zz; '; L.append(('zz', 'm'))
        if not union and r.random() < .12: f = self.n('fl'); b += f'{r.choice(["i32", "u8", "double", "u16"])} {f}[]; '; self.keys.add(('flexible', pk)); flex = True
        else: flex = False
        if r.random() < .5: d = f'typedef {kw} {al}{n} {{ {b}}} {n};'; nm = n
        else: d = f'{kw} {al}{n} {{ {b}}};'; nm = f'{kw} {n}'
        if not flex: self.types.append((nm, kw, L))
        return pre + d + post, nm, L
    def source(self):
        r = self.r; g = '#define AL(x) ((x) > 16 ? 16 : (x))\nenum en { A_, B_ = 5 };\n#define OFF(T, m) ((u64)&((T*)0x100000)->m - 0x100000)\n'; t = []
        for i in range(r.randint(3, 7)):
            d, nm, L = self.typ(); g += d + '\n'; b = f'LOG(sizeof({nm})); LOG(_Alignof({nm})); LOG(sizeof({nm}[3])); {{ struct q {{ char c; {nm} t; }}; LOG(OFF(struct q, t)); LOG(sizeof(struct q)); }}\n'
            if r.random() < .5: g += f'{nm} G{i}; char pad{i}; {nm} H{i}[2];\n'; b += f'LOG((u64)&G{i} % _Alignof({nm})); LOG((u64)&H{i} % _Alignof({nm})); LOG((u64)((char*)&H{i}[1] - (char*)&H{i}[0])); {{ {nm} l; LOG((u64)&l % AL(_Alignof({nm}))); char c_; {nm} l2[2]; LOG((u64)&l2 % AL(_Alignof({nm}))); }}\n'
            for p, q in L[:40]:
                if q == 'm': b += f'LOG(OFF({nm}, {p})); LOG(sizeof((({nm}*)0)->{p}));\n' + (f'LOG(__builtin_offsetof({nm}, {p}));\n' if 0 else '')
                else: b += f'{{ union {{ {nm} t; u8 c[sizeof({nm})]; }} x; for(int i = 0; i < sizeof(x.c); i++) x.c[i] = 0; x.t.{p} = -1; for(int i = 0; i < sizeof(x.c); i++) if(x.c[i]) LOG(i << 8 | x.c[i]); LOG(x.t.{p}); for(int i = 0; i < sizeof(x.c); i++) x.c[i] = 0xff; x.t.{p} = 0; for(int i = 0; i < sizeof(x.c); i++) if(x.c[i] != 0xff) LOG(i << 8 | x.c[i]); }}\n'
            t.append(f'EXPORT u64 t_{i}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0;\n{b}return out[0]; }}')
        return PRELUDE + g + '\n'.join(t)


def source(r):
    g = G(r); s = g.source(); return s, sorted(g.keys, key=repr)
