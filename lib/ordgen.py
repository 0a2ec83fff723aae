"""Programs as a set of global declarations whose order and distribution over files are free."""
import random

BASE = '''typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
'''
MACROS = '''#define EXPORT __declspec(dllexport)
#define LOG(x) (out[++out[0]] = (u64)(x))
'''
SC = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']


class Prog:
    def __init__(self, r):
        self.r = r; self.k = set(); self.types = []; self.enums = []; self.items = []; self.n = 0
        self.nf = r.randint(1, 4)                      # number of files
        self.consts = ['3', '5', '2']                  # small positive constant expressions, all with type names declared by lower items
        self.structs = []; self.typedefs = []; self.globs = []; self.funcs = []; self.fn = []
        for _ in range(r.randint(10, 34)): r.choice([self.struct, self.struct, self.enum, self.typedef, self.glob, self.glob, self.func, self.func, self.func, self.fptr, self.sassert])()
        self.driver()
    def add(self, kind, text, proto=None, ref=None, file=None):
        """ref: text for the reference when it differs (order matters there)"""
        self.items.append(dict(kind=kind, text=text, proto=proto, ref=ref or text, file=self.r.randrange(self.nf) if file is None else file)); self.n += 1
    def sassert(self):
        c = self.const(); self.k.add('static assert'); self.add('type', f'_Static_assert(({c}) * 2 - ({c}) == ({c}){"" if self.r.random() < .5 else " && sizeof(i32) == 4"}, "holds");')
    def const(self):
        r = self.r; x = r.random()
        if x < .6: return r.choice(self.consts)
        return f'({r.choice(self.consts)} {r.choice(["+", "*", "|"])} {r.choice(self.consts)})'
    def ty(self, byvalue=True):
        """a complete type and how to make a value of it"""
        r = self.r; x = r.random()
        if x < .5 or not (self.structs or self.typedefs): return r.choice(SC)
        if x < .65 and self.enums: return f'enum {r.choice(self.enums)}'
        if x < .85 and self.structs and byvalue: return r.choice(self.structs)
        s = [t for t, k in self.typedefs if k == 'scalar']
        return r.choice(s) if s else r.choice(SC)
    def struct(self):
        r = self.r; i = self.n; kw = r.choice(['struct', 'struct', 'struct', 'union']); m = []; self.k.add(kw)
        for j in range(r.randint(1, 5)):
            x = r.random()
            if x < .12: m.append(f'struct S{r.randrange(60)} *p{j};'); self.k.add('pointer to any struct')
            elif x < .25: m.append(f'{self.ty()} a{j}[{self.const()}];'); self.k.add('array sized by constant')
            elif x < .32: m.append(f'i32 b{j} : {r.randint(1, 9)};')
            elif x < .4: m.append(f'{self.ty()} (*f{j})({self.ty()}, struct S{r.randrange(60)} *);'); self.k.add('function pointer member')
            elif x < .48: m.append(f'struct {{ {self.ty()} x; {self.ty()} y[{self.const()}]; }} n{j};'); self.k.add('anonymous')
            else: m.append(f'{self.ty()} m{j};')
        m.append('i32 v;'); nm = f'{kw} {"S" if kw == "struct" else "U"}{i}'
        self.add('type', f'{nm} {{ {" ".join(m)} }};'); self.structs.append(nm); self.consts += [f'(sizeof({nm}) & 7 | 1)', f'(_Alignof({nm}) % 5 + 1)']
    def enum(self):
        r = self.r; i = self.n; m = []
        for j in range(r.randint(1, 4)): m.append(f'E{i}_{j}' + (f' = ({self.const()}) % 7 + {j + 1}' if r.random() < .6 else f' = {r.randint(1, 9)}'))
        self.add('type', f'enum E{i} {{ {", ".join(m)} }};'); self.enums.append(f'E{i}'); self.consts += [f'E{i}_{j}' for j in range(len(m))]; self.k.add('enum')
    def typedef(self):
        r = self.r; i = self.n; x = r.random(); self.k.add('typedef')
        if x < .5: t = self.ty(False); self.add('type', f'typedef {t} T{i};'); self.typedefs.append((f'T{i}', 'scalar')); self.consts.append(f'sizeof(T{i})')
        elif x < .75: self.add('type', f'typedef {self.ty()} T{i}[{self.const()}];'); self.typedefs.append((f'T{i}', 'array')); self.consts.append(f'(sizeof(T{i}) % 6 + 1)'); self.k.add('array typedef')
        else: s = self.ty(); self.add('type', f'typedef {s} T{i};'); self.structs.append(f'T{i}') if s in self.structs else self.typedefs.append((f'T{i}', 'scalar')); self.consts.append(f'(sizeof(T{i}) & 3 | 2)')
    def glob(self):
        r = self.r; i = self.n; x = r.random()
        if x < .3:
            t = r.choice(SC); e = self.const() + (f' - {r.randint(0, 99)}' if t[0] == 'i' else '')
            self.add('glob', f'{t} g{i} = {e};', f'extern {t} g{i};'); self.globs.append((f'g{i}', 'scalar')); self.k.add('initialized scalar')
        elif x < .45:
            n = r.randint(1, 6); self.add('glob', f'i32 g{i}[] = {{ {", ".join(self.const() for _ in range(n))} }};', f'extern i32 g{i}[{n}];'); self.globs.append((f'g{i}', f'array{n}')); self.k.add('unsized array')
            # its size may be used by others of the same file only where the definition is known: the reference sees the prototype with the size
            self.consts.append(f'(sizeof(g{i}) / 4)')
        elif x < .6:
            t = self.ty(); self.add('glob', f'{t} g{i};', f'extern {t} g{i};'); self.k.add('tentative')
            if t in self.structs: self.globs.append((f'g{i}', 'struct'))
            else: self.globs.append((f'g{i}', 'scalar'))
        elif x < .75:
            t = f'i32 g{i}[{self.const()} + 1]'; self.add('glob', f'{t} = {{ {self.const()}, {self.const()} }};', f'extern {t};'); self.globs.append((f'g{i}', 'array2'))
        elif x < .9:
            g = self.globs and r.choice([a for a, k in self.globs]) or None
            self.add('glob', f'void *g{i} = {"&" + g if g else "0"};', f'extern void *g{i};'); self.globs.append((f'g{i}', f'ptr {g}')); self.k.add('address of another')
        else:
            t = r.choice(SC); self.add('glob', f'extern {t} g{i};\n{t} g{i};\n{t} g{i} = {self.const()};', f'extern {t} g{i};'); self.globs.append((f'g{i}', 'scalar')); self.k.add('redeclared')
    def fptr(self):
        r = self.r; i = self.n
        c = [(f, fi) for f, fi, st in self.funcs if not st]
        if not c: return
        fs = [r.choice(c)[0] for _ in range(r.randint(1, 3))]
        self.add('glob', f'i64 (*const g{i}[])(i32) = {{ {", ".join(r.choice(["", "&"]) + f for f in fs)} }};', f'extern i64 (*const g{i}[{len(fs)}])(i32);'); self.globs.append((f'g{i}', f'fn {len(fs)}')); self.k.add('function table')
    def use(self, f):
        """a statement adding something to h; only lower functions are called"""
        r = self.r; x = r.random()
        if x < .16: return f'h += {self.const()};'
        if x < .28: t = self.ty(); self.k.add('sizeof in body'); return f'h = h * 3 + sizeof({t}) + _Alignof({t});'
        if x < .45 and self.structs:
            t = r.choice(self.structs); return f'{{ {t} l = {{ 0 }}; {t} *lp = &l; lp->v = (i32)h; h += l.v * 5 + sizeof(*lp); }}' if r.random() < .8 else f'h += (({t}[2]){{ [1] = {{ .v = x }} }})[1].v;'
        if x < .65 and self.globs:
            g, k = r.choice(self.globs)
            if k == 'scalar': return r.choice([f'h += {g};', f'{g} += x;', f'h ^= (u64)({g}++);'])
            if k.startswith('array'): return f'h += {g}[x & 0] + sizeof({g});' if k != 'array' else ''
            if k == 'struct': return r.choice([f'{g}.v += x;', f'h += {g}.v;'])
            if k.startswith('ptr'): return f'h += g_is({g}, {"&" + k[4:] if k[4:] != "None" else "0"});' .replace('g_is', 'u64_same')
            return f'if(x > 0) h += {g}[(u32)x % {k[3:]}](x - 1);'
        if x < .85:
            c = [g for g, fi, st in self.funcs if not st or fi == f]
            if c: self.k.add('call'); return f'if(x > 0) h = h * 7 + {r.choice(c)}(x - 1);'
            return 'h += 2;'
        if x < .93: self.k.add('private symbol'); return r.choice(['h += @priv@;', '@priv@ += 3; h ^= @priv@;', 'if(x > 0) h += @privf@(x - 1);'])
        return f'{{ static i32 ls = {self.const()}; h += ls++; }}'
    def func(self):
        r = self.r; i = self.n; f = r.randrange(self.nf); st = r.random() < .3
        nm = f'f{i}'; b = ' '.join(self.use(f) for _ in range(r.randint(1, 5)))
        pre = r.choice(['static ', 'static ', 'static __inline ']) if st else ''
        if st: self.k.add('static function')
        self.add('func', f'{pre}i64 {nm}(i32 x){{ i64 h = {i}; {b} return h; }}', f'{pre}i64 {nm}(i32 x);', file=f); self.funcs.append((nm, f, st))
    def driver(self):
        r = self.r; b = ''
        for fi in range(self.nf):
            c = [g for g, f, st in self.funcs if f == fi or not st]; t = ''.join(f'LOG({g}({r.randint(0, 3)})); ' for g in c)
            self.add('priv', f'static i32 @priv@ = {fi + 10};\nstatic i64 @privf@(i32 x){{ @priv@++; return @priv@ * {fi + 2} + x; }}', f'static i32 @priv@; static i64 @privf@(i32 x);', file=fi)
            self.add('func', f'EXPORT u64 t_{fi}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; {t} LOG(@privf@(1)); LOG(@priv@); {"".join(f"LOG(sizeof({s})); " for s in self.structs)}{"".join(f"LOG({g}); " for g, k in self.globs if k == "scalar")} return out[0]; }}', file=fi)
        self.add('func', 'u64 u64_same(void *a, void *b){ return a == b ? 11 : 22; }', 'u64 u64_same(void *a, void *b);', file=0)
    def priv(self, t, f): return t.replace('@priv@', f'priv_{f}').replace('@privf@', f'privf_{f}')
    def reference(self):
        it = self.items; out = BASE + MACROS
        # types and the sizes of arrays in creation order, then every prototype, then definitions
        for x in it: out += (self.priv(x['ref'], x['file']) if x['kind'] == 'type' else self.priv(x['proto'], x['file']) if x['proto'] and x['kind'] in ('glob', 'func') else self.priv(x['proto'] or '', x['file'])) + '\n'
        for x in it:
            if x['kind'] != 'type': out += self.priv(x['text'], x['file']) + '\n'
        return out
    def one_file(self, r):
        """all declarations in a random order in one file"""
        L = [self.priv(x['text'], x['file']) for x in self.items] + [t + ';' for t in BASE.strip().rstrip(';').split(';')]; L = [x.strip() for x in L]
        r.shuffle(L); return {'p0.c': MACROS + '\n'.join(L) + '\n'}
    def files(self, r, header=False, extra_proto=False):
        """distributed over files; types go anywhere (they are shared) or into a header"""
        F = [[] for _ in range(self.nf)]; H = []
        base = [t.strip() + ';' for t in BASE.strip().rstrip(';').split(';')]
        for t in base: (H if header else F[r.randrange(self.nf)]).append(t)
        for x in self.items:
            if x['kind'] == 'type': (H if header else F[r.randrange(self.nf)]).append(x['text'])
            else:
                F[x['file']].append(x['text'].replace('@priv@', 'priv').replace('@privf@', 'privf'))
                if extra_proto and x['proto'] and 'static' not in x['proto'] and r.random() < .4: F[r.randrange(self.nf)].append(x['proto'])
        for f in F: r.shuffle(f)
        r.shuffle(H); out = {}
        for i, f in enumerate(F):
            if header: f.insert(r.randint(0, len(f)), '#include "h.h"')
            out[f'p{i}.c'] = MACROS + '\n'.join(f) + '\n'
        if header: out['h.h'] = r.choice(['#pragma once\n', '', '#ifndef H_H\n#define H_H\n']) ; out['h.h'] += '\n'.join(H) + '\n' + ('#endif\n' if '#ifndef' in out['h.h'] else '')
        return out


def tables(r, pers=(20, 40, 60, 90)):
    """Many global names in many files, all used across files, types used before they are declared: every table of names has to grow several times while threads use it."""
    nu = r.randint(4, 9); fs = {}; per = r.choice(pers); tot = nu * per
    kinds = ['struct', 'typedef', 'glob', 'func', 'static', 'static', 'array', 'enum']
    unit = [r.randrange(nu) for _ in range(tot)]; kind = [r.choice(kinds) for _ in range(tot)]; txt = [[] for _ in range(nu)]
    of = lambda k, i, same=None: [j for j in range(max(0, i - 60), i) if kind[j] == k and (same is None or unit[j] == same)]
    sums = [[] for _ in range(nu)]
    for i in range(tot):
        u = unit[i]; k = kind[i]; dep = of('struct', i); td = of('typedef', i); ec = of('enum', i); fn = of('func', i); st = of('static', i, u); gl = of('glob', i)
        if k == 'struct': m = ''.join(f' struct S{j} m{j};' for j in r.sample(dep, min(len(dep), r.choice([0, 0, 1])))) ; t = f'struct S{i} {{ {r.choice(["i32", "u8", "i64"])} a;{m} }};'
        elif k == 'typedef': t = f'typedef {"struct S%d" % r.choice(dep) if dep else "i32"} T{i};'
        elif k == 'enum': t = f'enum E{i} {{ C{i} = {i % 7 + 1} + {"C%d" % r.choice(ec) if ec and i % 5 else "0"} }};'
        elif k == 'array': t = f'u8 A{i}[sizeof({"struct S%d" % r.choice(dep) if dep else "i32"}) % 64 + {"C%d" % r.choice(ec) if ec else "2"}];'; sums[u].append(f'sizeof(A{i})')
        elif k == 'glob': t = f'u64 G{i} = {i};'; sums[u].append(f'G{i}')
        elif k == 'func':
            x = [f'F{j}()' for j in r.sample(fn, min(len(fn), 1))] + [f'G{j}' for j in r.sample(gl, min(len(gl), 2))] + [f's{j % 50}_()' for j in []] + [f'sizeof(T{j})' for j in r.sample(td, min(len(td), 1))]
            t = f'u64 F{i}(void){{ return {" + ".join([str(i)] + x)}; }}'; sums[u].append(f'F{i}()')
        else: t = f'static u64 s{i}(u64 x){{ return x * {i} + {"s%d(x)" % r.choice(st) if st else "1"}; }}'; sums[u].append(f's{i}(3)')
        txt[u].append(t)
    for u in range(nu):
        # statics of equal names in different files are different
        L = txt[u] + [f'static u64 same{j}(void){{ return {u * 100 + j}; }}' for j in range(r.choice([0, 10, 40]))]
        n = len(L) - len(txt[u])
        # redeclarations of the names of other files
        L += [f'u64 F{j}(void);' if kind[j] == 'func' else f'extern u64 G{j};' for j in range(tot) if unit[j] != u and kind[j] in ('func', 'glob') and r.random() < .5]
        sums[u] += [f'same{j}()' for j in range(n)]
        L.append(f'EXPORT u64 t_{u}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; u64 h = 0; {" ".join(f"h = h * 31 + {x};" for x in sums[u])} out[++out[0]] = h; return h; }}')
        r.shuffle(L); fs[f'p{u}.c'] = BASE + MACROS + '\n'.join(L) + '\n'
    return fs


def ladder(r):
    """Few declarations which have to wait again and again, each time for a name that only exists once another waiting declaration is done: the queues are always nearly empty."""
    n = r.choice([8, 20, 40]); k = r.randint(1, 5)
    L = [f'struct L{i} {{ u8 a[{"sizeof(struct L%d)" % (i - 1) if i else r.randint(1, 4)}{r.choice(["", " + C%d" % (i - 1)]) if i else ""}]; u8 b; }};' for i in range(n)]
    L += [f'enum K{i} {{ C{i} = {f"C{i - 1} % 5 + 1" if i else 2} }};' for i in range(n)]
    L.reverse()
    X = [f'u8 x{j}[({" + ".join(r.choice(["sizeof(struct L%d)", "C%d"]) % i for i in range(n))}) % 1000 + 1];' for j in range(k)]
    T = ['EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; ' + ' '.join(f'out[++out[0]] = sizeof(x{j});' for j in range(k)) + ' return 0; }']
    if r.random() < .5: r.shuffle(L)
    nf = r.choice([1, 1, 2, 4]); fs = {f'p{u}.c': BASE + MACROS for u in range(nf)}
    for t in X + L + T: fs[f'p{r.randrange(nf)}.c'] += t + '\n'
    return fs
