"""Random, well-defined C programs. Each program exports functions t_* that store what they observed in out[]."""
import random

INTS = {  # name: (size, signed)
    'i8': (1, True), 'u8': (1, False), 'i16': (2, True), 'u16': (2, False), 'i32': (4, True), 'u32': (4, False), 'i64': (8, True), 'u64': (8, False), '_Bool': (1, False),
}
CTYPES = {'i8': 'signed char', 'u8': 'unsigned char', 'i16': 'short', 'u16': 'unsigned short', 'i32': 'int', 'u32': 'unsigned int', 'i64': 'long long', 'u64': 'unsigned long long'}
FLOATS = ('float', 'double')
PRELUDE = '''typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
static u64 dbits(double d){ union { double d; u64 u; } x; x.d = d; return d != d ? 0x7ff8000000000000ull : x.u; }
static u64 fbits(float d){ union { float d; u32 u; } x; x.d = d; return d != d ? 0x7fc00000u : x.u; }
static i32 d2i(double d){ return d > -2000000000.0 && d < 2000000000.0 ? (i32)d : 77; }
static i64 d2l(double d){ return d > -9.0e18 && d < 9.0e18 ? (i64)d : 78; }
#define LOG(x) (out[++out[0]] = (u64)(x))
'''
SPECIAL = {1: [0, 1, 2, 3, 7, 100, 127, 128, 255], 2: [0, 1, 255, 256, 32767, 32768, 65535, 12345], 4: [0, 1, 2, 10, 31, 32, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 123456789], 8: [0, 1, 3, 63, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 33, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0x123456789abcdef0]}


def promote(t):
    if t in FLOATS: return t
    return 'i32' if INTS[t][0] < 4 else t


def uac(a, b):
    if 'double' in (a, b): return 'double'
    if 'float' in (a, b): return 'float'
    a, b = promote(a), promote(b)
    if a == b: return a
    (sa, ga), (sb, gb) = INTS[a], INTS[b]
    if sa == sb: return a if not ga else b
    return a if sa > sb else b


def lit(rng, t):
    if t in FLOATS:
        v = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 3.25, 1e10, -1e-5, 123456.789, 1e-3, 7.0, -0.125, 65536.0, 0.1])
        return (repr(v) if t == 'double' else repr(v) + 'f')
    size, sg = INTS[t]
    if t == '_Bool': return rng.choice(['0', '1'])
    v = rng.choice(SPECIAL[size]) if rng.random() < .5 else rng.getrandbits(size * 8) >> rng.randrange(size * 8)
    v &= (1 << size * 8) - 1
    if sg and v >= 1 << (size * 8 - 1): v -= 1 << size * 8
    if size < 4: return f'({t}){v}' if rng.random() < .3 else str(v)
    if size == 4:
        if sg: return '(-2147483647 - 1)' if v == -2147483648 else (str(v) if rng.random() < .7 or v < 0 else hex(v) if v < 0x7fffffff else str(v))
        return (hex(v) if rng.random() < .4 else str(v)) + 'u'
    if sg: return '(-9223372036854775807ll - 1)' if v == -(1 << 63) else str(v) + 'll'
    return (hex(v) if rng.random() < .5 else str(v)) + 'ull'


class Struct:
    def __init__(self, name, members, kw='struct'): self.name, self.members, self.kw = name, members, kw
    def scalars(self, pre=''):
        """(path, type, bitwidth) of every scalar leaf"""
        for m in self.members:
            yield from m.leaves(pre)


class Member:
    def __init__(self, name, typ, arr=0, bits=None): self.name, self.typ, self.arr, self.bits = name, typ, arr, bits
    def decl(self):
        t = self.typ.kw + ' ' + self.typ.name if isinstance(self.typ, Struct) else self.typ
        return f'{t} {self.name}' + (f'[{self.arr}]' if self.arr else '') + (f' : {self.bits}' if self.bits else '') + ';'
    def leaves(self, pre):
        for i in (range(self.arr) if self.arr else [None]):
            p = pre + self.name + (f'[{i}]' if i is not None else '')
            if isinstance(self.typ, Struct): yield from self.typ.scalars(p + '.')
            else: yield (p, self.typ, self.bits)


class Gen:
    def __init__(self, rng, floats=True, structs=True, control=True, funcs=True, pointers=True, side=True, bitfields=True, maxdepth=5, stmts=14, ntests=6, nglobals=6, nfuncs=4, statics=True, local_static=True, ptr_args=True):
        self.__dict__.update(locals()); self.r = rng; self.uid = 0; self.structs_ = []; self.globals_ = []; self.funcs_ = []; self.out = []
    def name(self, p='v'):
        self.uid += 1; return f'{p}{self.uid}'
    def styp(self):
        r = self.r; x = r.random()
        if self.floats and x < .15: return r.choice(FLOATS)
        if x < .2: return '_Bool'
        return r.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i32', 'u32', 'i64', 'u64'])
    def ityp(self):
        return self.r.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i32', 'u32', 'i64'])
    # ---- types
    def gen_struct(self):
        r = self.r; n = r.randint(1, 6); ms = []
        for i in range(n):
            x = r.random()
            if self.bitfields and x < .3:
                t = r.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'u32', 'i32']); w = INTS[t][0] * 8; ms.append(Member(self.name('b'), t, 0, r.randint(1, w)))
            elif x < .4 and self.structs_: ms.append(Member(self.name('s'), r.choice(self.structs_)))
            elif x < .5: ms.append(Member(self.name('a'), self.styp(), r.randint(1, 4)))
            else: ms.append(Member(self.name('m'), self.styp()))
        s = Struct(self.name('S'), ms); self.structs_.append(s)
        self.out.append(f'struct {s.name} {{ ' + ' '.join(m.decl() for m in ms) + ' };')
        return s
    def init_for(self, t, const=True):
        if isinstance(t, Struct): return '{ ' + ', '.join(self.init_member(m, const) for m in t.members) + ' }'
        return lit(self.r, t)
    def init_member(self, m, const):
        if m.bits:
            w = m.bits - (1 if INTS[m.typ][1] else 0); v = self.r.getrandbits(w) if w else 0
            return str(v) + ('ull' if v > 0x7fffffff else '')
        if m.arr: return '{ ' + ', '.join(self.init_for(m.typ, const) for _ in range(m.arr)) + ' }'
        return self.init_for(m.typ, const)
    # ---- scopes: env is a list of (lvalue text, type, bits, root) scalars
    def expr(self, env, d, want=None, locked=None, used=None):
        """returns (text, type); locked: roots modified in this full expression, used: roots read"""
        r = self.r; locked = locked if locked is not None else set(); used = used if used is not None else set()
        x = r.random()
        if d <= 0 or x < .12:
            c = [e for e in env if e[3] not in locked]
            if want == 'int': c = [e for e in c if e[1] not in FLOATS]
            if c and r.random() < .75:
                e = r.choice(c); used.add(e[3]); t = e[1]
                if e[2]: # bit-fields promote to int when they fit
                    t = 'i32' if e[2] < 32 or (e[2] == 32 and INTS[t][1]) else 'u32' if e[2] == 32 else t
                return e[0], t
            t = self.ityp() if want == 'int' or not self.floats else self.styp()
            l = lit(r, t)
            if t in INTS and INTS[t][0] < 4 and '(' not in l: t = 'i32'
            elif t == '_Bool': t = 'i32'
            return l, t
        if x < .52:
            ops = ['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>'] if want == 'int' or r.random() < .7 else ['+', '-', '*', '/']
            op = r.choice(ops); iw = 'int' if op in ('&', '|', '^', '%', '<<', '>>') else want
            a, ta = self.expr(env, d - 1, iw, locked, used)
            if op in ('<<', '>>'):
                pa = promote(ta); w = INTS[pa][0] * 8
                if r.random() < .4: b = str(r.randrange(w))
                else:
                    b, tb = self.expr(env, d - 1, 'int', locked, used); b = f'(({b}) & {w - 1})'
                if op == '<<' and INTS[pa][1]: # shift left of signed: through unsigned to stay defined
                    u = 'u' + pa[1:]; return f'(({pa})(({u})({a}) << {b}))', pa
                return f'(({a}) {op} {b})', pa
            if op in ('/', '%'):
                b, tb = self.expr(env, d - 1, iw, locked, used)
                if tb in FLOATS or ta in FLOATS: return f'({a} / {b})', uac(ta, tb)
                y = r.random()
                if y < .35:
                    k = r.choice([1, 2, 3, 5, 7, 8, 10, 16, 100, 255, 256, 641, 1000, 65536, 2147483647]); return f'({a} {op} {k})', uac(ta, 'i32')
                if y < .5:
                    k = r.choice(['3u', '10u', '8u', '4294967295u', '7ull', '1000000007ull', '-3', '-7', '-8', '5ll', '-10ll']); return f'({a} {op} {k})' if k[0] != '-' else f'(({a}) / 3 {op} {k})', uac(ta, 'u64' if 'ull' in k else 'i64' if 'll' in k else 'u32' if 'u' in k else 'i32')
                return f'({a} {op} ((({b}) & 0x7f) + 1))', uac(ta, promote(tb))
            b, tb = self.expr(env, d - 1, iw, locked, used)
            return f'({a} {op} {b})', uac(ta, tb)
        if x < .62:
            op = r.choice(['<', '>', '<=', '>=', '==', '!=']); a, _ = self.expr(env, d - 1, want, locked, used); b, _ = self.expr(env, d - 1, want, locked, used)
            return f'({a} {op} {b})', 'i32'
        if x < .68:
            op = r.choice(['&&', '||']); a, _ = self.expr(env, d - 1, want, locked, used); b, _ = self.expr(env, d - 1, want, locked, used)
            return f'({a} {op} {b})', 'i32'
        if x < .75:
            c, _ = self.expr(env, d - 1, want, locked, used); a, ta = self.expr(env, d - 1, want, locked, used); b, tb = self.expr(env, d - 1, want, locked, used)
            return f'({c} ? {a} : {b})', uac(ta, tb)
        if x < .83:
            op = r.choice(['-', '~', '!', '+']); a, ta = self.expr(env, d - 1, 'int' if op == '~' else want, locked, used)
            if op == '!': return f'(!{a})', 'i32'
            return f'({op}({a}))', promote(ta)
        if x < .93:
            t = self.ityp() if want == 'int' or not self.floats else self.styp(); a, ta = self.expr(env, d - 1, None if t in FLOATS or t == '_Bool' else want, locked, used)
            if ta in FLOATS and t in INTS and t != '_Bool':
                h = r.choice(['d2i', 'd2l']); return f'(({t}){h}({a}))', t
            return f'(({t})({a}))', t
        if x < .97 and self.side:
            c = [e for e in env if e[3] not in locked and e[3] not in used and e[4] and not (e[1] == '_Bool')]
            if want == 'int': c = [e for e in c if e[1] not in FLOATS]
            if c:
                e = r.choice(c); locked.add(e[3]); y = r.random(); rt = e[1]
                if e[2]: return f'({e[0]} = {lit(r, e[1])})' if 0 else e[0], ('i32' if e[2] < 32 or (e[2] == 32 and INTS[rt][1]) else 'u32' if e[2] == 32 else rt)
                if y < .5: return r.choice(['(++{0})', '({0}++)', '(--{0})', '({0}--)']).format(e[0]), rt
                a, ta = self.expr(env, d - 2, 'int' if rt in INTS else None, locked, used)
                if rt in INTS and ta in FLOATS: a = f'd2i({a})'
                op = r.choice(['=', '+=', '-=', '*=', '&=', '|=', '^='] if rt in INTS and ta in INTS else ['=', '+=', '-=', '*='])
                return f'({e[0]} {op} {a})', rt
        if self.pure_funcs():
            f = r.choice(self.pure_funcs()); 
            if not (want == 'int' and f[1] in FLOATS):
                return self.call(f, env, d - 1, locked, used), f[1]
        return self.expr(env, d - 1, want, locked, used)
    def pure_funcs(self): return [f for f in self.funcs_ if f[3]] if self.funcs else []
    def call(self, f, env, d, locked, used):
        args = []
        for t in f[2]:
            a, ta = self.expr(env, min(d, 2), 'int' if t in INTS and t != '_Bool' else None, locked, used)
            if t in INTS and t != '_Bool' and ta in FLOATS: a = f'd2i({a})'
            args.append(a)
        return f'{f[0]}({", ".join(args)})'
    def logexpr(self, a, t):
        if t == 'float': return f'LOG(fbits({a}));'
        if t == 'double': return f'LOG(dbits({a}));'
        return f'LOG({a});'
    # ---- statements
    def block(self, env, n, ind, loop=False):
        env = list(env); L = []
        for _ in range(n): L += self.stmt(env, ind, loop)
        return L
    def assignable(self, env, ints=False): return [e for e in env if e[4] and (not ints or e[1] in INTS)]
    def stmt(self, env, ind, loop):
        r = self.r; p = '  ' * ind; x = r.random(); deep = ind > 4
        if x < .2 or not self.assignable(env):
            t = self.styp(); n = self.name(); a, ta = self.expr(env, self.maxdepth - 1, 'int' if t in INTS and t != '_Bool' else None)
            if t in INTS and t != '_Bool' and ta in FLOATS: a = f'd2l({a})'
            env.append((n, t, None, n, True)); return [f'{p}{t} {n} = {a};']
        if x < .26 and self.structs and self.structs_:
            s = r.choice(self.structs_); n = self.name(); L = [f'{p}struct {s.name} {n} = {self.init_for(s)};']
            for (q, t, b) in list(s.scalars())[:8]: env.append((f'{n}.{q}', t, b, n, True))
            if self.pointers and r.random() < .5:
                pn = self.name('p'); L.append(f'{p}struct {s.name} *{pn} = &{n};')
                for (q, t, b) in list(s.scalars())[:4]: env.append((f'{pn}->{q}', t, b, n, True))
            return L
        if x < .31:
            t = self.styp(); n = self.name('a'); k = r.choice([2, 4, 8]); i, ti = self.expr(env, 2, 'int')
            L = [f'{p}{t} {n}[{k}] = {{ ' + ', '.join(lit(r, t) for _ in range(r.randint(1, k))) + ' };']
            env.append((f'{n}[{r.randrange(k)}]', t, None, n, True)); 
            iv = self.name('k'); L.append(f'{p}u32 {iv} = (u32)({i}) & {k - 1};'); env.append((f'{n}[{iv}]', t, None, n, True))
            return L
        if x < .34 and self.pointers:
            c = [e for e in env if not e[2] and e[4]]
            if c:
                e = r.choice(c); n = self.name('p'); env.append((f'(*{n})', e[1], None, e[3], True)); return [f'{p}{e[1]} *{n} = &{e[0]};']
        if x < .62:
            e = r.choice(self.assignable(env)); t = e[1]; isint = t in INTS and t != '_Bool'
            locked = {e[3]} if r.random() < .5 else set(); used = set()
            a, ta = self.expr(env, self.maxdepth, 'int' if isint else None, locked | set(), used) if locked else self.expr([v for v in env], self.maxdepth, 'int' if isint else None)
            if isint and ta in FLOATS: a = f'd2i({a})'
            if not locked:
                # plain assignment may read its target; side effects on it would be unsequenced
                side, self.side = self.side, False
                a, ta = self.expr(env, self.maxdepth, 'int' if isint else None); self.side = side
                if isint and ta in FLOATS: a = f'd2i({a})'
            ops = ['=', '=', '=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='] if isint and ta in INTS else ['=', '=', '+=', '-=', '*='] if t in FLOATS else ['=']
            op = r.choice(ops)
            if op == '<<=' and INTS[t][1]: op = '>>='
            if op in ('<<=', '>>='):
                w = max(INTS[t][0] * 8, 32) if e[2] is None else max(8 * INTS[t][0], 32); w = 32 if e[2] else w; a = f'(({a}) & {w - 1})'
            if op in ('/=', '%='): a = f'((({a}) & 0x3f) + 1)'
            return [f'{p}{e[0]} {op} {a};']
        if x < .72:
            c = [e for e in env]; e = r.choice(c); return [p + self.logexpr(e[0], e[1] if not e[2] else 'i64')]
        if x < .78 and self.funcs and (self.pure_funcs() if self.cur_pure else self.funcs_):
            f = r.choice(self.pure_funcs() if self.cur_pure else self.funcs_); c = self.call(f, env, 3, set(), set()); n = self.name()
            env.append((n, f[1], None, n, True)); return [f'{p}{f[1]} {n} = {c};']
        if not self.control or deep: 
            a, t = self.expr(env, self.maxdepth); return [p + self.logexpr(a, t)]
        if x < .86:
            c, _ = self.expr(env, 3); L = [f'{p}if({c}){{'] + self.block(env, r.randint(1, 3), ind + 1, loop)
            if r.random() < .5: L += [f'{p}}}else{{'] + self.block(env, r.randint(1, 3), ind + 1, loop)
            return L + [p + '}']
        if x < .92:
            i = self.name('k'); k = r.randint(1, 4); form = r.randrange(3); inner = env + [(i, 'u32', None, i, False)]
            b = self.block(inner, r.randint(1, 3), ind + 1, True)
            if r.random() < .3: c, _ = self.expr(inner, 2); b.insert(r.randrange(len(b) + 1) if 0 else len(b), '  ' * (ind + 1) + f'if({c}) {r.choice(["break", "continue"]) if form == 0 else "break"};')
            if form == 0: return [f'{p}for(u32 {i} = 0; {i} < {k}; {i}++){{'] + b + [p + '}']
            if form == 1: return [f'{p}{{ u32 {i} = 0; while({i} < {k}){{'] + b + [f'{p}  {i}++; }} }}']
            return [f'{p}{{ u32 {i} = 0; do{{'] + b + [f'{p}  {i} += 1; }}while({i} < {k}); }}']
        if x < .97:
            t = r.choice(['i32', 'u32', 'i64', 'u64', 'u8', 'i8', 'u16', 'i16']); c, _ = self.expr(env, 3, 'int'); m = r.choice([3, 7, 15])
            L = [f'{p}switch(({t})(({c}) & {m})){{']; vals = r.sample(range(m + 1), r.randint(1, min(5, m + 1))); dp = r.randrange(len(vals) + 1)
            for j, v in enumerate(vals):
                if j == dp: L += [f'{p}default:{{'] + self.block(env, 1, ind + 1, False) + [p + '}' + r.choice([' break;', ''])]
                L += [f'{p}case {v}:{{'] + self.block(env, r.randint(1, 2), ind + 1, False) + [p + '}' + r.choice([' break;', ' break;', ''])]
            return L + [p + '}']
        l = self.name('L'); c, _ = self.expr(env, 2); return [f'{p}if({c}) goto {l};'] + self.block(env, 1, ind, loop and False) [:0] + self.block(env, 2, ind + 1, False)[:0] + [p + '{'] + self.block(env, r.randint(1, 2), ind + 1, False) + [p + '}', f'{p}{l}:;']
    def params_env(self, params): return [(n, t, None, n, True) for n, t in params]
    def program(self):
        r = self.r; self.out = [PRELUDE]
        if self.structs:
            for _ in range(r.randint(1, 4)): self.gen_struct()
        genv = []
        for _ in range(self.nglobals):
            x = r.random(); n = self.name('g'); st = r.choice(['static ', ''])
            if self.structs and self.structs_ and x < .3:
                s = r.choice(self.structs_); self.out.append(f'{st}struct {s.name} {n} = {self.init_for(s)};')
                for (q, t, b) in list(s.scalars())[:6]: genv.append((f'{n}.{q}', t, b, n, True))
            elif x < .5:
                t = self.styp(); k = r.randint(1, 5); self.out.append(f'{st}{t} {n}[{k}] = {{ {", ".join(lit(r, t) for _ in range(r.randint(1, k)))} }};')
                for i in range(k): genv.append((f'{n}[{i}]', t, None, n, True))
            else:
                t = self.styp(); self.out.append(f'{st}{t} {n}' + (f' = {lit(r, t)};' if r.random() < .8 else ';')); genv.append((n, t, None, n, True))
        self.funcs_ = []
        if self.funcs:
            for _ in range(self.nfuncs):
                n = self.name('f'); ps = [(self.name('x'), self.styp()) for _ in range(r.randint(0, 7))]; rt = self.styp(); pure = self.cur_pure = r.random() < .6
                env = self.params_env(ps) + ([] if pure else genv)
                body = self.fbody(env, r.randint(1, 5), nolog=True)
                a, ta = self.expr(env, 4, 'int' if rt in INTS and rt != '_Bool' else None)
                if rt in INTS and rt != '_Bool' and ta in FLOATS: a = f'd2i({a})'
                self.out += [f'{r.choice(["static ", "", "static inline "])}{rt} {n}({", ".join(f"{t} {q}" for q, t in ps) or "void"}){{'] + body + [f'  return {a};', '}']
                self.funcs_.append((n, rt, [t for _, t in ps], pure))
        self.cur_pure = False
        for k in range(self.ntests):
            self.out.append(f'EXPORT u64 t_{k}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0;')
            env = self.params_env([('n', 'u64'), ('q', 'u64')]) + genv
            self.out += self.block(env, self.stmts, 1)
            for e in genv: self.out.append('  ' + self.logexpr(e[0], e[1] if not e[2] else 'i64'))
            self.out += ['  return out[0];', '}']
        return '\n'.join(self.out) + '\n'
    def fbody(self, env, n, nolog):
        # helper functions have no out[]; statements that would log are regenerated as assignments
        L = []; k = 0
        while len(L) < n and k < 50:
            k += 1; e2 = list(env); s = self.stmt(e2, 1, False)
            if any('LOG(' in q for q in s): continue
            L += s; env[:] = e2
        return L
