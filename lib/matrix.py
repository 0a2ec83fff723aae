"""Systematic generators: operator x type x operand-location x value matrices. Each function returns a C source with exported t_k(out)."""
from cgen import INTS, FLOATS, PRELUDE

ITY = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'long', 'unsigned long', 'char', '_Bool']
FTY = ['float', 'double']
SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'long': 4, 'unsigned long': 4, 'char': 1, '_Bool': 1, 'float': 4, 'double': 8}
SGN = {t: t[0] not in 'u_' for t in SIZE}
FV = ['0.0', '-0.0', '1.0', '-1.0', '0.5', '-1.5', '3.0', '1e10', '-1e10', '16777217.0', '4294967296.0', '9007199254740993.0', '1e-310', '1e300', '-1e300', '2.5e-45', '3.4028235e38', '1.1754944e-38', 'INF', '-INF', 'NAN', '255.0', '-128.0', '0.1', '0.3333333333333333', '2147483648.0', '4294967295.0', '9223372036854775808.0', '1.8e19', '-9.2e18', '6.02e23']


def values(r, t, n):
    if t in FLOATS:
        v = r.sample(FV, min(n, len(FV)))
        return [x if t == 'double' else f'(float)({x})' for x in v]
    if t == '_Bool': return ['0', '1'] * (n // 2)
    w = SIZE[t] * 8; s = SGN[t]; lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
    base = [0, 1, 2, 3, 7, hi, hi - 1, lo, lo + 1, 5, 10, 255, 256, 127, 128, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 63] + ([-1, -2, -3, -7, -128, -129, -32768] if s else [])
    base = [b for b in dict.fromkeys(base) if lo <= b <= hi]
    v = [0, 1, hi, lo] + r.sample(base, min(len(base), n)) + [r.randint(lo, hi), r.randint(0, min(hi, 1000)), r.getrandbits(r.randint(1, w)) & hi]
    r.shuffle(v); v = v[:n]
    return [cst(x, t) for x in v]


def cst(x, t):
    if t in ('i64',): return f'{x}ll' if x > -(1 << 63) else '(-9223372036854775807ll-1)'
    if t == 'u64': return f'{x}ull'
    if SGN[t] and x == -(1 << 31): return '(-2147483647-1)'
    return f'{x}' + ('u' if not SGN[t] and x > 2147483647 else '')


LOCS = ['local', 'global', 'array', 'member', 'deref', 'param', 'call', 'expr', 'arrowm', 'constidx', 'gindex', 'static', 'matrix', 'cast', 'comma', 'cond', 'unionm', 'litconst']


class M:
    """one test function body around  for(i) for(j)  over two value tables"""
    def __init__(self, r): self.r = r; self.g = []; self.k = 0; self.out = []
    def name(self, p='v'): self.k += 1; return f'{p}{self.k}'
    def loc(self, kind, t, src, pre, lvalue=False):
        """declare an object of type t holding src; returns the C expression for it"""
        r = self.r; n = self.name()
        if kind == 'local': pre.append(f'{t} {n} = {src};'); return n
        if kind == 'global': self.g.append(f'{r.choice(["", "static "])}{t} {n};'); pre.append(f'{n} = {src};'); return n
        if kind == 'static': pre.append(f'static {t} {n}; {n} = {src};'); return n
        if kind == 'array': pre.append(f'{t} {n}[5]; u32 i{n} = 3; {n}[3] = {src};'); return f'{n}[{r.choice(["i" + n, "i" + n, "3", "(u8)i" + n, "i" + n + " + 0"])}]'
        if kind == 'gindex': self.g.append(f'{t} {n}[7]; {r.choice(["i32", "u32", "i64", "u8", "i16"])} i{n};'); pre.append(f'i{n} = {r.choice([2, 5, 6])}; {n}[i{n}] = {src};'); return f'{n}[i{n}]'
        if kind == 'constidx': pre.append(f'{t} {n}[4]; {n}[{(c := r.randrange(4))}] = {src};'); return f'{n}[{c}]'
        if kind == 'matrix': pre.append(f'{t} {n}[3][4]; u64 i{n} = {(c := r.randrange(3))}; {n}[{c}][{(e := r.randrange(4))}] = {src};'); return f'{n}[i{n}][{e}]'
        if kind == 'member': s = self.name('S'); self.g.append(f'struct {s} {{ u8 p; {t} m; u16 q[3]; {t} z; }};'); pre.append(f'struct {s} {n}; {n}.m = {src};'); return f'{n}.m'
        if kind == 'unionm': s = self.name('U'); self.g.append(f'union {s} {{ u64 p[2]; {t} m; }};'); pre.append(f'union {s} {n}; {n}.p[0] = 0x1122334455667788ull; {n}.m = {src};'); return f'{n}.m'
        if kind == 'arrowm': s = self.name('S'); self.g.append(f'struct {s} {{ u64 p; {t} m[2]; }}; struct {s} g{n};'); pre.append(f'struct {s} *{n} = &g{n}; {n}->m[1] = {src};'); return f'{n}->m[1]'
        if kind == 'deref': pre.append(f'{t} o{n} = {src}; {t} *{n} = &o{n};'); return r.choice([f'(*{n})', f'{n}[0]'])
        if lvalue or kind == 'plain': pre.append(f'{t} {n} = {src};'); return n
        if kind == 'param': pre.append(f'{t} {n} = {src};'); return n
        if kind == 'call': f = self.name('f'); self.g.append(f'{r.choice(["", "static "])}{t} {f}(int q, {t} x, double w){{ {r.choice(["", "volatile u64 a[3]; a[1] = q; ", "if(q > 100) return 0; "])}return x; }}'); pre.append(f'{t} {n} = {src};'); return f'{f}(1, {n}, 2)'
        if kind == 'expr' and t in FLOATS: pre.append(f'{t} {n} = {src};'); return f'({n} * 1)'
        if kind == 'expr': pre.append(f'{t} {n} = {src};'); return f'({t})({n} + 0)'
        if kind == 'cast': pre.append(f'{"double" if t in FLOATS else "u64"} {n} = ({"double" if t in FLOATS else "u64"}){src};'); return f'({t}){n}'
        if kind == 'comma': pre.append(f'{t} {n} = {src}; int c{n} = 0;'); return f'(c{n}++, {n})'
        if kind == 'cond': pre.append(f'{t} {n} = {src}; volatile int c{n} = 1;'); return f'(c{n} ? {n} : ({t})0)'
        raise KeyError(kind)
    def press(self, e, isf):
        """surround e with live temporaries / calls"""
        r = self.r; y = r.random()
        if y < .5: return e
        if isf: return f'(x0 + ({e}))' if y < .75 else f'idf({e})'
        k = r.choice([1, 3, 6, 9, 12, 15])
        s = e
        for j in range(k): s = r.choice([f'((p{j % 8} + {j}) ^ ({s}))', f'(p{j % 8} * {j | 1} + (u64)({s}))', f'(id(p{j % 8}) + (u64)({s}))' if r.random() < .3 else f'((p{j % 8} << 1) - (u64)({s}))', f'((u64)({s}) + pa[p{j % 8} & 7])'])
        return s
    def logf(self, e, t): return f'LOG(fbits({e}));' if t == 'float' else f'LOG(dbits({e}));'
    HEAD = 'u64 p0 = n, p1 = n + 1, p2 = 77, p3 = 5, p4 = 0x123456789abull, p5 = 3, p6 = n * 2, p7 = 1; u64 pa[8] = {1,2,3,4,5,6,7,8}; double x0 = 0.25;'
    GLOB = 'static u64 id(u64 x){ return x * 3; } static double idf(double x){ return x; } double zero_; double inf_ = 1e308;\n#define INF (inf_ * 10)\n#define NAN (zero_ / zero_)\n'
    def source(self): return PRELUDE + self.GLOB + '\n'.join(self.g) + '\n' + '\n'.join(self.out) + '\n'
    def guard(self, op, a, b, ta, tb):
        if op in ('/', '%') and tb not in FLOATS and ta not in FLOATS: return f'if(!({b})) continue; if((i64){b} == -1 && ((i64){a} == (-9223372036854775807ll-1) || (i64){a} == -2147483648ll)) continue;'
        return ''
    def pick(self, pool): return self.r.choice(pool)
    def tables(self, ta, tb, n=9):
        a, b = self.name('A'), self.name('B'); r = self.r
        da = ', '.join(values(r, ta, n)); db = ', '.join(values(r, tb, n))
        return a, b, f'{ta} {a}[] = {{ {da} }}; {tb} {b}[] = {{ {db} }};'
    def fn(self, k, body): self.out.append(f'EXPORT u64 t_{k}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; n = 3; {self.HEAD}\n{body}\n  return out[0]; }}')
    def loop(self, tabs, a, b, pre, body): return f'  {tabs}\n  for(u32 i = 0; i < sizeof({a})/sizeof(*{a}); i++) for(u32 j = 0; j < sizeof({b})/sizeof(*{b}); j++){{\n    {" ".join(pre)}\n    {body}\n  }}'

    # ---- generators of one test each
    def binary(self, k, types, ops):
        r = self.r; ta, tb = r.choice(types), r.choice(types)
        op = r.choice(ops)
        if op in ('%', '&', '|', '^', '<<', '>>'):
            it = [t for t in types if t not in FLOATS] or ITY; ta = ta if ta in it else r.choice(it); tb = tb if tb in it else r.choice(it)
        A, B, tabs = self.tables(ta, tb); pre = []; la, lb = r.choice(LOCS), r.choice(LOCS)
        kb = None
        if lb == 'litconst':
            kb = values(r, tb, 6)[0]
            if tb in FLOATS and ('INF' in kb or 'NAN' in kb): kb = '1.5' if tb == 'double' else '1.5f'
            if op in ('/', '%') and tb not in FLOATS: kb = r.choice(['1', '2', '3', '7', '8', '10', '255', '256', '1000', '65536', '2147483647'] if SIZE[tb] > 2 else ['1', '2', '3', '7', '8', '10', '100']) + ('ull' if tb == 'u64' else 'll' if tb == 'i64' else 'u' if tb == 'u32' else '')
        ea = self.loc('plain' if la == 'litconst' else la, ta, f'{A}[i]', pre)
        eb = kb if kb is not None else self.loc(lb, tb, f'{B}[j]', pre)
        key = (op, ta, tb, la, lb); g = '' if kb else self.guard(op, f'{A}[i]', f'{B}[j]', ta, tb)
        if op in ('<<', '>>'):
            wd = max(SIZE[ta] * 8, 32)
            eb = f'({eb} & {wd - 1})' if kb is None else str(r.randrange(wd))
        fl = (ta in FLOATS or tb in FLOATS) and op in '+-*/'
        rt = 'float' if fl and 'double' not in (ta, tb) else 'double'
        if r.random() < .15 and kb is None and la != 'litconst' and op not in ('/', '%', '<<', '>>'): ea, eb = eb, ea
        e = f'({ea} {op} {eb})'
        if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            y = r.random()
            if y < .4: body = f'{g} if{e} LOG(1); else LOG(2);'
            elif y < .55: body = f'{g} LOG(!{e});'
            elif y < .7: body = f'{g} int t = 0; while({ea} {op} {eb}){{ if(++t > 2) break; }} LOG(t);'
            else: body = f'{g} LOG({self.press(e, False)});'
        elif fl: body = g + ' ' + (self.logf(e, rt) if r.random() < .6 else f'{rt} res = {self.press(e, True) if rt == "double" else e}; ' + self.logf('res', rt))
        else: body = f'{g} LOG({self.press(e, False)});' + (f' LOG(sizeof{e});' if r.random() < .2 else '') + (f' LOG({e} < 0);' if r.random() < .3 else '')
        self.fn(k, self.loop(tabs, A, B, pre, body)); return key
    def compound(self, k, types, ops):
        r = self.r; ta, tb = r.choice(types), r.choice(types); op = r.choice(ops)
        if op in ('%', '&', '|', '^', '<<', '>>'):
            it = [t for t in types if t not in FLOATS] or ITY; ta = ta if ta in it else r.choice(it); tb = tb if tb in it else r.choice(it)
        if ta == '_Bool' and op not in ('&', '|', '^'): ta = 'u8'
        if ta == '_Bool' and tb in FLOATS: tb = 'i32'
        A, B, tabs = self.tables(ta, tb); pre = []
        if ta not in FLOATS and tb in FLOATS:  # float results must fit the integer
            tabs = tabs[:tabs.index(f'{tb} {B}[]')] + f'{tb} {B}[] = {{ 1.0, 0.5, 2.0, 1.25 }};'
            if ta == 'u64' or ta == 'u32' or ta == 'unsigned long' or not SGN[ta]: tabs = f'{ta} {A}[] = {{ 3, 10, 50, 90 }}; {tb} {B}[] = {{ 1.0, 0.5, 2.0, 1.25 }};'
            else: tabs = f'{ta} {A}[] = {{ 3, -10, 50, -60 }}; {tb} {B}[] = {{ 1.0, 0.5, 2.0, 1.25, -1.5 }};'
        lk = r.choice([l for l in LOCS if l not in ('param', 'call', 'expr', 'cast', 'comma', 'cond', 'litconst')]); lb = r.choice(LOCS)
        bf = ta not in FLOATS and ta not in ('_Bool', 'char') and r.random() < .25
        if bf:
            n = self.name(); s = self.name('S'); bt = ta; w = r.randint(1, SIZE[bt] * 8); off = r.randint(0, 5)
            self.g.append(f'struct {s} {{ {bt} a : {r.randint(1, min(7, SIZE[bt] * 8))}; {bt} m : {w}; {bt} z : {r.randint(1, min(7, SIZE[bt] * 8))}; u8 t; }};')
            pre.append(f'struct {s} {n}; {n}.a = 1; {n}.z = 1; {n}.t = 9; {n}.m = ({bt}){A}[i];'); ea = f'{n}.m'; lk = f'bf{w}'
            if tb in FLOATS: tb = 'i32'; tabs = tabs[:tabs.index(f'{B}[]')]; tabs = tabs[:tabs.rindex(';') + 1] + f' i32 {B}[] = {{ 1, 2, -3, 7, 100 }};'
        else: ea = self.loc(lk, ta, f'{A}[i]', pre, True)
        if lb == 'litconst':
            eb = r.choice(['1', '2', '3', '10', '100', '255', '1000', '-1', '-3', '5u', '7ull', '-9ll', '65536', '2147483647', '4294967295u']) if op not in ('<<', '>>') else str(r.randrange(8))
            tb = 'i32'
        else: eb = self.loc(lb, tb, f'{B}[j]', pre)
        g = self.guard(op, f'{A}[i]' if not bf else ea, f'{B}[j]', ta, tb) if lb != 'litconst' else (f'if((i64){ea} == (-9223372036854775807ll-1) || (i64){ea} == -2147483648ll) continue;' if op in '/%' and ta not in FLOATS else '')
        if op in ('<<', '>>'): eb = f'({eb} & {max(SIZE[ta] * 8, 32) - 1})'
        lg = self.logf(ea, ta) if ta in FLOATS else f'LOG({ea});'
        body = f'{g} {ea} {op}= {eb}; {lg}'
        if not bf and r.random() < .4 and ta not in FLOATS: body = f'{g} u64 res = ({ea} {op}= {eb}); LOG(res); {lg}'
        if bf: body += f' LOG({ea.rsplit(".", 1)[0]}.a); LOG({ea.rsplit(".", 1)[0]}.z); LOG({ea.rsplit(".", 1)[0]}.t);'
        self.fn(k, self.loop(tabs, A, B, pre, body)); return ('c' + op, ta, tb, lk, lb)
    def unary(self, k, types):
        r = self.r; ta = r.choice(types); op = r.choice(['-', '~', '!', '+', '++', '--', 'p++', 'p--', '!!', 'if', '&*'])
        if op == '~' and ta in FLOATS: op = '-'
        if ta == '_Bool' and op in ('++', '--', 'p++', 'p--'): ta = 'u8'
        A, B, tabs = self.tables(ta, 'u8', 12); tabs = tabs[:tabs.index(f'u8 {B}')] + f'u8 {B}[] = {{ 1 }};'; pre = []
        lv = op in ('++', '--', 'p++', 'p--', '&*'); lk = r.choice([l for l in LOCS if not (lv and l in ('param', 'call', 'expr', 'cast', 'comma', 'cond')) and l != 'litconst'])
        bf = lv and op != '&*' and ta not in FLOATS and ta != 'char' and r.random() < .3
        if bf:
            s = self.name('S'); n = self.name(); w = r.randint(1, SIZE[ta] * 8); self.g.append(f'struct {s} {{ {ta} a : 1; {ta} m : {w}; {ta} z : 1; }};')
            pre.append(f'struct {s} {n}; {n}.a = 1; {n}.z = 1; {n}.m = {A}[i];'); ea = f'{n}.m'; lk = 'bf'
        else: ea = self.loc(lk, ta, f'{A}[i]', pre, lv)
        if op in ('++', '--'): e = f'({op}{ea})'
        elif op in ('p++', 'p--'): e = f'({ea}{op[1:]})'
        elif op == '&*': e = f'(*&{ea})'
        elif op == 'if': e = f'({ea} ? 5 : 6)'
        else: e = f'({op}({ea}))'
        fl = ta in FLOATS and op not in ('!', '!!', 'if')
        body = self.logf(e, ta) if fl else f'LOG({self.press(e, False)});'
        if lv: body += ' ' + (self.logf(ea, ta) if ta in FLOATS else f'LOG({ea});')
        if bf: body += f' LOG({ea[:-2]}.a); LOG({ea[:-2]}.z);'
        self.fn(k, self.loop(tabs, A, B, pre, body)); return ('u' + op, ta, lk)
    def cast(self, k, types):
        r = self.r; ta = r.choice(types); tb = r.choice(types); A, B, tabs = self.tables(ta, 'u8', 14); tabs = tabs[:tabs.index(f'u8 {B}')] + f'u8 {B}[] = {{ 1 }};'; pre = []
        lk = r.choice([l for l in LOCS if l != 'litconst']); ea = self.loc(lk, ta, f'{A}[i]', pre); g = ''
        if ta in FLOATS and tb not in FLOATS and tb != '_Bool':
            w = SIZE[tb] * 8; lo, hi = (-(2.0 ** (w - 1)), 2.0 ** (w - 1)) if SGN[tb] else (-1.0, 2.0 ** w)
            v = [x for x in [0.0, 0.5, -0.5, -0.99, 1.0, 1.99, 100.25, 126.5, -1.5, -127.9, 255.9, 32767.5, 65535.25, -32768.5, 2147483647.5, 2147483520.0, 2147483648.0, 4294967295.5, 4294967040.0, -2147483648.5, 1e15, 9.1e18, -9.2e18, 9223372036854775808.0, 1.8e19, 18446744073709549568.0, 18446742974197923840.0] if lo < x < hi]
            if ta == 'float':
                import struct; v = [x for x in (struct.unpack('f', struct.pack('f', x))[0] for x in v) if lo < x < hi]
            r.shuffle(v); tabs = f'{ta} {A}[] = {{ {", ".join(repr(x) for x in v[:14])} }}; u8 {B}[] = {{ 1 }};'
        e = f'(({tb}){ea})'
        how = r.choice(['cast', 'assign', 'arg', 'ret'])
        if how == 'assign': body = f'{tb} res = {ea}; '; e = 'res'
        elif how == 'arg': f = self.name('f'); self.g.append(f'static {tb} {f}({tb} x){{ return x; }}'); body = ''; e = f'{f}({ea})'
        elif how == 'ret': f = self.name('f'); self.g.append(f'static {tb} {f}({ta} x){{ return x; }}'); body = ''; e = f'{f}({ea})'
        else: body = ''
        body += self.logf(e, tb) if tb in FLOATS else f'LOG({self.press(e, False)});'
        self.fn(k, self.loop(tabs, A, B, pre, body)); return ('cast', ta, tb, lk, how)
    def pointer(self, k):
        r = self.r; s = self.name('P'); sz = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 40, 100, 1000])
        et = r.choice([f'struct {s}', f'struct {s}', 'u8', 'i16', 'u32', 'i64', 'double', 'void *', f'struct {s} *', 'u16[3]', 'i32[2][5]']); self.g.append(f'struct {s} {{ u8 x[{sz}]; }};')
        T = et if '[' not in et else self.name('T')
        if '[' in et: self.g.append(f'typedef {et.split("[")[0]} {T}[{et.split("[", 1)[1]};')
        ti = r.choice(ITY[:10]); n = self.name(); b = self.name('buf')
        self.g.append(f'{T} {b}[64];')
        A, B, tabs = self.name('A'), self.name('B'), ''
        iv = ', '.join(str(x) for x in ([0, 1, 2, 3, 7, 15, 20] + ([-1, -2, -3, -10] if SGN[ti] else [])))
        tabs = f'{ti} {A}[] = {{ {iv} }}; {ti} {B}[] = {{ 1, 2, 3, 5 }};'
        pre = [f'{T} *p = {b} + 30; {T} *p2 = &{b}[j + 3]; (void)p2;']; li = r.choice([l for l in LOCS if l != 'litconst']); ei = self.loc(li, ti, f'{A}[i]', pre)
        D = f'(u64)((u8 *)(%s) - (u8 *){b})'
        opts = {'add': f'LOG({D % f"(p + {ei})"});', 'radd': f'LOG({D % f"({ei} + p)"});', 'sub': f'LOG({D % f"(p - {ei})"});', 'idx': f'LOG({D % f"&p[{ei}]"});', 'ridx': f'LOG({D % f"&({ei})[p]"});',
                'addeq': f'p += {ei}; LOG({D % "p"});', 'subeq': f'p -= {ei}; LOG({D % "p"});', 'diff': f'p += {ei}; LOG(p - p2); LOG(p2 - p);', 'inc': f'LOG({D % "p++"}); LOG({D % "++p"}); LOG({D % "p--"}); LOG({D % "--p"}); LOG({D % "p"});',
                'cmp': f'p += {ei}; LOG(p < p2); LOG(p > p2); LOG(p <= p2); LOG(p >= p2); LOG(p == p2); LOG(p != p2); LOG(!p); LOG(p && p2);',
                'chain': f'LOG({D % f"(p + {ei} - {B}[j] + 2)"});', 'const': f'LOG({D % f"(p + {r.randint(-9, 9)})"}); LOG({D % f"({b} + {r.randint(0, 20)} + {ei} + 10)"}); LOG({D % f"&{b}[{r.randint(0, 20)}]"});', 'eqz': f'{T} *pp = 0; LOG(p == 0); LOG(pp == 0); LOG(pp ? 1 : 2); LOG((u64)(pp + {ei}));'}
        o = r.choice(list(opts)); self.fn(k, self.loop(tabs, A, B, pre, opts[o])); return ('ptr', o, T if T[0] != 'T' and T[0] != 's' else sz, ti, li)
    def cond(self, k, types):
        r = self.r; ta, tb, tc = r.choice(types), r.choice(types), r.choice(types); A, B, tabs = self.tables(ta, tb); pre = []
        la, lb = r.choice(LOCS[:-1]), r.choice(LOCS[:-1]); ea = self.loc(la, ta, f'{A}[i]', pre); eb = self.loc(lb, tb, f'{B}[j]', pre)
        c = self.loc('local', tc, r.choice(['i & 1', '(i + j) % 3 == 0', 'j > 2']), pre)
        fl = ta in FLOATS or tb in FLOATS; rt = 'float' if fl and 'double' not in (ta, tb) else 'double'; e = f'({c} ? {ea} : {eb})'
        if r.random() < .2: e = f'({c} ? {ea} : ({c}, {eb}))'
        if r.random() < .2 and not fl: e = f'({c} ? {ea} : {r.choice(["1", "-1", "0u", "5ll", "200"])})'
        body = (self.logf(e, rt) if fl else f'LOG({self.press(e, False)});') + f' LOG(sizeof{e});'
        self.fn(k, self.loop(tabs, A, B, pre, body)); return ('?:', ta, tb, tc, la, lb)


def int_source(r, ntests=12):
    m = M(r); keys = []
    for k in range(ntests):
        x = r.random()
        if x < .36: keys.append(m.binary(k, ITY, ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']))
        elif x < .6: keys.append(m.compound(k, ITY, ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']))
        elif x < .72: keys.append(m.unary(k, ITY))
        elif x < .84: keys.append(m.cast(k, ITY))
        elif x < .95: keys.append(m.pointer(k))
        else: keys.append(m.cond(k, ITY))
    return m.source(), keys


def float_source(r, ntests=12):
    m = M(r); keys = []; T = FTY * 3 + ITY[:10]
    for k in range(ntests):
        x = r.random()
        if x < .45: keys.append(m.binary(k, r.choice([FTY, FTY, T]), ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&&', '||']))
        elif x < .6: keys.append(m.compound(k, r.choice([FTY, T]), ['+', '-', '*', '/']))
        elif x < .7: keys.append(m.unary(k, FTY))
        elif x < .93: keys.append(m.cast(k, T))
        else: keys.append(m.cond(k, T))
    return m.source(), keys
