"""Constant expressions evaluated in every place the compiler evaluates them, next to the same expression over volatile variables."""
from cgen import INTS, FLOATS, PRELUDE, SPECIAL, promote, uac
CT = {'i8': 'i8', 'u8': 'u8', 'i16': 'i16', 'u16': 'u16', 'i32': 'i32', 'u32': 'u32', 'i64': 'i64', 'u64': 'u64', '_Bool': '_Bool', 'float': 'float', 'double': 'double'}
import struct, math


class UB(Exception): pass


def fit(v, t):
    """wrap an integer into type t (conversion)"""
    if t == '_Bool': return int(v != 0)
    n, s = INTS[t]; v &= (1 << 8 * n) - 1
    return v - (1 << 8 * n) if s and v >> (8 * n - 1) else v


def rnd32(x):
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf


def conv(v, f, t):
    if t in FLOATS:
        if f not in FLOATS: v = exact_float(v, 24 if t == 'float' else 53)
        return rnd32(v) if t == 'float' else float(v)
    if f in FLOATS:
        if t == '_Bool': return int(v != 0)
        if v != v or math.isinf(v): raise UB()
        i = int(v); n, s = INTS[t]; lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)
        if not lo <= i <= hi: raise UB()
        return i
    return fit(v, t)


def exact_float(v, bits):
    if v == 0: return 0.0
    s = -1 if v < 0 else 1; a = abs(v); n = a.bit_length()
    if n > bits:
        sh = n - bits; q, r = a >> sh, a & ((1 << sh) - 1); h = 1 << (sh - 1)
        if r > h or (r == h and q & 1): q += 1
        a = q << sh
    return s * float(a)


class E:
    def __init__(self, r, floats=True): self.r = r; self.floats = floats; self.vols = []; self.nv = 0; self.usedf = False
    def leaf(self):
        r = self.r
        if self.floats and r.random() < .25:
            self.usedf = True
            t = r.choice(FLOATS); v = r.choice([0.0, 1.0, 0.5, 2.0, 3.75, 1e10, 0.1, 100.0, 255.0, 65536.0, 16777217.0, 1e-5, 3.0, 1e30, 4294967296.0])
            v = rnd32(v) if t == 'float' else v; s = repr(v) if 'e' in repr(v) or '.' in repr(v) else repr(v) + '.0'
            return (f'{s}f' if t == 'float' else s, t, v)
        k = r.random()
        if k < .08: c = r.choice('aZ09 ~'); return (f"'{c}'", 'i32', ord(c))
        if k < .14: t = r.choice(['i8', 'u16', 'i32', 'u64', 'double']); return (f'sizeof({t})', 'u64', {'i8': 1, 'u16': 2, 'i32': 4, 'u64': 8, 'double': 8}[t])
        t = r.choice(list(INTS)); n, s = INTS[t]
        v = fit(r.choice(SPECIAL[n] + [r.getrandbits(8 * n), r.randint(0, 20)]), t)
        if t == '_Bool': return (f'(_Bool){v}', t, v)
        if t == 'i32': return ((f'{v}' if v >= 0 else f'({v})') if v != -(1 << 31) else '(-2147483647-1)', t, v)
        if t == 'u32': return (r.choice([f'{v}u', f'0x{v:x}u', f'0{v:o}U']), t, v)
        if t == 'i64': return ((f'{v}ll' if v >= 0 else f'({v}ll)') if v != -(1 << 63) else '(-9223372036854775807ll-1)', t, v)
        if t == 'u64': return (r.choice([f'{v}ull', f'0x{v:X}ULL']), t, v)
        return (f'(({t}){v})', t, v)
    def gen(self, d):
        """-> (constant text, same text over variables, type, value)"""
        for _ in range(40):
            try: return self.gen1(d)
            except UB: continue
        return self.L()
    def L(self):
        s, t, v = self.leaf(); self.nv += 1; n = f'v{self.nv}'; self.vols.append((n, t, s)); return (s, n, t, v)
    def gen1(self, d):
        r = self.r
        if d == 0 or r.random() < .1: return self.L()
        k = r.random()
        if k < .14:
            a = self.gen(d - 1); t = r.choice(list(INTS) + (list(FLOATS) if self.floats else [])); return (f'({t})({a[0]})', f'({t})({a[1]})', t, conv(a[3], a[2], t))
        if k < .28:
            op = r.choice(['-', '~', '!', '+', '-', '!']); a = self.gen(d - 1); t = promote(a[2])
            if op == '!': return (f'!({a[0]})', f'!({a[1]})', 'i32', int(not a[3]))
            if op == '~' and t in FLOATS: op = '-'
            v = conv(a[3], a[2], t)
            if op == '-': v = -v if t in FLOATS else self.ck(-v, t)
            if op == '~': v = fit(~v, t)
            return (f'{op}({a[0]})', f'{op}({a[1]})', t, v)
        if k < .36:
            c = self.gen(d - 2 if d > 1 else 0); a = self.gen(d - 1); b = self.gen(d - 1); t = uac(a[2], b[2]); x = a if c[3] else b
            return tuple(f'(({c[i]}) ? ({a[i]}) : ({b[i]}))' for i in (0, 1)) + (t, conv(x[3], x[2], t))
        if k < .44:
            op = r.choice(['&&', '||']); a = self.gen(d - 1); b = self.gen(d - 1); v = int(bool(a[3]) and bool(b[3])) if op == '&&' else int(bool(a[3]) or bool(b[3]))
            return tuple(f'(({a[i]}) {op} ({b[i]}))' for i in (0, 1)) + ('i32', v)
        if k < .56:
            op = r.choice(['<', '>', '<=', '>=', '==', '!=']); a = self.gen(d - 1); b = self.gen(d - 1)
            if r.random() < .2: b = a
            t = uac(a[2], b[2]); x, y = conv(a[3], a[2], t), conv(b[3], b[2], t)
            v = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
            return tuple(f'(({a[i]}) {op} ({b[i]}))' for i in (0, 1)) + ('i32', int(v))
        op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '+', '-', '*'])
        a = self.gen(d - 1); b = self.gen(d - 1)
        if op in ('%', '&', '|', '^', '<<', '>>') and (a[2] in FLOATS or b[2] in FLOATS): op = r.choice('+-*/')
        if op in ('<<', '>>'):
            t = promote(a[2]); w = INTS[t][0] * 8; x = conv(a[3], a[2], t); y = b[3]
            if not 0 <= y < w:
                b = (f'(({b[0]}) & {w-1})', f'(({b[1]}) & {w-1})', uac(b[2], 'i32'), fit(conv(b[3], b[2], uac(b[2], 'i32')) & (w - 1), uac(b[2], 'i32'))); y = b[3]
            if op == '<<' and INTS[t][1] and (x < 0): raise UB()
            v = self.ck(x << y, t) if op == '<<' and INTS[t][1] else fit(x << y, t) if op == '<<' else x >> y
        else:
            t = uac(a[2], b[2]); x, y = conv(a[3], a[2], t), conv(b[3], b[2], t)
            if t in FLOATS:
                if op == '/' and y == 0: raise UB()
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
                if t == 'float': v = rnd32(v)
                if v != v or math.isinf(v): raise UB()
            else:
                if op in '/%':
                    if y == 0: raise UB()
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); v = self.ck(q, t); v = v if op == '/' else x - q * y
                else: v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]; v = self.ck(v, t)
        return tuple(f'(({a[i]}) {op} ({b[i]}))' for i in (0, 1)) + (t, v)
    def ck(self, v, t):
        w = fit(v, t)
        if w != v and INTS[t][1]: raise UB()
        return w


def ppexpr(r, d):
    """-> (text, value, unsigned) with intmax semantics"""
    M = 1 << 64
    def norm(v, u): v %= M; return v if u or v < M // 2 else v - M
    if d == 0 or r.random() < .12:
        k = r.random()
        if k < .15: return r.choice([('defined FOO', 1, 0), ('defined(NOPE)', 0, 0), ('NOPE', 0, 0), ('FOO', 7, 0), ('NEGFOO', -3, 0), ('(ADD(2,3))', 5, 0)])
        if k < .2: c = r.choice('aA0'); return (f"'{c}'", ord(c), 0)
        if k < .3: return r.choice([("'\\n'", 10, 0), ('true_is_0', 0, 0), ("'\\x41'", 65, 0)])
        u = r.random() < .3; v = r.choice([0, 1, 2, 3, 63, 255, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, r.getrandbits(r.randint(1, 63))])
        s = r.choice([str(v), hex(v), '0' + oct(v)[2:] if v else '0']); return (s + (r.choice(['u', 'ULL', 'UL', 'uLL']) if u else r.choice(['', '', 'L', 'll'])), v, u) if u or r.random() > .0 else None
    k = r.random(); S = r.choice(['', ' ', '  '])
    if k < .2:
        op = r.choice('-~!+'); s, v, u = ppexpr(r, d - 1)
        if op == '!': return (f'!({s})', int(not v), 0)
        v2 = {'-': -v, '~': ~v, '+': v}[op]
        if op == '-' and not u and norm(v2, 0) != v2: return (f'({s})', v, u)
        return (f'{op}({s})', norm(v2, u), u)
    if k < .3:
        c, a, b = ppexpr(r, d - 1), ppexpr(r, d - 1), ppexpr(r, d - 1); u = a[2] or b[2]; return (f'(({c[0]})?({a[0]}){S}:{S}({b[0]}))', norm(a[1] if c[1] else b[1], u), u)
    a, b = ppexpr(r, d - 1), ppexpr(r, d - 1); u = a[2] or b[2]; x, y = norm(a[1], u), norm(b[1], u)
    op = r.choice(['&&', '||', '<', '>', '<=', '>=', '==', '!=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
    t = f'(({a[0]}){S}{op}{S}({b[0]}))'
    if op in ('&&', '||'): return (t, int(bool(a[1]) and bool(b[1])) if op == '&&' else int(bool(a[1]) or bool(b[1])), 0)
    if op in ('<', '>', '<=', '>=', '==', '!='): return (t, int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]), 0)
    if op in ('<<', '>>'):
        t = f'(({a[0]}){S}{op}{S}(({b[0]})&31))'; n = b[1] & 31; x = a[1]
        if op == '<<':
            if not a[2] and (x < 0 or norm(x << n, 0) != x << n): return (f'({a[0]})', a[1], a[2])
            return (t, norm(x << n, a[2]), a[2])
        return (t, x >> n, a[2])
    if op in '/%':
        if y == 0: return (f'({a[0]})', a[1], a[2])
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); v = q if op == '/' else x - q * y
    else: v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
    if not u and norm(v, 0) != v: return (f'({a[0]})', a[1], a[2])
    return (t, norm(v, u), u)


def lits(v, t):
    if t == 'i64': return f'{v}ll' if v > -(1 << 63) else '(-9223372036854775807ll-1)'
    if t == 'u64': return f'{v}ull'
    if t == 'u32': return f'{v}u'
    if t == 'i32': return f'{v}' if v > -(1 << 31) else '(-2147483647-1)'
    return f'{v}'


def source(r):
    g = []; tests = []; keys = []
    for k in range(6):
        e = E(r, floats=r.random() < .5); c, v, t, val = e.gen(r.randint(1, 5)); isf = t in FLOATS; L = (lambda x: f'LOG({"f" if t == "float" else "d"}bits({x}));') if isf else (lambda x: f'LOG({x});')
        b = []
        g.append(f'static {t} g{k}a = {c};'); g.append(f'{r.choice(["const ", ""])}{r.choice(list(INTS) + ["double", "float"]) if 0 else t} g{k}b[3] = {{0, {c}}};')
        b += [L(f'g{k}a'), L(f'g{k}b[1]')]
        b.append(''.join(f'volatile {vt} {n} = {s}; ' for n, vt, s in e.vols))
        b += [f'{{ {t} l = {c}; {L("l")} }}', f'{{ {t} l = {v}; {L("l")} }}', f'{{ static {t} l = {c}; {L("l")} }}', L(f'({c})'), L(f'({v})')]
        mix = c  # a partially folded variant: re-generate by substituting some leaves
        import re
        cut = {n for n, _, _ in e.vols if r.random() < .5}; m = {n: s for n, _, s in e.vols}
        mix = re.sub(r'\bv\d+\b', lambda x: x.group(0) if x.group(0) in cut else '(' + m[x.group(0)] + ')', v); b.append(L(f'({mix})'))
        b.append(f'LOG(sizeof({c})); LOG(sizeof({v}));')
        if not isf and not e.usedf:
            iv = fit(val, 'i32'); n, s = INTS[t]
            b.append(f'_Static_assert(({c}) == ({lits(val, t)}), "value");')
            g.append(f'enum e{k} {{ E{k}a = (int)({c}), E{k}b{f" = (int)(({c}) ^ 1)" if r.random() < .5 else ""} }};' if iv < (1 << 31) - 2 else f'enum e{k} {{ E{k}a = (int)({c}), E{k}b = 0 }};')
            b.append(f'LOG(E{k}a); LOG(E{k}b);')
            g.append(f'char a{k}[(({c}) & 63) + 1]; struct b{k} {{ unsigned f : (({c}) & 15) + 1; int h : (((({c}) >> 2) & 7)) + 1; }};')
            b.append(f'LOG(sizeof(a{k})); {{ struct b{k} q = {{0}}; q.f = -1; q.h = 1; q.h = -q.h; LOG(q.f); LOG(q.h); LOG(sizeof(q)); }}')
            b.append(f'{{ char la[(({c}) & 31) + 1]; LOG(sizeof(la)); }} {{ int da[8] = {{ [(int)(({c}) & 7)] = 5, 6 }}; for(int i = 0; i < 8; i++) LOG(da[i]); }}' if (val & 7) < 7 else '')
            b.append(f'switch(({v}) & 255){{ case (({c}) & 255): LOG(100); break; case ((({c}) & 255) ^ 1): LOG(101); break; default: LOG(102); }}')
            b.append(f'switch({v}){{ default: LOG(202); break; case {c}: LOG(200); }}' if t != '_Bool' else '')
        b.append(f'if({c}) LOG(1); else LOG(2); if({v}) LOG(1); else LOG(2); LOG(({c}) ? 3 : 4); LOG(({v}) ? 3 : 4); LOG(!({c})); {{ int w = 0; while({c}){{ if(++w > 3) break; }} LOG(w); w = 0; do {{ if(++w > 3) break; }} while({c}); LOG(w); for(w = 0; {c}; w++) if(w > 2) break; LOG(w); }}')
        b.append(f'{{ _Bool q = {c}, p = {v}; static _Bool z = {c}; LOG(q); LOG(p); LOG(z); }}')
        ct = r.choice(list(INTS)); 
        try: conv(val, t, ct); g.append(f'{ct} h{k} = {c};'); b.append(f'LOG(h{k}); {{ {ct} l = {c}; LOG(l); l = {v}; LOG(l); }}')
        except UB: pass
        for _ in range(2):
            s, pv, u = ppexpr(r, r.randint(1, 5))
            if r.random() < .3: s = r.choice(['(0 && (1/0)) || ', '(1 || (1%0)) && ']) + f'(({s}) || !({s}))'; pv, u = 1, 0
            w = f'{pv}' if not u else f'{pv}u'
            if not u and pv == -(1 << 63): w = '(-9223372036854775807-1)'
            b.append(f'\n#if {s}\nLOG(1);\n#elif 1\nLOG(0);\n#endif\n#if ({s}) == {w}\nLOG(11);\n#else\nLOG(10);\n#endif\n#if -1 {r.choice(["<", ">"])} ({s})\nLOG(21);\n#else\nLOG(20);\n#endif\n')
        keys += [('const', t, op) for op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '?', '&&', '||', '<', '==', '!', '~', '(float)', '(double)', '(i8)', '(u8)', '(i16)', '(u16)', '(i64)', '(u64)', '(u32)', '(_Bool)') if op in c]
        tests.append(f'EXPORT u64 t_{k}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0;\n' + '\n'.join(b) + '\nreturn out[0]; }')
    return PRELUDE + '#define FOO 7\n#define NEGFOO (-3)\n#define ADD(a,b) a + b\n' + '\n'.join(g) + '\n' + '\n'.join(tests), keys
