"""Random objects with random initializers; every member that has a defined value is logged."""
from cgen import PRELUDE
INT = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'long': 32, '_Bool': 1, 'enum en': 31, 'char': 8}
PRE = PRELUDE + '''
enum en { EA, EB = 7, EC = -3 };
struct base { i32 a; u16 b[5]; struct { char c; i64 d; } e[3]; } gbase[6];
static u8 gbytes[64];
static int fn0(int x){ return x + 11; } static int fn1(int x){ return x * 3; }
static u64 rel(void *p){ u64 b = (u64)gbase, c = (u64)gbytes, x = (u64)p; if(!x) return 0x7777; if(x - b < sizeof(gbase)) return 0x10000 + x - b; if(x - c < sizeof(gbytes)) return 0x20000 + x - c; return 0x30000; }
static u64 str(char *p){ if(!p) return 0x7777; u64 h = 1; for(int i = 0; i < 12 && p[i]; i++) h = h * 131 + (u8)p[i]; return h; }
static u64 wstr(u16 *p){ if(!p) return 0x7777; u64 h = 2; for(int i = 0; i < 12 && p[i]; i++) h = h * 131 + p[i]; return h; }
static u64 fun(int (*f)(int)){ return f ? f(5) : 0x7777; }
static void dirty(u64 v){ volatile u64 a[300]; for(int i = 0; i < 300; i++) a[i] = v * 0x9e3779b97f4a7c15; }
'''
# a type is ('s', name) scalar, ('a', elem, n), ('r', kw, tagtext, [(name, type, bits)])


class G:
    def __init__(self, r): self.r = r; self.k = 0; self.recs = []; self.decl = ''; self.keys = set()
    def nm(self, p): self.k += 1; return f'{p}{self.k}'
    def scalar(self):
        r = self.r; x = r.random()
        if x < .62: return ('s', r.choice(list(INT)))
        if x < .76: return ('s', r.choice(['float', 'double']))
        return ('s', r.choice(['void *', 'char *', 'u16 *', 'fn']))
    def dtext(self, t, n):
        """declarator text"""
        dims = ''
        while t[0] == 'a': dims += f'[{t[2]}]' if t[2] else '[]'; t = t[1]
        if t[0] == 'r': return f'{t[2]} {n}{dims}'
        if t[1] == 'fn': return f'int (*{n}{dims})(int)'
        return f'{t[1]} {n}{dims}'
    def ty(self, d):
        r = self.r; x = r.random()
        if d <= 0 or x < .45: return self.scalar()
        if x < .68: return ('a', self.ty(d - 1), r.randint(1, 4))
        if x < .74: return ('a', ('s', r.choice(['char', 'u8', 'i8', 'u16'])), r.randint(1, 7))
        if self.recs and x < .85: return r.choice(self.recs)
        return self.rec(d - 1)
    def fields(self, d, union):
        r = self.r; F = []; s = ''
        for i in range(r.randint(1, 5)):
            x = r.random()
            if x < .2:
                t = r.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', '_Bool'])
                for _ in range(r.randint(1, 3)):
                    if r.random() < .15: s += f'{t} : {r.randint(0, INT[t])}; '
                    else: n = self.nm('b'); w = r.randint(1, INT[t]); s += f'{t} {n} : {w}; '; F.append((n, ('s', t), w))
            elif x < .32 and d > 0:
                u = r.random() < .4; f, b = self.fields(d - 1, u); kw = 'union' if u else 'struct'; s += f'{kw} {{ {b}}}; '; F.append((None, ('r', kw, None, f), 0)); self.keys.add('anonymous ' + kw)
            else:
                n = self.nm('m'); t = self.ty(d); s += self.dtext(t, n) + '; '; F.append((n, t, 0))
        if not F: n = self.nm('m'); s += f'i32 {n}; '; F.append((n, ('s', 'i32'), 0))
        return F, s
    def rec(self, d):
        r = self.r; u = r.random() < .22; kw = 'union' if u else 'struct'; F, s = self.fields(d, u); n = self.nm('T')
        pk = r.choice(['', '', '', '#pragma pack(push, 1)\n'])
        if r.random() < .5: self.decl += f'{pk}{kw} {n} {{ {s}}};\n'; text = f'{kw} {n}'
        else: self.decl += f'{pk}typedef {kw} {n} {{ {s}}} {n};\n'; text = n
        if pk: self.decl += '#pragma pack(pop)\n'
        t = ('r', kw, text, F); self.recs.append(t); return t
    # ---- values
    def value(self, t, const, bits=0):
        r = self.r; n = t[1]
        if n in INT:
            if not const and r.random() < .4: return r.choice(['q', '(q + 3)', '(int)(q * 7)', 'w', 'gv', '(q & 1 ? 5 : -9)', 'fn0((int)q)', '(u8)q', '(q > w)'])
            x = r.random()
            if x < .5: return str(r.choice([0, 1, -1, 5, 100, -100, 127, 255, 40000, -40000, 2147483647, r.getrandbits(31)]))
            if x < .6: return r.choice(["'a'", "'\\xff'", "L'\\x1234'", "EB", "EC", "sizeof(int)", "!3", "~7"])
            if x < .7: return r.choice(['0.5', '0.0', '1.25f'] if bits else ['3.75', '-2.5f', '0.5', '1e3'] if n in ('i16', 'i32', 'i64', 'long') else ['3.75', '0.5', '0.0', '99.5f'])
            if x < .8: return f'{r.getrandbits(63)}{r.choice(["", "ull", "ll"])}' if r.random() < .5 else f'0x{r.getrandbits(32):x}u'
            return f'({r.choice(["i8", "u8", "i16", "u16", "u32", "i64"])})({r.getrandbits(20)} {r.choice("+-*^|")} {r.getrandbits(9)})'
        if n in ('float', 'double'):
            if not const and r.random() < .4: return r.choice(['(double)(i32)q', '(float)w', 'gd', '(i32)q', 'gd * 2'])
            return r.choice(['0', '1', '-7', '0.0', '-0.0', '1.5', '-2.25f', '1e10', '3.1', '0x10', '123456789', '18446744073709551615ull', "'c'", '1e-3f'])
        if n == 'void *': return r.choice(['0', '(void *)0', '&gbase[2]', 'gbase + 3', '&gbase[1].b[3]', '&gbase[2].e[1].d', 'gbytes', '&gbytes[7]', 'gbytes + 5 + 2', '(char *)&gbase[1] + 6', '&gbase[0].e[2]', '(void *)&gbase[3].b', '&gbase->a', '(u8 *)(gbase + 2) + 1', '1 + gbytes', '&gbytes[9] - 4', '&(&gbase[2])[1]', '&(gbase+1)->b[2]', '&(*(gbase+1)).e[1]', '*&gbase[1].b', '(&gbase[3])[-1].b + 1', '&gbase[2].b[-1]', '&((&gbase[4]) - 2)->e[1].d', '(i64 *)gbytes + 1'])
        if n == 'char *': return r.choice(['0', '"hello"', '"a" "bc"', '""', '&"xyzzy"[2]', '"foo\\n\\t\\x41\\101"', '"world" + 1', '(char *)"cast"'])
        if n == 'u16 *': return r.choice(['0', 'L"wide"', 'L"" L"joined"', 'L"\\u20ac1"', '&L"abcdef"[3]'])
        if n == 'fn': return r.choice(['0', 'fn0', 'fn1', '&fn0', '*fn1', '**fn0'])
        raise Exception(n)
    def string(self, t):
        """string initializer for a character array type, or None"""
        r = self.r
        if t[0] != 'a' or t[1][0] != 's' or t[1][1] not in ('char', 'u8', 'i8', 'u16') : return None
        n = t[2] or 5; L = r.randint(0, n); s = ''.join(r.choice(['a', 'b', 'Z', '0', ' ', '\\n', '\\000', '\\177', '\\377', "'"]) for _ in range(L))
       
        s = ('L' if t[1][1] == 'u16' else '') + '"' + s + '"'; self.keys.add('string ' + t[1][1])
        return s if r.random() < .7 else '{' + s + '}'
    # ---- children of an aggregate
    def nkids(self, t): return len(t[3]) if t[0] == 'r' else t[2]
    def kid(self, t, i): return t[3][i][1] if t[0] == 'r' else t[1]
    def braces(self, t, const, act, path, d=0):
        """'{...}' for aggregate t at path; act maps union paths to the active member"""
        return '{' + self.items(t, const, act, path, d) + '}'
    def active(self, t, act, path):
        """active member of a union at path (fixed once per object)"""
        if path not in act: act[path] = 0 if self.r.random() < .5 else self.r.randrange(len(t[3]))
        return act[path]
    def items(self, t, const, act, path, d):
        r = self.r; out = []; n = self.nkids(t); cur = [0] if n else None
        if t[0] == 'a' and t[2] is None: raise Exception
        budget = r.choice([1, 2, 3, 5, 8, 12, 20]); touched = []; deep = False
        def over(c): return any(x[:len(c)] == c or c[:len(x)] == x for x in touched)
        def free(c, s): return not over(c) or s[0] == 's' and s[1] in INT and c in touched
        if t[0] == 'r' and t[1] == 'union' and self.active(t, act, path) != 0: cur = None
        while budget > 0:
            budget -= 1
            if cur is not None and not free(cur, self.at(t, cur)): cur = None
            if cur is None or r.random() < .18:
                if cur is None and r.random() < .6 and out: break
                des, cur = self.designate(t, act, path)
                if not free(cur, self.at(t, cur)): cur = None; continue
                pre = des + ' = '; deep |= len(cur) > 1; self.keys.add('designator depth %d%s' % (len(cur), ' elided-after' if out else ''))
            else: pre = ''
            # the subobject at the cursor
            s = t; p = path
            for i in cur: p = p + (i,); s = self.kid(s, i)
            # descend by brace elision
            el = False; start = cur
            while True:
                if s[0] == 's':
                    v = self.value(s, const, self.bits(t, cur)); v = '{' + v + '}' if not el and r.random() < .04 else v; out.append(pre + v); break
                st = self.string(s)
                if st and not (deep and not pre) and (not el or st[0] != '{') and r.random() < .75: out.append(pre + st); break
                if s[0] == 'r' and s[2] and not const and r.random() < .25 and not self.hasunion(s): out.append(pre + f'sv_{self.sv(s)}'); self.keys.add('struct value'); break
                isu = s[0] == 'r' and s[1] == 'union'
                bad = isu and self.active(s, act, p) != 0
                if el and bad: out.pop() if 0 else None; return self.close(out)
                if not el and (bad or r.random() < .6): out.append(pre + self.braces(s, const, act, p, d + 1)); break
                self.keys.add('brace elision'); 
                cur = cur + [0]; p = p + (0,); s = self.kid(s, 0); el = True
            touched.append(cur); cur = self.advance(t, cur)
        return self.close(out)
    def close(self, out): return ', '.join(out) + (',' if out and self.r.random() < .15 else '')
    def at(self, t, cur):
        for i in cur: t = self.kid(t, i)
        return t
    def bits(self, t, cur):
        b = 0
        for i in cur: b = t[3][i][2] if t[0] == 'r' else 0; t = self.kid(t, i)
        return b
    def hasunion(self, t):
        if t[0] == 's': return False
        if t[0] == 'a': return self.hasunion(t[1])
        return t[1] == 'union' or any(self.hasunion(f[1]) for f in t[3])
    def advance(self, t, cur):
        cur = list(cur)
        while cur:
            s = t
            for i in cur[:-1]: s = self.kid(s, i)
            if not (s[0] == 'r' and s[1] == 'union') and cur[-1] + 1 < self.nkids(s): cur[-1] += 1; return cur
            cur.pop()
        return None
    def designate(self, t, act, path):
        r = self.r; s = t; des = ''; cur = []; p = path
        while True:
            if s[0] == 's': return des, cur
            if s[0] == 'r':
                i = self.active(s, act, p) if s[1] == 'union' else r.randrange(len(s[3])); f = s[3][i]; cur.append(i); p = p + (i,)
                if f[0] is None: s = f[1]; continue
                des += '.' + f[0]; s = f[1]
            else:
                i = r.randrange(s[2]); des += f'[{i}]'; cur.append(i); p = p + (i,); s = s[1]
            if r.random() < .62: return des, cur
    def sv(self, s):
        if not hasattr(self, 'svs'): self.svs = {}
        if s[2] not in self.svs:
            k = self.svs[s[2]] = len(self.svs); self.svd = getattr(self, 'svd', '') + f'{s[2]} sv_{k} = {self.braces(s, True, {}, ())};\n'
        return self.svs[s[2]]
    # ---- logging
    def logs(self, t, e, act, path, out):
        if len(out) > 160: return
        if t[0] == 's':
            n = t[1]
            out.append(f'LOG({"fbits" if n == "float" else "dbits"}({e}));' if n in ('float', 'double') else f'LOG({ {"void *": "rel", "char *": "str", "u16 *": "wstr", "fn": "fun"}.get(n, "")}({e}));')
        elif t[0] == 'a':
            for i in range(t[2]): self.logs(t[1], f'{e}[{i}]', act, path + (i,), out)
        else:
            L = [self.active(t, act, path)] if t[1] == 'union' else range(len(t[3]))
            for i in L:
                f = t[3][i]; self.logs(f[1], e if f[0] is None else f'{e}.{f[0]}', act, path + (i,), out)
    def source(self):
        r = self.r; tests = []; g = ''
        for i in range(r.randint(3, 6)):
            t = self.rec(r.choice([1, 2, 2, 3])) if r.random() < .7 else ('a', self.ty(2), r.randint(1, 4)); act = {}; ctx = r.choice(['global', 'static', 'auto', 'auto', 'lit', 'litptr', 'globallit', 'assign', 'arg'])
            infer = t[0] == 'a' and 'ptr' not in ctx and ctx != 'globallit' and r.random() < .6; const = ctx in ('global', 'static', 'globallit'); x = self.nm('x')
            if ctx in ('assign', 'arg') and t[0] == 'a': ctx = 'auto'
            if t[0] == 'a':
                st = self.string(t); ini = (st if st[0] == '{' or 'lit' not in ctx else '{' + st + '}') if st else self.braces(t, const, act, ())
                # the inferred size: highest index explicitly initialized; the log covers only existing elements
            else: ini = self.braces(t, const, act, ())
            if infer and ini in ('{}', '{,}'): infer = False
            D = lambda n: self.dtext(('a', t[1], None) if infer else t, n); self.keys.add(ctx + (' inferred' if infer else ''))
            T = D('').rstrip(); pre = ''; e = x
            cv = r.choice(['', '', 'const ']) if t[0] != 'a' else ''
            if ctx == 'global': g += f'{r.choice(["", "static "])}{cv}{D(x)} = {ini};\n'
            elif ctx == 'static': pre = f'static {cv}{D(x)} = {ini};'
            elif ctx == 'auto': pre = f'dirty(q); {cv}{D(x)} = {ini};'
            elif ctx == 'lit': pre = f'dirty(q); {self.dtext(("a", t, 1), x) if 0 else ""}'; e = f'(({T}){ini})'
            elif ctx == 'litptr': pre = f'dirty(q); {self.ptr(t, x, infer)} = &({T}){ini};'; e = f'(*{x})'
            elif ctx == 'globallit': g += f'{self.ptr(t, x, infer)} = &({T}){ini};\n'; e = f'(*{x})'
            elif ctx == 'assign': pre = f'dirty(q); {t[2]} {x}; {x} = ({t[2]}){ini};'
            elif ctx == 'arg': g += f'static {t[2]} id{x}({t[2]} a){{ return a; }}\n'; pre = f'dirty(q); {t[2]} {x} = id{x}(({t[2]}){ini});'
            out = []
            if ctx == 'lit':
                # log one random leaf per evaluation of the literal
                self.logs(t, '@', act, (), out); 
                if infer: out = out[:1]
                r.shuffle(out); out = [o.replace('@', e) for o in out[:6]]
            elif infer:
                out.append(f'LOG(sizeof({e}) / sizeof({e}[0]));')
                for j in range(t[2]):
                    o = []; self.logs(t[1], f'{e}[{j}]', act, (j,), o); out.append(f'if({j} < sizeof({e}) / sizeof({e}[0])) {{ ' + ' '.join(o[:60]) + ' }')
            else: self.logs(t, e, act, (), out)
            tests.append(f'EXPORT u64 t_{i}(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0; (void)fn1; {pre}\n' + '\n'.join(out) + '\nreturn out[0]; }')
        return PRE + 'static i64 gv = -77; static double gd = 2.75;\n' + self.decl + getattr(self, 'svd', '') + g + '\n'.join(tests)
    def ptr(self, t, n, infer):
        if t[0] == 'a': return self.dtext(('a', t[1], None if infer else t[2]), f'(*{n})')
        return f'{t[2]} *{n}'


def source(r):
    g = G(r); s = g.source(); return s, sorted(g.keys)
