"""Programs of literals of every form; value, size, type and contents are logged."""
import random, struct, re

hexend = re.compile(r'\\x[0-9a-fA-F]+$')

PRE = '''typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
static u64 dbits(double d){ union { double d; u64 u; } x; x.d = d; return x.u; }
static u64 fbits(float d){ union { float d; u32 u; } x; x.d = d; return x.u; }
#define LOG(x) (out[++out[0]] = (u64)(x))
#define TY(x) _Generic((x), char:1, signed char:2, unsigned char:3, short:4, unsigned short:5, int:6, unsigned int:7, long:6, unsigned long:7, long long:10, unsigned long long:11, float:12, double:13, long double:13, default:15)
static void bytes(u64 *out, const void *p, u64 n){ const u8 *b = p; u64 h = 7; for(u64 i = 0; i < n; i++){ h = h * 0x100000001b3 + b[i]; if(n < 9) LOG(b[i]); } LOG(h); LOG(n); }
'''


class G:
    def __init__(self, r): self.r = r; self.k = set(); self.ref = {}; self.body = []; self.glob = []; self.n = 0
    # text may contain \x01: a digit separator, absent in the reference
    def sep(self, s):
        r = self.r
        if r.random() < .12 and len(s) > 2: i = r.randint(1, len(s) - 1); self.k.add('separator'); return s[:i] + '\x01' + s[i:]
        return s
    def integer(self):
        r = self.r; b = r.choice(['dec', 'dec', 'hex', 'hex', 'oct', 'bin'])
        suf = r.choice(['', '', '', '', 'u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'Lu', 'll', 'LL', 'ull', 'ULL', 'uLL', 'llu', 'LLU', 'i64', 'ui64', 'UI64', 'I64'])
        v = r.choice([0, 1, 7, 8, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, r.getrandbits(r.randint(1, 64)), r.getrandbits(64), r.getrandbits(32)])
        if b == 'dec' and 'u' not in suf.lower() and v >= 2**63: v >>= 1
        if suf.lower() in ('i64', 'll') and v >= 2**63: v >>= 1  # the reference makes these signed (Microsoft), C11 unsigned
        t = {'dec': lambda: self.sep(str(v)) if v else '0', 'hex': lambda: r.choice(['0x', '0X']) + self.sep(r.choice(['%x', '%X'])  % v if r.random() < .8 else '%020x'[:0] + '000%x' % v), 'oct': lambda: '0' + self.sep('%o' % v), 'bin': lambda: r.choice(['0b', '0B']) + self.sep(bin(v)[2:])}[b]()
        self.k.add(f'int {b} {suf.lower() or "-"} {v.bit_length() // 8}'); return t + suf
    def floating(self):
        r = self.r; x = r.random(); suf = r.choice(['', '', '', 'f', 'F', 'l', 'L'])
        if x < .25:
            m = f'{r.choice(["", "0", "1", "%x" % r.getrandbits(r.choice([8, 24, 32, 53, 60]))])}'; f = r.choice(['', '.', '.8', '.%x' % r.getrandbits(r.choice([4, 20, 40])), '.0'])
            if not m and f in ('', '.'): m = '1'
            t = r.choice(['0x', '0X']) + m + f + r.choice('pP') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 10, 52, 53, 100, 126] + ([] if suf in 'fF' and suf else [500, 900]))); self.k.add(f'hexfloat {suf.lower()}')
        else:
            y = r.random()
            if y < .2: t = repr(struct.unpack('<d', struct.pack('<Q', r.getrandbits(63)))[0])
            elif y < .3: t = repr(struct.unpack('<f', struct.pack('<I', r.getrandbits(31)))[0])
            elif y < .5: t = f'{r.getrandbits(r.choice([4, 10, 53, 70]))}.{r.getrandbits(r.choice([1, 10, 53, 80]))}'
            elif y < .6: t = f'.{r.getrandbits(r.choice([1, 10, 60]))}'
            elif y < .7: t = f'{r.getrandbits(r.choice([3, 20]))}.'
            elif y < .8: t = r.choice(['0.1', '0.2', '0.3', '1e23', '8.5e22', '9007199254740993.0', '9007199254740992.5', '16777217.0', '0.5000000596046448', '1.7976931348623157e308', '2.2250738585072014e-308', '2.2250738585072011e-308', '4.9e-324', '2.5e-324', '3.4028235e38', '1.17549435e-38', '1e-45', '179769313486231570000000000000000000000000000000', '123456789012345678901234567890.0', '0.000000000000000000000000000000000001', '5e-324', '1.0000000000000002', '1.00000000000000011102230246251565', '0e0', '00.5', '1e0', '3.141592653589793238462643383279'])
            else: t = f'{r.randint(0, 999)}{r.choice(["", ".", ".25"])}{r.choice("eE")}{r.choice(["", "+", "-"])}{r.randint(0, 30)}'
            if 'inf' in t or 'nan' in t: t = '1.5'
            if not any(c in t for c in '.eE'): t += '.0'
            self.k.add(f'decfloat {suf.lower()}')
        if suf in ('f', 'F'):
            # keep the value in the range of float
            try: v = float.fromhex(t) if 'x' in t.lower() else float(t)
            except ValueError: return '1.5f'
            if v != 0 and not 1e-37 < v < 3e38: t = '2.5e-3'
        try: v = float.fromhex(t) if 'x' in t.lower() else float(t)
        except (ValueError, OverflowError): return '0.75'
        if v in (float('inf'),): return '0.75'
        return t + suf
    def esc(self, w, prev=''):
        """one element of a character or string literal of element width w"""
        r = self.r; x = r.random(); m = {1: 255, 2: 0xffff, 4: 0xffffffff}[w]
        if x < .45: return r.choice('abcxyzABCEFL019 _+-*/%&|^<>=!~?:;.,(){}[]#$@`\'"'.replace("'" if self.q == "'" else '"', ''))
        if x < .6: self.k.add('simple escape'); return '\\' + r.choice('abfnrtv\\\'"?0')
        if x < .7: self.k.add('octal escape'); return '\\' + r.choice(['1', '12', '123', '177', '377', '0', '00', '000', '7', '77', '101'])
        if x < .8 and (w > 1 or not prev): self.k.add('hex escape'); return '\\x' + r.choice(['1', '41', 'fF', '7f', '80', '0'] + (['100', 'abcd', 'ffff', '0041'] if w > 1 else []) + (['12345', 'ffffffff'] if w > 2 else []))
        if x < .9: self.k.add('unicode character'); return r.choice('äöüßéπЖ日本€' + ('😀𝄞' if self.q == '"' or w == 4 else ''))
        self.k.add('universal name'); return r.choice(['\\u00e4', '\\u03c0', '\\u65e5', '\\u20AC'] + (['\\U0001F600', '\\U0001d11e'] if self.q == '"' or w == 4 else []) + ['\\U000003c0'])
    def charlit(self):
        r = self.r; self.q = "'"; p, w = r.choice([('', 1), ('', 1), ('L', 2), ('u', 2), ('U', 4)])
        while True:
            e = self.esc(w)
            if p or (ord(e[-1]) < 128 and e[:2] not in ('\\u', '\\U')): break
        if not p and r.random() < .15:
            # several characters
# equal characters: their order is implementation-defined
            e = r.choice(['a', '\\n', '\\x7f', '\\1']) * r.choice([2, 4]); self.k.add('multi-character')
        self.k.add(f"char {p or '-'}"); return f"{p}'{e}'"
    def strlit(self):
        r = self.r; self.q = '"'; p, w = r.choice([('', 1), ('', 1), ('', 1), ('u8', 1), ('L', 2), ('u', 2), ('U', 4)]); parts = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            s = ''
            for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20])):
                e = self.esc(w)
                if s.endswith('?') and e.startswith('?'): continue
                if hexend.search(s) and e[0] in '0123456789abcdefABCDEF': e = 'g'
                s += e
            if r.random() < .06: s += '\\\n' + 'z'; self.k.add('splice')
            pp = p if i == 0 or r.random() < .5 else ''
            if i == 0 and p and r.random() < .15: pp = ''; parts.append(f'"{s}"' if w == 1 else '"ab"'); parts.append(f'{p}"c"'); self.k.add('prefix later'); continue
            # an unprefixed part of a wide concatenation: hex escapes beyond its own width stay out
            parts.append(f'{pp}"{s}"')
        if len(parts) > 1: self.k.add('concatenation')
        self.k.add(f'string {p or "-"}'); return r.choice([' ', '\n', ' /* c */ ', '']).join(parts) if len(parts) > 1 else parts[0], p, w
    def munch(self):
        r = self.r; self.k.add('maximal munch')
        return r.choice(['LOG(a+++b); LOG(a);', 'LOG(a---b); LOG(a);', 'LOG(a+ ++b); LOG(b);', 'LOG(a- --b); LOG(b);', 'LOG(a<<=2); LOG(a);', 'LOG(a>>=1); LOG(a);', 'LOG(a<b>b); LOG(a<-b);', 'LOG(a&&b); LOG(a&b);', 'LOG(a&& &b);', 'LOG(a- -b); LOG(- -a);', 'LOG(a*-b); LOG(a%-b);', 'LOG(a/ *p);', 'LOG(a^=b^=a); LOG(b);', 'LOG(a!=!b);', 'LOG(a=-b); LOG(a);', 'LOG(a==-b);', 'LOG(a?b?1:2:3);', 'LOG(s.x+ps->y); LOG((*ps).x-->2);', 'LOG(ps->x++ +ps->y);', 'LOG(ps-->x0);'[:0] + 'LOG(1.+.5); LOG(1.e1+1);', 'LOG(0x1f+0x1e +1);', 'LOG(.5e1+1.e+1);', 'LOG(a/**/+/**/+b);', 'LOG(a//**/b\n+b);', 'LOG(*p**p);', 'LOG(a\\\n+b);', 'LOG(~-~a); LOG(!~!a);', 'LOG(a|b||a^b&&b);', 'LOG(arr[a>b]); LOG(1[arr]);', 'LOG(sizeof a+b); LOG(sizeof(a)*b); LOG(sizeof(a)-1);', 'LOG((a,b));', 'LOG(a>=b); LOG(a<=b);', 'LOG(a<<1>>1); LOG(a>>b<<1);', 'LOG(L_+u8_+U_+Lx);', 'LOG($d+_x$1);'])
    def idents(self):
        r = self.r; self.k.add('identifiers'); base = ''.join(r.choice('abcXYZ_$019') for _ in range(r.choice([3, 30, 120, 400])))
        base = r.choice('abL_u$') + base; a, b = base + r.choice('AB'), base + r.choice('CD'); c = r.choice(['x', '_', '$']) + base
        return f'{{ int {a} = 1, {b} = 2, {c} = 3; LOG({a} + {b} * 10 + {c} * 100); {a} += {b}; LOG({a}); LOG({c}-{b}); }}'
    def pool(self):
        """many literals whose bytes are prefixes of each other's, of different element sizes"""
        r = self.r; self.k.add('pool'); al = r.choice(['ab', 'abcdefgh']); o = []
        for _ in range(r.choice([6, 20, 60])):
            b = [ord(r.choice(al)) for _ in range(r.choice([1, 2, 3, 3, 4, 5, 7]))]; t = ''.join(map(chr, b)); w = [b[i] | b[i + 1] << 8 for i in range(0, len(b) - 1, 2)]; u = [b[i] | b[i + 1] << 8 | b[i + 2] << 16 for i in range(0, len(b) - 2, 4)]
            f = [f'"{t}"', f'"{t}\\0"', f'"{t}\\0\\0"', 'L"' + ''.join(f'\\x{v:x}' for v in w) + '"', 'L"' + ''.join(f'\\x{v:x}' for v in w) + '\\0"', 'U"' + ''.join(f'\\x{v:x}' for v in u) + '"', 'u"' + ''.join(f'\\x{v:x}' for v in w[:1]) + '"', '""', '"\\0"', 'L""', 'U""', f'u8"{t}"']
            for l in r.sample(f, r.choice([1, 2, 4])): o.append(f'{{ const void *p = {l}; bytes(out, p, sizeof({l})); }}')
        r.shuffle(o); self.body.append('\n'.join(o))
    def item(self):
        r = self.r; x = r.random(); self.n += 1; i = self.n
        if x < .3:
            t = self.integer(); m = r.random()
            if m < .3: self.body.append(f'LOG({t}); LOG(sizeof({t})); LOG(TY({t}));')
            elif m < .5: self.body.append(f'{{ u64 v = {t}; LOG(v); LOG(-{t} < 0); LOG(TY(-{t})); LOG(TY(({t}) + 0)); }}')
            elif m < .7: self.glob.append(f'static const u64 g{i} = {t}; static double d{i} = {t};'); self.body.append(f'LOG(g{i}); LOG(dbits(d{i}));')
            elif m < .8: self.body.append(f'LOG(~{t}); LOG({t} >> 1); LOG(!{t}); LOG(TY(~{t}));')
            elif m < .9: self.glob.append(f'#if {t.split("i64")[0].split("I64")[0].rstrip("uU")} > 1000\nenum {{ E{i} = 1 }};\n#else\nenum {{ E{i} = 2 }};\n#endif'); self.body.append(f'LOG(E{i});')
            else: self.body.append(f'switch(q){{ case {t}: LOG(1); break; default: LOG(q == (u64)({t})); }}')
        elif x < .5:
            t = self.floating(); s = t[-1] in 'fF' and 'x' not in t.lower() or (t[-1] in 'fF' and 'p' in t.lower()); m = r.random(); b = 'fbits' if s else 'dbits'
            if m < .4: self.body.append(f'LOG({b}({t})); LOG(sizeof({t})); LOG(TY({t}));')
            elif m < .6: self.glob.append(f'static {"float" if s else "double"} g{i} = {t};'); self.body.append(f'LOG({b}(g{i}));')
            elif m < .8: self.body.append(f'LOG(dbits({t})); LOG({b}(-{t}));')
            else: self.glob.append(f'static float f{i}[2] = {{ {"1.5f" if not s else t}, 2 }}; static double d{i}[] = {{ {t}, -{t} }};'); self.body.append(f'LOG(fbits(f{i}[0])); LOG(dbits(d{i}[0])); LOG(dbits(d{i}[1]));')
        elif x < .65:
            t = self.charlit(); m = r.random()
            if m < .4: self.body.append(f'LOG({t}); LOG(sizeof({t})); LOG(TY({t}));')
            elif m < .6: self.glob.append(f'static u64 g{i} = {t};'); self.body.append(f'LOG(g{i}); LOG({t} + 1);')
            elif m < .8 and not t.startswith(('u8',)): self.glob.append(f'#if {t} > 60\nenum {{ E{i} = 1 }};\n#else\nenum {{ E{i} = 2 }};\n#endif') if t[0] == "'" and t[2] != "'" and len(t) < 5 and "\\" not in t else None; self.body.append(f'LOG((char){t}); LOG((u16){t});' + (f' LOG(E{i});' if t[0] == "'" and t[2] != "'" and len(t) < 5 and "\\" not in t else ''))
            else: self.body.append(f'switch(q){{ case {t}: LOG(5); break; case {t} + 1: LOG(6); break; default: LOG(7); }}')
        elif x < .9:
            t, p, w = self.strlit(); m = r.random(); el = {'': 'char', 'u8': 'char', 'L': 'u16', 'u': 'u16', 'U': 'u32'}[p]
            if m < .4: self.body.append(f'{{ const void *p = {t}; bytes(out, p, sizeof({t})); LOG(sizeof({t}[0])); LOG((u64)p & {w - 1}); }}')
            elif m < .6: self.glob.append(f'static {el} g{i}[] = {t};'); self.body.append(f'bytes(out, g{i}, sizeof(g{i}));')
            elif m < .75: self.glob.append(f'static const {el} *const g{i} = {t}; enum {{ N{i} = sizeof({t}) }};'); self.body.append(f'bytes(out, g{i}, N{i}); LOG((u64)g{i} & {w - 1});')
            elif m < .85: self.body.append(f'{{ {el} l[] = {t}; bytes(out, l, sizeof(l)); }}')
            else: n = 40; self.body.append(f'{{ {el} l[{n + 300}] = {t}; bytes(out, l, sizeof(l)); }}')
        elif x < .915: self.pool()
        elif x < .96: self.body.append('{ int a = 7, b = 3, arr[3] = { 4, 5, 6 }, *p = &b, L_ = 1, u8_ = 2, U_ = 3, Lx = 4, $d = 5, _x$1 = 6; struct { int x, y; } s = { 3, 4 }, *ps = &s; ' + self.munch() + ' LOG(a); LOG(b); }')
        else: self.body.append(self.idents())


def source(r):
    g = G(r)
    for _ in range(r.randint(6, 30)): g.item()
    s = PRE + '\n'.join(g.glob) + '\nEXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0;\n' + '\n'.join(g.body) + '\nreturn out[0]; }\n'
    if r.random() < .1: s = s.replace('\n', '\r\n'); g.k.add('crlf')
    u = s.encode('utf-8').decode('latin1')
    return u.replace('\x01', "'"), sorted(g.k), u.replace('\x01', '')
