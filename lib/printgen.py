"""Random calls of printlike functions and the text they have to print, computed from the values."""
import re, struct

HEAD = r'''typedef unsigned long long u64; typedef long long s64;
static u64 *O; static u64 N;
static void put(u64 v){ O[N++] = v; }
static void str(char *s, u64 n){ put(n); for(u64 i = 0; i < n; i++) put((unsigned char)s[i]); }
static int record(char *f, u64 *a){
    u64 n = 0; while(f[n]) n++;
    str(f, n);
    for(u64 i = 0; i < n; i++){
        if(f[i] != '%') continue;
        i++; if(f[i] == '%') continue;
        int prec = -1;
        while(f[i] == '-' || f[i] == '+' || f[i] == ' ' || f[i] == '#' || f[i] == '0') i++;
        if(f[i] == '*'){ i++; put(*a++); } else while(f[i] >= '0' && f[i] <= '9') i++;
        if(f[i] == '.'){ i++; prec = 0; if(f[i] == '*'){ i++; prec = (int)*a; put(*a++); } else while(f[i] >= '0' && f[i] <= '9') prec = prec * 10 + f[i++] - '0'; }
        while(f[i] == 'h' || f[i] == 'l' || f[i] == 'j' || f[i] == 'z' || f[i] == 't') i++;
        if(f[i] == 's'){ char *s = (char *)*a++; u64 k = 0; while((prec < 0 || k < (u64)prec) && s[k]) k++; str(s, k); } else put(*a++);
    }
    return (int)n;
}
__declspec(printlike) int print(char *f, ...){ return record(f, (u64 *)(&f + 1)); }
__declspec(printlike) int logf(int level, char *f, ...){ put(level); return record(f, (u64 *)(&f + 1)); }
static int cnt;
'''


def conv(fl, w, p, c, v, size=4):
    """C's printf of one value"""
    if c in 'di':
        b = size * 8; v &= (1 << b) - 1; v -= (v >> (b - 1)) << b
        s = str(abs(v)); sign = '-' if v < 0 else '+' if '+' in fl else ' ' if ' ' in fl else ''
    elif c in 'uxXo':
        v &= (1 << size * 8) - 1; sign = ''; s = {'u': '%d', 'x': '%x', 'X': '%X', 'o': '%o'}[c] % v
        if '#' in fl and v: sign = {'x': '0x', 'X': '0X', 'o': '', 'u': ''}[c]
    elif c == 'p': s = '%016X' % v; sign = ''; p = None; fl = fl.replace('0', '')
    elif c == 'c': s = chr(v & 255); sign = ''; p = None; fl = fl.replace('0', '')
    elif c == 's': s = v if p is None else v[:p]; sign = ''; p = None; fl = fl.replace('0', '')
    elif c in 'fegEG':
        s = ('%.' + str(6 if p is None else p) + c) % v; sign = ''
        if s[0] == '-': sign, s = '-', s[1:]
        elif '+' in fl: sign = '+'
        elif ' ' in fl: sign = ' '
        p = None
    else: return None
    if c in 'diuxXo' and p is not None:
        s = s.rjust(p, '0'); fl = fl.replace('0', '')
        if p == 0 and v == 0: s = ''
    if c == 'o' and '#' in fl and s[:1] != '0': s = '0' + s
    w = w or 0
    if w < 0: fl += '-'; w = -w
    if '-' in fl: return (sign + s).ljust(w)
    if '0' in fl: return sign + s.rjust(w - len(sign), '0')
    return (sign + s).rjust(w)


SPEC = re.compile(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t)?(.)', re.S)


class Words:
    def __init__(w, l): w.l = l; w.i = 0
    def next(w): w.i += 1; return w.l[w.i - 1]
    def text(w): n = w.next(); w.i += n; return bytes(x & 255 for x in w.l[w.i - n:w.i]).decode('latin1')


def rendered(w, lev):
    """the text of the next recorded call"""
    pre = f'<{w.next() & 0xffffffff}>' if lev else ''
    f = w.text(); out = ''; at = 0; s32 = lambda x: (x & 0xffffffff) - ((x >> 31 & 1) << 32)
    for m in SPEC.finditer(f):
        out += f[at:m.start()]; at = m.end()
        if m[5] == '%': out += '%'; continue
        wd = s32(w.next()) if m[2] == '*' else int(m[2] or 0); p = None
        if m[3] == '*': p = s32(w.next())
        elif m[3] is not None: p = int(m[3] or 0)
        v = w.text() if m[5] == 's' else w.next()
        if m[5] in 'fegEG': v = struct.unpack('d', struct.pack('Q', v))[0]
        size = {'ll': 8, 'j': 8, 'z': 8, 't': 8}.get(m[4], 4)
        if m[4] == 'hh': v = v & 255 if m[5] not in 'di' else (v & 255) - ((v >> 7 & 1) << 8)
        if m[4] == 'h': v = v & 65535 if m[5] not in 'di' else (v & 65535) - ((v >> 15 & 1) << 16)
        t = conv(m[1], wd, p, m[5], v, size)
        out += t if t is not None else f'<bad conversion {m[0]}>'
    return pre + out + f[at:]


INT = {'char': (1, 1), 'signed char': (1, 1), 'unsigned char': (0, 1), 'short': (1, 2), 'unsigned short': (0, 2), 'int': (1, 4), 'unsigned int': (0, 4), 'long': (1, 4), 'unsigned long': (0, 4), 'long long': (1, 8), 'unsigned long long': (0, 8), '_Bool': (0, 1)}


class P:
    """types: ('int', name) ('bf', name, width) ('f32',) ('f64',) ('str', elem) ('ptr',) ('arr', T, n) ('rec', kind, tag, members [(name or '', T)])"""
    def __init__(g, r): g.r = r; g.keys = set(); g.decls = []; g.recs = []; g.n = 0; g.vars = []; g.body = []; g.out = []; g.calls = []
    def name(g, p='v'): g.n += 1; return f'{p}{g.n}'
    def scalar(g, member=False):
        r = g.r; x = r.random()
        if x < .62: return ('int', r.choice(list(INT)))
        if x < .7: return ('f32',)
        if x < .8: return ('f64',)
        if x < .92: return ('str', r.choice(['char', 'char', 'unsigned char']))
        return ('ptr', r.choice(['int *', 'void *', 'struct S0 *', 'char **', 'short *']))
    def type(g, d):
        r = g.r; x = r.random()
        if d <= 0 or x < .6: return g.scalar()
        if x < .75: return ('arr', g.type(d - 1), r.choice([1, 2, 3, 4]))
        if x < .9 and g.recs: return r.choice(g.recs)
        return g.rec(d - 1)
    def rec(g, d, anon=False):
        r = g.r; k = r.choice(['struct', 'struct', 'struct', 'union']); ms = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5]) if not anon else r.choice([1, 2, 3])):
            x = r.random()
            if x < .15: n, s = r.choice([('int', 4), ('unsigned int', 4), ('unsigned char', 1), ('long long', 8), ('unsigned long long', 8), ('short', 2)]); ms.append((g.name('b'), ('bf', n, r.randrange(1, s * 8 + 1))))
            elif x < .25 and d > 0: ms.append(('', g.rec(d - 1, True)))
            elif x < .35: ms.append((g.name('m'), ('chars', r.choice(['char', 'unsigned char']), r.randrange(2, 7))))
            else: ms.append((g.name('m'), g.type(d)))
        tag = '' if anon else g.name('S'); t = ('rec', k, tag, ms)
        if not anon: g.decls.append(f'{g.spell(t, "", True)};'); g.recs.append(t)
        g.keys.add(k + ('-anonymous' if anon else '')); return t
    def spell(g, t, n, full=False):
        k = t[0]
        if k == 'int': return f'{t[1]} {n}'
        if k == 'bf': return f'{t[1]} {n}:{t[2]}'
        if k == 'f32': return f'float {n}'
        if k == 'f64': return f'double {n}'
        if k == 'str': return f'{t[1]} *{n}'
        if k == 'ptr': return f'{t[1]}{n}'
        if k == 'chars': return f'{t[1]} {n}[{t[2]}]'
        if k == 'arr': return g.spell(t[1], f'{n}[{t[2]}]')
        return f'{t[1]} {t[2]}' + ('{ ' + ' '.join(g.spell(mt, mn, not mn) + ';' for mn, mt in t[3]) + ' }' if full else '') + (f' {n}' if n else '')
    def value(g, t):
        """(initializer, value)"""
        r = g.r; k = t[0]
        if k == 'int':
            s, n = INT[t[1]]
            if t[1] == '_Bool': v = r.randrange(2); return str(v), v
            b = n * 8; v = r.choice([0, 1, 5, 42, 100, r.getrandbits(b - 1), (1 << (b - 1)) - 1, r.randrange(1 << min(b - 1, 12))])
            if s and r.random() < .4: v = -v
            if not s and r.random() < .3: v |= 1 << (b - 1)
            return (str(v) if v >= 0 or n < 8 else f'({v}ll)') + ('ull' if not s and n == 8 else ''), v
        if k == 'bf':
            s, w = INT[t[1]][0], t[2]; v = r.getrandbits(w)
            if s and v >> (w - 1): v -= 1 << w
            return (str(v) if v < 1 << 63 else f'{v}ull') if v != -(1 << 63) else '(-9223372036854775807ll - 1)', v
        if k == 'f32': v = r.choice([0.0, 1.5, -2.25, 1000.125, -0.5, 3.0, 123456.0] if not g.plain else [0.0, 1.0, -2.3, 1000.123, -0.7, 3.0, 123456.0]); return f'{v}f', struct.unpack('f', struct.pack('f', v))[0]
        if k == 'f64': v = r.choice([0.0, 1.5 if not g.plain else 1.6, -2.25 if not g.plain else -2.26, 1e10, -0.1, 3.141592653589793, 1e-7, 123456.789]); return repr(v), v
        if k in ('str', 'chars'):
            v = ''.join(r.choice('abcXYZ 019{}%.-_:') for _ in range(r.randrange(0, 7 if k == 'str' else t[2]))); return f'"{v}"', v
        if k == 'ptr': v = r.choice([0, 1, 0x1000, 0x7fffffff1234, 0xdeadbeefcafe]); return f'({t[1]}){hex(v)}ull', v
        if k == 'arr':
            l = [g.value(t[1]) for _ in range(t[2])]; return '{' + ', '.join(x[0] for x in l) + '}', [x[1] for x in l]
        ms = t[3] if t[1] == 'struct' else t[3][:1]
        l = [g.value(mt) for mn, mt in ms]; return '{' + ', '.join(x[0] for x in l) + '}', [x[1] for x in l]
    def leaf(g, t, v, sp):
        """the text of a scalar, under a {}-specification (flags, width, precision, letters)"""
        fl, w, p, L = sp; fl = fl.replace('#', ''); k = t[0]
        if k in ('int', 'bf'):
            signed, size = INT[t[1]]
            if k == 'bf':
                if t[2] < 32 or size < 4: signed, size = 1, 4  # promoted
                elif t[2] == 32: size = 4
            elif size < 4: signed, size = 1, 4
            c = 'd' if signed else 'x'
            for l in L:
                if l == 'n': c = 'd' if signed else 'u'
                if l in 'xudo': c = l
            return {'x': '0x', 'o': '0o'}.get(c, '') + conv(fl, w, p, c, v, size)
        if k in ('f32', 'f64'): return conv(fl, w, p, 'f', v)
        if k == 'str': return conv(fl, w, p, 's', v) if 's' in L else None
        if k == 'ptr': return conv(fl, w, p, 'p', v)
    def flat(g, t, v, pre):
        if t[0] == 'chars': t = ('arr', ('int', t[1]), t[2]); v = [ord(c) - 256 * (t[1][1] != 'unsigned char' and ord(c) > 127) for c in v.ljust(t[2], '\0')]
        if t[0] == 'arr':
            if not t[2]: yield pre, None, None
            for i in range(t[2]): yield from g.flat(t[1], v[i], f'{pre}[{i}]')
        elif t[0] == 'rec':
            ms = t[3] if t[1] == 'struct' else t[3][:1]
            if not ms: yield pre, None, None
            for (mn, mt), mv in zip(ms, v): yield from g.flat(mt, mv, pre + ('.' + mn if mn else ''))
        else: yield pre, t, v
    def text(g, t, v, sp):
        if t[0] == 'chars' and 's' in sp[3]: return g.leaf(('str', t[1]), v, sp)
        if t[0] in ('rec', 'arr', 'chars'):
            ml = '#' in sp[0]
            if t[0] == 'rec': head = f'({t[1]} {t[2]}){{'
            else: head = '(array){'
            l = []
            for p, lt, lv in g.flat(t, v, ''):
                if lt is None: l.append(f'{p} = {{}}' if p else '')
                else: l.append(f'{p} = {g.leaf(lt, lv, sp)}')
            if ml: return head + '\n' + ''.join(f'    {x},\n' for x in l) + '}'
            return head + ', '.join(l) + '}'
        return g.leaf(t, v, sp)
    def has_str(g, t): return t[0] == 'str' or t[0] == 'arr' and g.has_str(t[1]) or t[0] == 'rec' and any(g.has_str(m[1]) for m in (t[3] if t[1] == 'struct' else t[3][:1]))
    def has_ptr(g, t): return t[0] == 'ptr' or t[0] == 'arr' and g.has_ptr(t[1]) or t[0] == 'rec' and any(g.has_ptr(m[1]) for m in t[3])
    def empty(g, t): return t[0] in ('arr', 'rec') and all(x[1] is None for x in g.flat(t, g.value(t)[1], ''))
    def arg(g, t=None):
        """(expression, type, value)"""
        r = g.r
        n, t, v = r.choice([x for x in g.vars if t is None or x[1] == t] or g.vars)
        x = r.random()
        if x < .55: return n, t, v
        if t[0] == 'arr' and x < .75: i = r.randrange(t[2]); return f'{n}[{i}]', t[1], v[i]
        if t[0] == 'rec' and t[3] and x < .75:
            i = 0 if t[1] == 'union' else r.randrange(len(t[3])); mn, mt = t[3][i]
            if mn and mt[0] != 'bf': return f'{n}.{mn}', mt, v[i]
            return n, t, v
        if x < .8: return f'*(&{n})', t, v
        if x < .86 and t[0] == 'rec': return f'({{ }}, {n})'[6:-1], t, v
        if x < .92 and t[0] == 'rec':
            return f'get_{t[2]}(&{n})', t, v
        if t[0] == 'int' and t[1] in ('int', 'unsigned int', 'long long', 'unsigned long long'):
            s, sz = INT[t[1]]; k = r.randrange(1, 9)
            if s: return (f'({n} ^ {k})', t, v ^ k)
            return f'{n} + {k}', t, (v + k) & (1 << sz * 8) - 1
        if t[0] == 'int' and t[1] not in ('_Bool',) and INT[t[1]][1] < 4: return f'(int){n}', ('int', 'int'), v
        return n, t, v
    def spec(g, t):
        """({}-specification text without colon, parsed, argument expressions before the value)"""
        r = g.r; fl = ''; w = 0; p = None; L = ''; pre = []; s = ''
        if r.random() < .45: return '', ('', 0, None, ''), []
        comp = t[0] in ('rec', 'arr', 'chars')
        if comp and r.random() < .4: fl += '#'
        if r.random() < .3: fl += r.choice(['-', '+', '0', ' ', '+0', '-+'])
        s += fl
        if r.random() < .35:
            if r.random() < .2 and not comp: w = r.choice([0, 3, 12, -7]); s += '*'; pre.append(str(w))
            else: w = r.randrange(1, 14); s += str(w)
        if r.random() < .35:
            if r.random() < .2 and not comp: p = r.choice([0, 2, 6]); s += '.*'; pre.append(str(p))
            else: p = r.randrange(0, 9); s += f'.{p}'
        if r.random() < .5 or (t[0] == 'str') and r.random() < .9 or s and s.strip('+- #0') == '' and s.strip() == '': L = r.choice(['x', 'u', 'd', 'o', 'n', 's', 'xs', 's', 'un'])
        return s + L, (fl, w, p, L), pre
    def usable(g, t, sp):
        if g.plain and ('0' in sp[0] and sp[2] is not None or t[0] not in ('int', 'bf', 'f32', 'f64') and '0' in sp[0] or t[0] != 'str' and sp[2] is not None and g.has_ptr(t)): return False
        if t[0] == 'arr' and 's' in sp[3] and t[1][0] == 'int' and INT[t[1][1]][1] == 1: return False  # not terminated
        return 's' in sp[3] or not g.has_str(t)
    def piece(g):
        """(text in the format string, arguments, text printed)"""
        r = g.r; x = r.random()
        if x < .3:
            s = r.choice(['abc ', ' = ', '%%', '{ ', '{;', '}', '}}', ': ', '100%% ', '{-}', '{a b} ', '\\n', '{1 }', '{{ ', 'x{ y }', '"' .replace('"', '\\"'), '# ', '\\t', '{"'.replace('"', '\\"')]); return s, [], s.replace('%%', '%').replace('\\n', '\n').replace('\\t', '\t').replace('\\"', '"')
        if x < .55:
            for _ in range(20):
                e, t, v = g.arg(); s, sp, pre = g.spec(t)
                if t[0] == 'bf' or not g.usable(t, sp): continue
                g.keys.add('braces' + (':' + re.sub(r'\d+', '1', s) if s else '')); g.keys.add('arg-' + t[0])
                f = '{}' if not s else '{' + ('' if s[0] in '#.*' and r.random() < .3 else ':') + s + '}'
                return f, pre + [e], g.text(t, v, sp)
        if x < .7:
            for _ in range(20):
                n, t, v = r.choice(g.vars); s, sp, pre = g.spec(t)
                if not g.usable(t, sp) or pre: continue
                eq = r.random() < .5; g.keys.add('named' + ('=' if eq else '') + (':' if s else ''))
                return '{' + n + ('=' if eq else '') + (':' + s if s else '') + '}', [], (n + ' = ' if eq else '') + g.text(t, v, sp)
        if x < .78:
            for _ in range(20):
                e, t, v = g.arg(); fl = r.choice(['', '', '', '#' if t[0] in ('rec', 'arr', 'chars') else '0', '-', '+']); w = r.choice([0, 0, 0, 9]); p = r.choice([None, None, 3, 0])
                if t[0] == 'bf' or not g.usable(t, (fl, w, p, '')): continue
                g.keys.add('question')
                return '%' + fl + (str(w) if w else '') + (f'.{p}' if p is not None else '') + '?', [e], g.text(t, v, (fl, w, p, ''))
        fl = r.choice(['', '', '-', '0', '+', '#', ' ']); w = r.choice([0, 0, 6, 11]); p = r.choice([None, None, 2, 5]); pre = []
        if g.plain and fl == '0': p = None
        s = '%' + fl
        if w and r.random() < .2: s += '*'; pre.append(str(w))
        elif w: s += str(w)
        if p is not None:
            if r.random() < .2: s += '.*'; pre.append(str(p))
            else: s += f'.{p}'
        k = r.choice(['d', 'u', 'x', 'X', 'o', 'i', 'f', 'e', 'g', 's', 'c', 'p', 'll', 'hh', 'h'])
        if g.plain and k in ('hh', 'h'): k = 'd'
        g.keys.add('c-' + k)
        c = [x for x in g.vars if x[1][0] == {'f': 'f64', 'e': 'f64', 'g': 'f64', 's': 'str', 'p': 'ptr'}.get(k, 'int')]
        if k == 's': c = c + [x for x in g.vars if x[1][0] == 'chars']
        size = 4
        if k == 'll': c = [x for x in c if INT[x[1][1]][1] == 8]; size = 8; k = r.choice('dux'); lm = 'll'
        elif k == 'hh': c = [x for x in c if INT[x[1][1]][1] == 1 and x[1][1] != '_Bool']; lm = 'hh'; k = 'd'
        elif k == 'h': c = [x for x in c if INT[x[1][1]][1] == 2]; lm = 'h'; k = 'd'
        else: lm = ''; c = [x for x in c if k not in 'duxXoic' or INT[x[1][1]][1] <= 4]
        if not c: return ' ', [], ' '
        n, t, v = r.choice(c)
        if lm == 'hh': v = (v & 255) - ((v >> 7 & 1) << 8)
        if lm == 'h': v = (v & 65535) - ((v >> 15 & 1) << 16)
        if k == 'c': p = None; s = '%' + ('-' if fl == '-' else '') + (str(w) if w else ''); pre = []; fl = fl if fl == '-' else ''; v = v if 32 < v < 127 else 65; n = f'(char){v}'
        if k in 'p': fl = ''; w = 0; p = None; s = '%'; pre = []
        if k == 's': fl = fl if fl == '-' else ''; s = '%' + fl + (str(w) if w else '') + (f'.{p}' if p is not None else ''); pre = []
        if k in 'feg' and fl == '#': fl = ''; s = s.replace('#', '')
        return s + lm + k, pre + [n], conv(fl, w, p, k, v, size)
    def call(g):
        r = g.r
        if r.random() < .15:
            args = []; exp = []
            for i in range(r.choice([1, 1, 2, 3])):
                for _ in range(30):
                    e, t, v = g.arg()
                    if not g.has_str(t) and t[0] not in ('bf',): break
                else: e, t, v = '7', ('int', 'int'), 7
                args.append(e); exp.append((e + ' = ' if re.fullmatch(r'\w+', e) and not e[0].isdigit() else '') + g.text(t, v, ('', 0, None, '')))
            g.keys.add('no-format'); lev = r.random() < .2
            return lev, args, ' '.join(exp) + '\n'
        ps = [g.piece() for _ in range(r.choice([1, 2, 3, 4, 6]))]
        # no piece may change the meaning of its neighbours
        f = ''
        for i, p in enumerate(ps):
            a = p[0]
            if f[-1:] == '{' or f.endswith('"') and 0: a = ' ' + a; ps[i] = (a, p[1], ' ' + p[2])
            f += a
        args = [a for p in ps for a in p[1]]; exp = ''.join(p[2] for p in ps)
        if r.random() < .1 and len(f) > 4 and '\\' not in f: k = r.randrange(1, len(f)); lit = f'"{f[:k]}" "{f[k:]}"'
        else: lit = f'"{f}"'
        return r.random() < .2, [lit] + args, exp


def program(r, plain=False):
    """plain: only conversions C defines"""
    g = P(r); g.plain = plain; g.decls.append('struct S0;')
    for _ in range(r.randint(1, 3)): g.rec(2)
    for _ in range(r.randint(5, 12)):
        t = g.type(2) if r.random() < .6 else ('chars', r.choice(['char', 'unsigned char']), r.randrange(3, 9)) if r.random() < .2 else g.scalar()
        n = g.name(r.choice(['v', 'value_', 'a', 'xs'])); i, v = g.value(t); g.vars.append((n, t, v))
        sc = r.choice(['loc', 'loc', 'glob'])
        (g.body if sc == 'loc' else g.out).append(('static ' if sc == 'glob' else '') + g.spell(t, n) + f' = {i};')
    exp = []; body = []
    for _ in range(r.randint(4, 12)):
        lev, args, text = g.call(); k = r.randrange(9)
        s = f'logf({k}, {", ".join(args)})' if lev else f'print({", ".join(args)})'
        body.append(r.choice([f'{s};', f'{s};', f'r += {s};', f'if({s} > -1) cnt++;', f'for(int i_ = 0; i_ < 1; i_++){{ {s}; }}'])); exp.append((lev, (f'<{k}>' if lev else '') + text))
    fn = [f'static {t[1]} {t[2]} get_{t[2]}({t[1]} {t[2]} *p){{ cnt++; return *p; }}' for t in g.recs]
    src = HEAD + '\n'.join(g.decls + fn + g.out) + '\n__declspec(dllexport) u64 t_0(u64 *out, u64 n_, u64 q_, u64 w_){\n  O = out; N = 1; int r = 0;\n  ' + '\n  '.join(g.body + body) + '\n  out[0] = N - 1; return N - 1; }\n'
    return src, exp, g.keys


# ---- the checking of C format strings -------------------------------------------------------------------------------------------------
VARS = dict(i8='signed char', u8='unsigned char', i16='short', u16='unsigned short', i32='int', u32='unsigned int', i64='long long', u64='unsigned long long', f32='float', f64='double',
            ps='char *', pcs='const char *', pw='unsigned short *', pi='int *', pd='double *', pv='void *', ca=('char', '[10]'), wa=('unsigned short', '[4]'), ia=('int', '[4]'))
FINT = {('', 'd'): 'i32', ('', 'u'): 'u32', ('hh', 'd'): 'i8', ('hh', 'u'): 'u8', ('h', 'd'): 'i16', ('h', 'u'): 'u16', ('ll', 'd'): 'i64', ('ll', 'u'): 'u64', ('l', 'd'): 'i32', ('l', 'u'): 'u32'}
FSIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8}


def conversion(r, wrong):
    """-> (specifier, argument or None): an argument which certainly fits, or certainly does not"""
    fl = r.choice(['', '', '', '5', '-8', '05', '12'])
    while True:
        k = r.random()
        if k < .5:
            le, c = r.choice(list(FINT)); t = FINT[le, c]; co = r.choice({'d': 'di', 'u': 'uxXo'}[c]); good = [t] + (['u' + t[1:], 'i' + t[1:]] if co in 'xXo' else [])
            size = FSIZE[t]; promoted = size < 4
            bad = ['f32', 'f64', 'ps', 'pv', 'pi', 'ca'] + (['i64', 'u64'] if size < 8 else ['i32', 'u32', 'i16', 'u8', 'i8']); s = '%' + fl + le + co
        elif k < .6: le = r.choice(['', '', 'l']); s = '%' + le + r.choice('fFeEgGaA'); good = ['f64', 'f32']; bad = list(FSIZE) + ['ps', 'pd', 'pv']
        elif k < .7: s = '%c'; good = ['i8', 'u8']; bad = ['f64', 'ps', 'pv', 'i64', 'f32']
        elif k < .75: s = '%lc'; good = ['u16']; bad = ['f64', 'ps', 'pv', 'i64']
        elif k < .85: s = '%' + r.choice(['', '-20', '9']) + 's'; good = ['ps', 'pcs', 'ca']; bad = ['i32', 'u64', 'f64', 'pi', 'pd', 'pw', 'wa', 'ia', 'u8']
        elif k < .9: s = '%ls'; good = ['pw', 'wa']; bad = ['ps', 'pcs', 'ca', 'i32', 'pi', 'f64']
        else: s = '%p'; good = ['pv', 'pi', 'ps', 'pd', 'ia', 'ca']; bad = ['i32', 'u64', 'f64', 'u8', 'f32']
        if wrong and r.random() < .06: return '%' + r.choice(['hf', 'hhs', 'llc', 'lp', 'hp']), r.choice(['f64', 'ps', 'i8', 'pv'])
        return s, r.choice(bad if wrong else good)


def formats(r, n=80, count=False):
    """-> (source, lines which deserve a warning, lines which do not)"""
    o = ['#define EXPORT __declspec(dllexport)', '__declspec(printlike) int lg(char *format, ...){ return format[0]; }', '__declspec(printlike) int lv(int level, char *format, ...){ return format[0] + level; }']
    for k, t in VARS.items(): o.append(f'{t[0]} {k}{t[1]};' if isinstance(t, tuple) else f'{t} {k};')
    o.append('struct s { char c; long long l; double d; char *p; int i; } st, *pst;'); o.append('EXPORT void t(void){')
    mem = dict(i8='c', i64='l', f64='d', ps='p', i32='i'); bad = set(); good = set()
    for _ in range(n):
        m = r.choice([1, 1, 2, 3, 5]); w = r.randrange(m) if r.random() < .5 else -1; f = ''; a = []
        for j in range(m):
            s, v = conversion(r, j == w); f += r.choice(['', 'x ', '%% ', '-> ', 'v=']) + s + r.choice(['', ' ', ',', '\\n'])
            if v in mem and v != 'i8' and r.random() < .25: v = r.choice(['st.', 'pst->']) + mem[v]
            elif v == 'ps' and r.random() < .3: v = '"text"'
            elif v == 'i32' and r.random() < .4: v = r.choice(['7', '(i32 + 1)', 'lg("")', 'i32 * 2', '-1'])
            elif v == 'f64' and r.random() < .3: v = r.choice(['1.5', 'f64 * 2', '(f32 + f64)'])
            elif v == 'i64' and r.random() < .3: v = r.choice(['7ll', 'i64 - 1', '(i64 + i32)'])
            elif v == 'pi' and r.random() < .3: v = '&i32'
            a.append(v)
        x = r.random()
        if count: (a.pop if x < .5 else lambda: a.append('i32'))(); w = 0 # an argument is missing or left over
        o.append(f'  {r.choice(["lg(", "lv(3, "])}"{f}"{"".join(", " + v for v in a)});'); (bad if w >= 0 else good).add(len(o))
    o.append('}'); return '\n'.join(o) + '\n', bad, good
