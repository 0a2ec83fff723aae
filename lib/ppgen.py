"""Random macro programs, and preprocessing-token comparison."""
import random, re

TOK = re.compile(r'''\s+|(?P<t>(?:u8|[LuU])?"(?:\\.|[^"\\\n])*"|(?:[LuU])?'(?:\\.|[^'\\\n])*'|\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*|[A-Za-z_$][A-Za-z0-9_$]*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-*/%+&^|]=|\#\#|[^\s])''')


def tokens(text):
    out = []
    for l in text.replace('\r', '').split('\n'):
        if re.match(r'\s*#\s*(line|pragma|\d)', l): continue
        out += [m.group('t') for m in TOK.finditer(l) if m.group('t')]
    return out


def norm(t):
    """__FILE__ of an included header"""
    if t.startswith('"'): return re.sub(r'"\./', '"', t)
    return t


def nospace(t):
    return re.sub(r'\s+', '', norm(t)) if t.startswith('"') else norm(t)


PUNCT = ['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '=', '!', '~', '?', ':', ';', '.', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '<<=', '>>=', '...', '[', ']', '{', '}', '#']


class G:
    def __init__(self, r): self.r = r; self.n = 0; self.keys = set(); self.files = {}; self.mac = {}; self.names = ['A', 'B', 'C', 'D', 'EE', 'F', 'G', 'H', 'I1', 'J_', 'foo', 'bar', 'x', 'y', 'z', 'int', 'unsigned', 'L', 'e', 'if']; self.k = 0
    def ws(self, must=False):
        r = self.r; x = r.random()
        if x < .55: return ' '
        if x < .7: return '' if not must else '  '
        if x < .78: return '\t'
        if x < .85: self.keys.add('comment'); return r.choice(['/* c */', '/**/', ' /* "x\' // */ ', '/*\n*/' if not self.inline else '/***/'])
        if x < .92: self.keys.add('splice'); return r.choice([' \\\n', '\\\n '])
        return '  '
    def lit(self):
        return self.r.choice(['1', '0', '42', '0x1F', '7u', '10ll', '1.5', '2.f', '.5', '1e5', '1e+5', "'a'", "'\\n'", "'\\''", '"s"', '"a b"', '"\\"q\\\\"', 'L"w"', '""', "'\"'", '"it\'s"', '"//no"', '"/*"'])
    def tok(self):
        r = self.r; x = r.random()
        if x < .5: return r.choice(self.names)
        if x < .72: return self.lit()
        return r.choice(PUNCT[:-1])
    def toks(self, n, d=0, params=()):
        """a token text with macro calls; parentheses are balanced"""
        r = self.r; out = []
        for _ in range(n):
            x = r.random()
            if params and x < .35: out.append(r.choice(params))
            elif x < .55 and self.mac and d < 3: out.append(self.call(r.choice(sorted(self.mac)), d))
            elif x < .62 and d < 4: out.append('(' + self.toks(r.randint(0, 3), d + 1, params) + ')')
            elif .62 <= x < .66 and d < 4: out.append('(' + self.toks(r.randint(0, 2), d + 1, params) + ',' + self.toks(1, d + 1, params) + ')')
            else: out.append(self.tok())
        return self.join(out)
    def join(self, toks):
        s = ''
        for t in toks:
            if s:
                w = self.ws()
                # tokens may be written without space only where that changes nothing for sure
                if w in ('', '\\\n') or (w.startswith('\\\n') and w.strip('\\\n') == ''): w = w if s[-1] in '()' and t[:1] in '()' or s[-1] == '(' and (t[:1].isalpha()) else ' '
                if s[-1] == '/' and w[:1] == '/': w = ' ' + w
                if w[-1:] == '/' and t[:1] in '*/': w += ' '
                s += w
            s += t
        return s
    def call(self, name, d):
        r = self.r; a, va = self.mac[name]
        if a is None or r.random() < .06: return name
        if not a and not va: return name + r.choice(['()', '( )', ' ()', '(\n)' if not self.inline else '()'])
        n = len(a) + (r.choice([0, 1, 1, 2, 3]) if va else 0)
        if n == 0: n = 1
        self.keys.add('call'); args = []
        for i in range(n):
            x = r.random()
            if x < .12: args.append(''); self.keys.add('empty argument')
            else: args.append(self.toks(r.choice([1, 1, 1, 2, 3]), d + 1))
        w = lambda: r.choice(['', '', ' ', '\n ' if not self.inline else ' ', '/*c*/'])
        if len(args) == len(a) and va: self.keys.add('no variable arguments')
        return name + r.choice(['', '', '', ' ', ' /**/ ']) + '(' + ','.join(w() + x + w() for x in args) + ')'
    def define(self):
        r = self.r; n = r.choice(self.names[:14] if r.random() < .8 else self.names); self.inline = True; x = r.random()
        if n in self.mac:
            if r.random() < .6: self.keys.add('undef'); return f'#undef {n}\n' + ('' if self.mac.pop(n) and r.random() < .3 else self.define2(n))
            return ''
        return self.define2(n)
    def define2(self, n):
        r = self.r; x = r.random(); self.inline = True; hashp = '#' if r.random() < .85 else r.choice(['# ', '  #', '#/**/', ' # \\\n'])
        self.mac.pop(n, None)
        if x < .4:
            b = self.toks(r.choice([0, 1, 1, 2, 3, 5]), 2); b = self.paste(b, ())
            self.mac[n] = (None, False); self.keys.add('object macro'); return f'{hashp}define {n}{" " if b else ""}{b}\n'
        p = r.sample(['a', 'b', 'c', 'x', 'y'], r.choice([0, 1, 1, 2, 2, 3])); va = r.random() < .3
        if va: self.keys.add('variadic macro')
        pp = p + (['__VA_ARGS__'] if va else []); body = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
            y = r.random()
            if pp and y < .4: body.append(r.choice(pp))
            elif pp and y < .52: body.append('#' + r.choice(['', ' ', '/**/']) + r.choice(pp)); self.keys.add('stringize')
            elif y < .68 and pp: body.append(self.pasted(pp))
            elif y < .8 and self.mac: self.inline = True; body.append(self.call2(r.choice(sorted(self.mac)), pp))
            elif y < .85: body.append('(' + self.toks(r.randint(0, 2), 3, pp) + ')')
            else: body.append(self.tok())
        b = self.join(body); self.mac[n] = (p, va); self.keys.add('function macro')
        return f'{hashp}define {n}({r.choice([",", ", ", " , "]).join(p + (["..."] if va else []))}){r.choice([" ", "", "  "]) if b[:1] not in ("", "(") or 1 else ""}{b}\n'
    def call2(self, name, pp):
        a, va = self.mac[name]; r = self.r
        if a is None: return name
        if r.random() < .1: return name
        n = len(a) + (r.randint(0, 2) if va else 0)
        return f'{name}(' + ','.join(self.join([r.choice(list(pp) + [self.tok()]) if pp else self.tok() for _ in range(r.choice([0, 1, 1, 2]))]) for _ in range(n)) + ')'
    def pasted(self, pp):
        # only identifier/number shapes: every result is one valid token, whatever the arguments are
        r = self.r; self.keys.add('paste'); h = lambda: r.choice(['##', ' ## ', '## ', '/**/##'])
        k = r.randint(2, 4); q = [r.choice(['w', 'v_', 'k1', r.choice([p for p in pp if p != '__VA_ARGS__'] or ['w'])]) for _ in range(k)]; s = q[0]
        for t in q[1:]: s += h() + t
        return s
    def paste(self, b, pp):
        r = self.r
        if r.random() < .15: self.keys.add('paste in object macro'); return b + (' ' if b else '') + r.choice(['q##w', 'A ## B', 'p ## 1', '< ## <', '- ## >', '+ ## +', '& ## =', 'a ## b ## c'])
        return b
    def cond(self):
        r = self.r; n = lambda: r.choice(self.names[:14])
        at = lambda: r.choice([f'defined {n()}', f'defined({n()})', f'!defined ( {n()} )', '0', '1', '2 > 1', 'undefinedname', "'a' == 97", '(1 ? 0 : 1)', '-1 > 0u', '0x10 == 16', '1 << 3 > 7', '__LINE__ > 5', '!0 && 1 || 0', '~0 == -1'])
        return r.choice([at(), at(), f'{at()} && {at()}', f'{at()} || {at()}', f'!({at()})', f'({at()}) == ({at()})'])
    def junk(self):
        return self.r.choice(['#error not here\n', '#include "nonexistent.h"\n', 'junk # junk\n', '#define\n', '#unknown x\n', '#elifx\n', '#define A(\n', '/* # */ #endifx\n', '0x 1.2.3 `@\n', '#\n', '# /* null */\n'])
    def lines(self, n, d=0, live=True):
        r = self.r; out = ''
        for _ in range(n):
            x = r.random(); saved = None
            if x < .3: out += self.define()
            elif x < .42 and d < 3:
                self.keys.add('conditional'); k = r.random(); h = r.choice(['#', '# ', ' #'])
                # the branches may define different macros: after the group every name touched is forgotten
                snap = dict(self.mac); und = set(snap)
                o = f'{h}if {self.cond()}\n' if k < .6 else f'{h}ifdef {r.choice(self.names[:14])}\n' if k < .8 else f'{h}ifndef {r.choice(self.names[:14])}\n'
                def sub():
                    # no definitions inside, so that what is defined afterwards is known
                    return self.text(d + 1) + (self.lines2(r.randint(0, 2), d + 1)) 
                o += sub()
                if r.random() < .4: o += f'{h}elif {self.cond()}\n' + sub(); self.keys.add('elif')
                if r.random() < .5: o += f'{h}else{r.choice(["", " // x", " /* */"])}\n' + sub()
                out += o + f'{h}endif\n'
            elif x < .47: self.keys.add('skipped group'); out += '#if 0\n' + self.junk() + ('#if 1\n' + self.junk() + '#else\n' + self.junk() + '#endif\n' if r.random() < .4 else '') + ('#else\n' + self.text(d + 1) if r.random() < .5 else '') + '#endif\n'
            elif x < .53: self.keys.add('__LINE__'); out += r.choice(['__LINE__\n', 'A __LINE__ /*\n\n*/ __LINE__\n', '\\\n __LINE__ \\\n __LINE__\n', '__LINE__ __FILE__\n'])
            elif x < .6 and d < 2 and len(self.files) < 4: out += self.include(d)
            elif x < .63: out += r.choice(['\n', '#\n', '# /* null */\n', '  \n', '// comment \\\n continued\n', '/* multi\n line */\n'])
            else: out += self.text(d)
        return out
    def lines2(self, n, d):
        return ''.join(self.text(d) for _ in range(n))
    def text(self, d):
        self.inline = False; return self.toks(self.r.randint(1, 6), 0) + self.r.choice(['\n', '\n', ' // end\n', ' /* end */\n', ';\n'])
    def include(self, d):
        r = self.r; n = f'h{len(self.files)}.h'; self.files[n] = ''; g = r.random(); body = self.lines(r.randint(1, 4), d + 1) + ';\n'
        if g < .3: body = f'#ifndef GUARD_{n[:2]}\n#define GUARD_{n[:2]}\n{body}#endif\n'; self.keys.add('include guard')
        elif g < .5: body = '#pragma once\n' + body; self.keys.add('pragma once')
        else: body = 'marker %s\n' % n[:2]
        self.files[n] = body; self.keys.add('include')
        k = r.random()
        one = f'#include "{n}"\n' if k < .7 else f'# include <{n}>\n' if k < .8 else f'#define HDR_{n[:2]} "{n}"\n#include HDR_{n[:2]}\n' if k < .9 else f'#define HDQ_{n[:2]} <{n}>\n#include HDQ_{n[:2]} // c\n'
        return one + (self.text(d) + f'#include "{n}"\n' if r.random() < .4 else '')
    def source(self):
        r = self.r; s = ''
        for _ in range(r.randint(2, 6)): s += self.define()
        s += self.lines(r.randint(6, 22)); return s


def source(r):
    g = G(r); s = g.source()
    if r.random() < .1: s = s.rstrip('\n')
    if r.random() < .1 : s = s.replace('\n', '\r\n'); g.keys.add('crlf'); g.files = {n: b.replace('\n', '\r\n') for n, b in g.files.items()}
    return s, g.files, sorted(g.keys)


class Arith:
    """integer expressions for #if"""
    LITS = ['0', '1', '2', '3', '7', '255', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000', '0x7fffffffffffffff', '1u', '0u', '0xffffffffffffffffu', '0x8000000000000000u', '017', "'a'", "'\\0'", "'\\n'", 'undef', 'defined X', '!defined(Y)', '10ull', '5ll', '0b101', 'ONE', 'SUM(3,4)', '-1', '-7', '-0x7fffffffffffffff']
    def __init__(self, r): self.r = r
    def e(self, d=0):
        r = self.r; x = r.random()
        if d > 4 or x < .2: return r.choice(self.LITS)
        if x < .3: return r.choice('-~!+') + ' ' + self.e(d + 1)
        if x < .4: return f'({self.e(d+1)} ? {self.e(d+1)} : {self.e(d+1)})'
        if x < .5: return f'({self.e(d+1)} {r.choice(["<<", ">>"])} {r.choice(["0", "1", "3", "31", "32", "63", "5u"])})'
        o = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||'])
        a, b = self.e(d + 1), self.e(d + 1)
        return f'({a} {o} {b})' if r.random() < .7 else f'{a} {o} {b}'


def arith(r):
    """probe 64-bit values of #if expressions, bit by bit"""
    g = Arith(r); s = '#define X\n#define ONE 1\n#define SUM(a,b) ((a)+(b))\n'
    for i in range(5):
        e = g.e(); s += f'#if {e}\nT{i}\n#else\nF{i}\n#endif\n#if ({e}) < 0\nneg\n#endif\n#if ({e}) - (({e}) - ({e})) * 0 > -1\nsigned{i}\n#endif\n'
        for b in r.sample(range(64), 9) + [63]: s += f'#if (({e}) >> {b}) & 1\nb{b}\n#endif\n'
    return s


def strings(r):
    """a program whose data are stringized expansions; it logs a hash of the characters which are no space"""
    g = G(r); body = ''
    for _ in range(r.randint(3, 8)): body += g.define()
    g.inline = True; e = []
    for i in range(r.randint(3, 8)):
        a = g.toks(r.randint(1, 5), 0).replace('\n', ' ').replace('\\ ', ' ')
        e.append(r.choice(['zz_S', 'zz_X', 'zz_X'])+f'({a})')
    n = len(e)
    pre = 'typedef unsigned long long zz_u64;\n'
    main = f'''__declspec(dllexport) zz_u64 t_0(zz_u64 *zz_o, zz_u64 zz_n, zz_u64 zz_q, zz_u64 zz_w){{ zz_o[0] = 0; for(zz_n = 0; zz_n < {n}; zz_n++){{ const char *zz_p = zz_s[zz_n]; zz_u64 zz_h = 5381; for(zz_q = 0; zz_p[zz_q]; zz_q++) if(zz_p[zz_q] != ' ') zz_h = zz_h * 33 + (unsigned char)zz_p[zz_q]; zz_o[++zz_o[0]] = zz_h; }} return zz_o[0]; }}\n'''
    und = ''.join(f'#undef {m}\n' for m in ['int', 'unsigned', 'x', 'y', 'e', 'if'])
    pp = body + '#define zz_S(...) #__VA_ARGS__\n#define zz_X(...) zz_S(__VA_ARGS__)\n'
    pp2 = pre + 'typedef const char *const zz_t;\n' + pp + 'zz_t zz_s[] = {\n' + ',\n'.join(e) + '\n};\n' + und + main
    return pp2, sorted(g.keys)
