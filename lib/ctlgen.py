"""Random control flow: every executed statement leaves a trace entry; bounded by a fuel counter, so any goto is allowed."""
from cgen import PRELUDE, INTS

HEAD = PRELUDE + '''
static i64 fuel; static u64 *out; static i32 over;
static i64 c(i32 id, i64 v){ if(fuel > 0) LOG(id); fuel--; return v; }
#define T(n) do { if(fuel-- <= 0) goto done; LOG(n); LOG((u64)(a ^ (b << 3) ^ (d << 7))); } while(0)
'''
SW = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'long', 'unsigned long', 'char', '_Bool', 'enum en']


class G:
    def __init__(self, r): self.r = r; self.id = 100; self.labels = []; self.pending = []; self.keys = set(); self.st = 0; self.nolab = 0
    def n(self): self.id += 1; return self.id
    def pv(self):
        return self.r.choice(['a', 'b', 'd', 'a + b', 'b - a', 'a ^ d', 'd & 7', str(self.r.randint(-3, 9)), 'w[a & 3]', 'p->x', '(a > b)', '!d', '(i8)(a * 37)', '(u8)b', 'w[1]', 'n'])
    def val(self):
        return self.pv() if self.r.random() < .6 else self.r.choice(['(a += 1)', '(b ^= 5)', 'd++', '--a', '(w[b & 3] += d)', '(p->x)--', '(st[1].y = a)', '(a = b = d)', '(b *= 3)', '(d -= w[2])'])
    def cond(self, d=3):
        """an expression usable as a truth value; operands of operators without a sequence point are pure"""
        r = self.r; k = r.random()
        if d <= 0 or k < .25: return r.choice([f'c({self.n()}, {self.val()})', f'{self.pv()} {r.choice(["<", ">", "==", "!=", "<=", ">="])} {self.pv()}', self.val(), f'c({self.n()}, {r.choice([0, 1, 2])})', f'{r.choice(["0", "1", "!!f0", "(float)a > 1.5f", "!f0", "!!p", "!p", "!&w[1]", "w == w", "((f0 += 0.5) > 2)", "(f0 < a)", "p == st"])}'])
        if k < .42: self.keys.add('&&'); return f'({self.cond(d-1)} && {self.cond(d-1)})'
        if k < .59: self.keys.add('||'); return f'({self.cond(d-1)} || {self.cond(d-1)})'
        if k < .72: self.keys.add('?:'); return f'({self.cond(d-1)} ? {self.val() if r.random() < .5 else self.cond(d-2)} : {self.cond(d-2)})'
        if k < .76: self.keys.add('cond-scalar'); return f'({r.choice(["f0", "p", "w", "&w[1]", "(float)a", "0.0", "f0 - 1", "(void*)0", "0.5f"])} {r.choice(["&&", "||"])} {r.choice([self.cond(d-1), "p", "f0"])})'
        if k < .82: return f'!({self.cond(d-1)})'
        if k < .9: self.keys.add(','); return f'(c({self.n()}, 0), {self.cond(d-1)})'
        x = f'(({self.cond(d-1)}) {r.choice(["==", "!=", "<", "&", "|", "^", "+"])} {r.choice([0, 1, 2])})'
        return x if r.random() < .5 else f'({r.choice([0, 1, 3])} {r.choice(["==", "-", "|", "*"])} ({self.cond(d-1)}))'
    def cases(self, t):
        r = self.r; m = r.random(); k = r.randint(1, 12)
        if t == '_Bool': v = {0, 1} if k > 6 else {r.choice([0, 1])}
        elif m < .4: b = r.randint(-3, 3); v = set(range(b, b + k))
        elif m < .7: v = {r.randint(-130, 300) for _ in range(k)}
        else: v = {r.choice([0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, (1 << 31) - 1, -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 63) - 1, -(1 << 63) + 1]) for _ in range(k)}
        if t in ('u64',): v = {x & ((1 << 64) - 1) for x in v}
        elif t in ('u32', 'unsigned long'): v = {x & 0xffffffff for x in v}
        elif t == 'i64': pass
        else: v = {x for x in v if -(1 << 31) <= x < (1 << 31)} or {0, 3}
        return sorted(v, key=lambda x: r.random())
    def lit(self, v, t):
        if t == 'u64': return f'{v}ull'
        if t in ('u32', 'unsigned long'): return f'{v}u'
        if t == 'i64' and not -(1 << 31) < v < (1 << 31): return f'{v}ll'
        if v == -(1 << 31): return '(-2147483647-1)'
        if 32 < v < 126 and chr(v).isalnum() and self.r.random() < .3: return f"'{chr(v)}'"
        return str(v)
    def block(self, d, loop, sw):
        r = self.r; s = ''.join(self.stmt(d - 1, loop, sw) for _ in range(r.randint(0, 3) if d < 3 else r.randint(1, 4)))
        return '{' + s + '}' if r.random() < .8 or not s.strip().startswith(('T(', 'if', 'while', 'for', 'switch', 'do')) or len(s) > 60 and s.count(';') > 1 else '{' + s + '}'
    def single(self, d, loop, sw):
        """a statement that is not a block where C allows it"""
        r = self.r
        if r.random() < .6: return self.block(d, loop, sw)
        return ' ' + self.stmt(d - 1, loop, sw, nodecl=True)
    def stmt(self, d, loop, sw, nodecl=False):
        r = self.r; k = r.random(); pre = ''
        if r.random() < .12 and not self.nolab: l = f'L{self.n()}'; self.labels.append(l); pre = f'{l}: '
        if d <= 0 or k < .2: return pre + r.choice([f'T({self.n()});', f'T({self.n()});', f'a = {self.pv()};', f'b += {self.pv()};', f'd = c({self.n()}, {self.cond(2)});', f'w[{r.randrange(4)}] = c({self.n()}, {self.cond(2)});', f'{self.val()};', ';', f'{self.cond(2)};', f'p = {r.choice(["&st[0]", "&st[1]", "p == st ? st + 1 : st"])};'])
        if k < .34: self.keys.add('if'); return pre + f'if({self.cond()}){self.single(d, loop, sw)}\n' + (f'else{self.single(d, loop, sw)}\n' if r.random() < .6 else '') if r.random() < .7 else pre + f'if({self.cond()}){{{self.stmt(d-1, loop, sw)}}} else if({self.cond()}){self.single(d, loop, sw)} else {self.block(d, loop, sw)}'
        if k < .42: self.keys.add('while'); return pre + f'while(c({self.n()}, {self.cond(2)}) && fuel > 0){self.single(d, True, sw)}\n'
        if k < .49: self.keys.add('do'); return pre + f'do {self.block(d, True, sw)} while({self.cond()} && ++over < 200);\n'
        if k < .6:
            self.keys.add('for'); v = f'i{self.n()}'; m = r.random()
            if m < .5:
                self.nolab += 1; body = self.single(d, True, sw); self.nolab -= 1
                return pre + f'for({r.choice(["int", "u8", "i64", "short"])} {v} = {r.choice(["0", "c(7, a & 3)", "-2"])}; {v} < {r.randint(1, 6)} && fuel > 0; {r.choice([v + "++", v + " += 2", f"c({self.n()}, {v}++)", f"++{v}, b++"])}){body}\n'
            return pre + f'for({r.choice(["", "a = 0", f"c({self.n()}, 1), b = 2"])}; {r.choice(["fuel > 0", self.cond(2) + " && fuel > 0", "c(9, fuel > 0)"])}; {r.choice(["", "a++", f"c({self.n()}, d++)"])}){{ if(++over > 40) break; {self.stmt(d-1, True, sw)} }}\n'
        if k < .74:
            self.keys.add('switch'); t = r.choice(SW); cs = self.cases(t); dflt = r.randrange(len(cs) + 1) if r.random() < .7 else -1; e = r.choice([self.val(), f'c({self.n()}, {self.val()})', self.cond(2), r.choice([self.lit(x, t) for x in cs]), f'{self.lit(r.choice(cs), t)} + (a & 1)', f'({t}){self.val()}', f'{self.lit(r.choice(cs), t)}'])
            if r.random() < .3: nocast = True; head = f'switch({e})' if t == 'i64' and False else f'switch(({t})({e}))'
            else: head = f'switch(({t})({e}))'
            self.keys.add(('switch', t)); b = ''
            if r.random() < .1: b += f'int q{self.n()};'
            for i, x in enumerate(cs):
                if i == dflt: b += f'default: T({self.n()}); {r.choice(["break;", "", ""])}\n'
                m = r.random()
                if m < .08 and d > 1: self.keys.add('duff'); b += f'do {{ if(++over > 40) break; case {self.lit(x, t)}: {self.stmt(d-1, True, True)} }} while(c({self.n()}, {self.val()} & 1) && ++over < 200);\n'
                elif m < .14 and d > 1: self.keys.add('caseinif'); b += f'if({self.cond(2)}){{ case {self.lit(x, t)}: {self.stmt(d-1, loop, True)} }} else {{ T({self.n()}); }}\n'
                else: b += f'case {self.lit(x, t)}: {r.choice(["", f"T({self.n()});", f"T({self.n()});", self.stmt(d-1, loop, True, nodecl=True)])} {r.choice(["break;", "break;", "", "continue;" if loop else ""])}\n'
            if dflt == len(cs): b += f'default: {self.stmt(d-1, loop, True, nodecl=True)}'
            m = r.random()
            if m < .25: v = f'k{self.n()}'; return pre + f'{{ {t} {v} = ({t})({e}); switch({v}){{{b} ; }} }}\n'
            if m < .35 and t not in ('i64', 'u64', '_Bool', 'enum en', 'char'): v = f'k{self.n()}'; self.keys.add('switch-bitfield'); return pre + f'{{ struct {{ int z : 3; {t} f : {r.randint(5, 8)}; }} {v}; {v}.f = ({t})({e}); switch({v}.f){{{b} ; }} }}\n'
            if m < .42: v = f'k{self.n()}'; return pre + f'{{ static volatile {t} {v}[2]; {v}[1] = ({t})({e}); switch({v}[1]){{{b} ; }} }}\n'
            return pre + head + '{' + b + ' ; }\n'
        if k < .80: 
            if loop and r.random() < .5: self.keys.add('continue'); return pre + (f'if({self.cond(2)}) continue;' if r.random() < .8 else f'{{ T({self.n()}); continue; }}')
            if loop or sw: self.keys.add('break'); return pre + (f'if({self.cond(2)}) break;' if r.random() < .8 else f'{{ T({self.n()}); break; }}')
        if k < .87: self.keys.add('goto'); self.pending.append(1); return pre + (f'if({self.cond(2)} && fuel-- > 0) goto @;' if r.random() < .85 else f'{{ if(fuel-- <= 0) goto done; goto @; }}')
        if k < .89: return pre + f'if({self.cond(2)}) return out[0];'
        if nodecl: return pre + f'T({self.n()});'
        k = r.random()
        if k < .3: v = f'x{self.n()}'; return pre + f'{{ {r.choice(["int", "u8", "i64", "float"])} {v} = (i8)c({self.n()}, {self.val()}); T({self.n()}); LOG({v}); {self.stmt(d-1, loop, sw)} }}\n'.replace('LOG(x', 'LOG((i64)x')
        if k < .5: self.keys.add('static'); v = f's{self.n()}'; return pre + f'{{ static {r.choice(["int", "u16", "i64"])} {v} = {r.randint(0, 9)}; {v} += (i32)({self.val()}) & 15; LOG({v}); }}\n'
        if k < .7: v = f'z{self.n()}'; return pre + f'{{ int {v}[{r.randint(2, 5)}] = {{ a & 7, [1] = c({self.n()}, b) & 31 }}; int *y{v} = {v} + 1; a = (a + *y{v} + {v}[{v}[0] & 1]) & 0xffff; {self.stmt(d-1, loop, sw)} }}\n'
        return pre + self.block(d, loop, sw)
    def func(self, k):
        r = self.r; self.labels = []; body = ''.join(self.stmt(r.randint(2, 5), False, False) for _ in range(r.randint(3, 8)))
        import re
        L = re.findall(r'\b(L\d+):', body) or ['done']
        while '@' in body: body = body.replace('@', r.choice(L + (['done'] if r.random() < .1 else [])), 1)
        return f'EXPORT u64 t_{k}(u64 *o_, u64 n, u64 q_, u64 w_){{ struct {{ i32 x; u8 y; }} st[2] = {{{{1}}, {{4}}}}, *p = st; i64 a = 1, b = {r.randint(-3, 9)}, d = {r.randint(0, 3)}; i64 w[4] = {{3, 1, 4, 1}}; double f0 = {r.choice(["0.0", "1.5", "-1.0"])}; out = o_; out[0] = 0; fuel = {r.choice([60, 200, 500])}; over = 0; (void)p; (void)f0;\n{body}\ndone: LOG(a); LOG(b); LOG(d); LOG(w[0]); LOG(w[3]); LOG(over); return out[0]; }}'


def source(r):
    g = G(r); t = [g.func(k) for k in range(r.randint(2, 4))]
    return HEAD + 'enum en { EN0, EN1, EN2 };\n' + '\n'.join(t), [('ctl',) + ((k,) if isinstance(k, str) else k) for k in g.keys]
