"""Random programs with structured exception handling and a model of them: nested __try/__except in loops, switches, handlers and
called functions, raised by hardware faults and RaiseException; the model yields the sequence of events of every call."""
import random

CODES = {'null': 0xC0000005, 'div': 0xC0000094, 'brk': 0x80000003, 'ud2': 0xC000001D}
HEAD = '''#include <stdio.h>
#pragma comment(lib, "kernel32")
__declspec(dllimport) void RaiseException(unsigned code, unsigned flags, unsigned count, void *arguments);
int LOG[20000]; int NLOG; int *null; int zero; int G0, G1, depth;
struct rec { unsigned code, flags; struct rec *next; void *address; unsigned count; }; struct ptrs { struct rec *record; void *context; };
static void T(int n){ if(NLOG < 20000) LOG[NLOG++] = n; }
int F(int id, unsigned code, int result){ T(100000 + id); T(code); G1 = G1 * 5 + id; return result; }
int C(int id, unsigned code, unsigned want){ T(200000 + id); return code == want; }
int I(int id, struct ptrs *p, int result){ T(300000 + id); T(p->record->code); T(p->record->count); return result; }
'''


class Thrown(Exception):
    def __init__(self, target): self.target = target
class Leave(Exception):
    def __init__(self, kind, value=None): self.kind = kind; self.value = value
class TooLong(Exception): pass


def i32(x): x &= 0xffffffff; return x - (1 << 32) if x >> 31 else x


class Gen:
    def __init__(self, seed, nf=5):
        self.r = random.Random(seed); self.funcs = []; self.ident = 0
        for i in range(nf): self.funcs.append(self.func(i))
    def nid(self): self.ident += 1; return self.ident
    def func(self, k):
        r = self.r; self.k = k; self.labels = 0
        f = dict(k=k, nl=r.randint(1, 4), pad=r.choice([0, 0, 0, 3, 40, 130, 600, 5000]), body=None); self.f = f
        f['body'] = self.block(r.randint(2, 5), 0, False); f['nlabel'] = self.labels; return f
    def block(self, n, d, loop): return [self.stmt(d, loop) for _ in range(n)]
    def val(self):
        r = self.r; return r.choice([('l', r.randrange(self.f['nl'])), ('p',), ('c', r.randint(0, 9)), ('g',), ('n',)])
    def cond(self):
        r = self.r; return (self.val(), r.choice([2, 3, 4]), r.randint(0, 1))
    def stmt(self, d, loop):
        r = self.r; k = r.random()
        if d >= 4 or k < .14: return ('trace', self.nid(), self.val())
        if k < .22: return ('set', r.randrange(self.f['nl']), self.val(), r.randint(1, 9), self.val())
        if k < .40: return ('raise', r.choice(['null', 'load', 'div', 'soft', 'soft', 'cont', 'brk', 'ud2', 'compound']), r.choice([0xE0000001, 0xE0000002, 0x40000005, 0xC0000194]), self.nid(), r.randrange(self.f['nl']), self.cond() if r.random() < .7 else None)
        if k < .70: return ('try', self.block(r.randint(1, 4), d + 1, loop), self.filter(), self.block(r.randint(1, 3), d + 1, loop))
        if k < .76: return ('if', self.cond(), self.block(r.randint(1, 3), d + 1, loop), self.block(r.randint(0, 2), d + 1, loop))
        if k < .81: return ('loop', r.choice(['for', 'while', 'do']), r.randint(1, 3), self.nid(), self.block(r.randint(1, 3), d + 1, True))
        if k < .84 and loop: return (r.choice(['break', 'continue']), self.cond())
        if k < .86: return ('return', self.cond(), self.val())
        if k < .89: return ('switch', self.val(), [self.block(r.randint(1, 2), d + 1, loop) for _ in range(3)])
        if k < .97 and self.k: return ('call', r.randrange(self.k), self.val(), r.randrange(self.f['nl']))
        return ('trace', self.nid(), self.val())
    def filter(self):
        r = self.r; i = self.nid(); res = r.choice([1, 1, 1, 0, 0, -1]); code = r.choice(list(CODES.values()) + [0xE0000001, 0xE0000002])
        return r.choice([('const', r.choice([1, 1, 1, 0])), ('F', i, res), ('F', i, res), ('eq', code), ('C', i, code), ('ternary', i, code, res), ('and', i, code, r.randint(0, 1)), ('or', i, code, r.randint(0, 1)), ('global', r.choice([2, 3])), ('info', i, res), ('comma', i, res), ('sub', i)])
    # ---- C text
    def cv(self, v): return {'l': lambda: f'l{v[1]}', 'p': lambda: 'p', 'c': lambda: str(v[1]), 'g': lambda: 'G0', 'n': lambda: 'depth'}[v[0]]()
    def cc(self, c): return f'(unsigned)({self.cv(c[0])}) % {c[1]} == {c[2]}'
    def cf(self, f):
        k = f[0]; X = '_exception_code()'
        if k == 'const': return str(f[1])
        if k == 'F': return f'F({f[1]}, {X}, {f[2]})'
        if k == 'eq': return f'{X} == 0x{f[1]:x}'
        if k == 'C': return f'C({f[1]}, {X}, 0x{f[2]:x})'
        if k == 'ternary': return f'{X} == 0x{f[2]:x} ? F({f[1]}, {X}, {f[3]}) : 1'
        if k == 'and': return f'C({f[1]}, {X}, 0x{f[2]:x}) && F({f[1]}, {X}, {f[3]})'
        if k == 'or': return f'C({f[1]}, {X}, 0x{f[2]:x}) || F({f[1]}, {X}, {f[3]})'
        if k == 'global': return f'(unsigned)G0 % {f[1]} != 0'
        if k == 'info': return f'I({f[1]}, _exception_info(), {f[2]})'
        if k == 'comma': return f'T(400000 + {f[1]}), F({f[1]}, {X}, {f[2]})'
        if k == 'sub': return f'S({f[1]})'
    def cs(self, s, ind):
        p = '    ' * ind; k = s[0]; B = lambda b: '{\n' + ''.join(self.cs(x, ind + 1) for x in b) + p + '}'
        if k == 'trace': return f'{p}T({s[1]}); T({self.cv(s[2])});\n'
        if k == 'set': return f'{p}l{s[1]} = {self.cv(s[2])} * {s[3]} + {self.cv(s[4])}; G0 += {s[3]};\n'
        if k == 'raise':
            R = {'null': f'*null = l{s[4]};', 'load': f'l{s[4]} = null[{s[3] % 5}];', 'div': f'l{s[4]} = (l{s[4]} + 1) / zero;', 'soft': f'RaiseException(0x{s[2]:x}, 1, 0, 0);', 'cont': f'RaiseException(0x{s[2]:x}, 0, 0, 0);', 'brk': '__debugbreak();', 'ud2': '__asm__ { ud2 }', 'compound': f'l{s[4]} += G0++ / zero;'}[s[1]]
            if s[1] == 'compound': R = f'l{s[4]} += G0 % zero;'
            return f'{p}T({s[3]}); ' + (f'if({self.cc(s[5])}) ' if s[5] else '') + '{ ' + R + f' T(500000 + {s[3]}); }}\n'
        if k == 'try': return f'{p}__try ' + B(s[1]) + f' __except({self.cf(s[2])}) ' + B(s[3]) + '\n'
        if k == 'if': return f'{p}if({self.cc(s[1])})' + B(s[2]) + (' else ' + B(s[3]) if s[3] else '') + '\n'
        if k == 'loop':
            i = f'i{s[3]}'; b = B([('raw', f'T(600000 + {i});')] + s[4])
            if s[1] == 'for': return f'{p}for(int {i} = 0; {i} < {s[2]}; {i}++)' + b + '\n'
            if s[1] == 'while': return f'{p}{{ int {i} = -1; while(++{i} < {s[2]})' + b + '}\n'
            return f'{p}{{ int {i} = 0; do ' + b + f' while(++{i} < {s[2]}); }}\n'
        if k == 'raw': return p + s[1] + '\n'
        if k in ('break', 'continue'): return f'{p}if({self.cc(s[1])}) {k};\n'
        if k == 'return': return f'{p}if({self.cc(s[1])}) return {self.cv(s[2])};\n'
        if k == 'switch': return f'{p}switch((unsigned){self.cv(s[1])} % 3){{\n' + ''.join(f'{p}case {i}: ' + '{\n' + ''.join(self.cs(x, ind + 1) for x in b) + f'{p}}} ' + ('goto ' if 0 else 'break;\n') for i, b in enumerate(s[2])) + f'{p}}}\n'
        if k == 'call': return f'{p}l{s[3]} = f{s[1]}({self.cv(s[2])}); T(l{s[3]});\n'
        raise KeyError(k)
    def text(self, calls):
        o = [HEAD, 'int S(int id){ int k = id; T(700000 + k); __try { k = k * 3; *null = k; T(1); } __except(F(777, _exception_code(), 1)){ T(k); __try { RaiseException(0xE0000009, 1, 0, 0); } __except(_exception_code() == 0xE0000009){ k += 1; T(k); } } return k & 1; }\n']
        for f in self.funcs:
            o.append(f'int f{f["k"]}(int p){{\n    ' + ''.join(f'int l{i} = {i + 1}; ' for i in range(f['nl'])) + (f'char pad[{f["pad"]}]; pad[{f["pad"] - 1}] = 3; pad[0] = 1; ' if f['pad'] else '') + 'depth++;\n' + ''.join(self.cs(s, 1) for s in f['body']) + '    ' + ''.join(f'T(l{i}); ' for i in range(f['nl'])) + (f'T(pad[0] + pad[{f["pad"] - 1}]); ' if f['pad'] else '') + 'return l0;\n}\n')
        o.append('int run(int k, int n){ int a = n + 7, b = k; NLOG = 0; G0 = n; G1 = 0; depth = 0; __try { switch(k){ ' + ''.join(f'case {f["k"]}: a = f{f["k"]}(n); break; ' for f in self.funcs) + '} T(a); } __except(F(999, _exception_code(), 1)){ T(-1); T(a + b); } T(G0); T(G1); T(depth); printf("%d %d:", k, n); for(int i = 0; i < NLOG; i++) printf(" %d", LOG[i]); printf("\\n"); fflush(0); return 0; }\n')
        o.append('int main(){ ' + ' '.join(f'run({k}, {n});' for k, n in calls) + ' return 0; }\n')
        return ''.join(o)
    # ---- model
    def run(self, k, n, limit=3000):
        self.log = []; self.G0 = n; self.G1 = 0; self.depth = 0; self.stack = []; self.steps = 0; self.events = dict(raised=0, filters=0, handled=0, resumed=0); self.limit = limit
        top = (None, ('F', 999, 1)); self.stack.append(top); a = n + 7
        try: a = self.call(k, n); self.T(a)
        except Thrown as t: assert t.target is top; self.T(-1); self.T(i32(a + k))
        if self.G0 is not None: self.T(self.G0); self.T(i32(self.G1)); self.T(self.depth)
        return self.log
    def T(self, x):
        self.log.append(i32(x))
        if len(self.log) > 15000: raise TooLong
    def fF(self, i, code, res): self.T(100000 + i); self.T(code); self.G1 = i32(self.G1 * 5 + i); return res
    def fC(self, i, code, want): self.T(200000 + i); return int(code == want)
    def sub(self, i):
        self.T(700000 + i); k = i32(i * 3); self.events['raised'] += 1; self.fF(777, CODES['null'], 1); self.T(k); self.events['raised'] += 1; k += 1; self.T(k); return k & 1
    def feval(self, f, code):
        k = f[0]; self.events['filters'] += 1
        if k == 'const': return f[1]
        if k == 'F': return self.fF(f[1], code, f[2])
        if k == 'eq': return int(code == f[1])
        if k == 'C': return self.fC(f[1], code, f[2])
        if k == 'ternary': return self.fF(f[1], code, f[3]) if code == f[2] else 1
        if k == 'and': return int(bool(self.fC(f[1], code, f[2]) and self.fF(f[1], code, f[3])))
        if k == 'or': return int(bool(self.fC(f[1], code, f[2]) or self.fF(f[1], code, f[3])))
        if k == 'global': return int((self.G0 & 0xffffffff) % f[1] != 0)
        if k == 'info': self.T(300000 + f[1]); self.T(code); self.T(2 if code == CODES['null'] else self.nparam(code)); return f[2]
        if k == 'comma': self.T(400000 + f[1]); return self.fF(f[1], code, f[2])
        if k == 'sub': return self.sub(f[1])
    def nparam(self, code): return 1 if code == CODES['brk'] else 0
    def throw(self, code, resume):
        self.events['raised'] += 1
        for t in reversed(self.stack):
            v = self.feval(t[1], code)
            if v > 0: self.events['handled'] += 1; raise Thrown(t)
            if v < 0:
                if not resume: raise TooLong # would be a different exception or repeat for ever: such calls are dropped
                self.events['resumed'] += 1; return
    def call(self, k, p):
        f = self.funcs[k]; self.depth += 1; e = dict(l=[i + 1 for i in range(f['nl'])], p=p)
        try:
            self.seq(f['body'], e)
        except Leave as L:
            assert L.kind == 'return'; return L.value
        for x in e['l']: self.T(x)
        if f['pad']: self.T(3 if f['pad'] == 1 else 4)
        return e['l'][0]
    def v(self, x, e): return {'l': lambda: e['l'][x[1]], 'p': lambda: e['p'], 'c': lambda: x[1], 'g': lambda: self.G0, 'n': lambda: self.depth}[x[0]]()
    def c(self, c, e): return (self.v(c[0], e) & 0xffffffff) % c[1] == c[2]
    def seq(self, b, e):
        for s in b: self.st(s, e)
    def st(self, s, e):
        k = s[0]; self.steps += 1
        if self.steps > self.limit: raise TooLong
        if k == 'trace': self.T(s[1]); self.T(self.v(s[2], e))
        elif k == 'set': e['l'][s[1]] = i32(self.v(s[2], e) * s[3] + self.v(s[4], e)); self.G0 = i32(self.G0 + s[3])
        elif k == 'raise':
            self.T(s[3])
            if s[5] is None or self.c(s[5], e):
                if s[1] == 'div' and 0: pass
                code = {'null': CODES['null'], 'load': CODES['null'], 'div': CODES['div'], 'compound': CODES['div'], 'brk': CODES['brk'], 'ud2': CODES['ud2']}.get(s[1], s[2])
                self.throw(code, s[1] == 'cont'); self.T(500000 + s[3])
        elif k == 'try':
            t = (s, s[2]); self.stack.append(t); n = len(self.stack)
            try: self.seq(s[1], e); self.stack.pop()
            except Thrown as x:
                if x.target is not t: raise
                del self.stack[n - 1:]; self.seq(s[3], e)
            except Leave: del self.stack[n - 1:]; raise
        elif k == 'if': self.seq(s[2] if self.c(s[1], e) else s[3], e)
        elif k == 'loop':
            for i in range(s[2]):
                self.T(600000 + i)
                try: self.seq(s[4], e)
                except Leave as L:
                    if L.kind == 'break': break
                    if L.kind != 'continue': raise
        elif k in ('break', 'continue'):
            if self.c(s[1], e): raise Leave(k)
        elif k == 'return':
            if self.c(s[1], e): raise Leave('return', self.v(s[2], e))
        elif k == 'switch':
            try: self.seq(s[2][(self.v(s[1], e) & 0xffffffff) % 3], e)
            except Leave as L:
                if L.kind != 'break': raise
        elif k == 'call': e['l'][s[3]] = self.call(s[1], self.v(s[2], e)); self.T(e['l'][s[3]])
        else: raise KeyError(k)
