"""Programs which describe themselves: every mark call passes the address (or a value) of something whose debug information is checked; the generator knows file, line, scope and type."""

BASIC = [('char', 'i1', 1), ('signed char', 'i1', 1), ('unsigned char', 'u1', 1), ('short', 'i2', 2), ('unsigned short', 'u2', 2), ('int', 'i4', 4), ('unsigned', 'u4', 4), ('long', 'i4', 4), ('unsigned long', 'u4', 4), ('long long', 'i8', 8), ('unsigned long long', 'u8', 8), ('float', 'f4', 4), ('double', 'f8', 8), ('_Bool', 'u1', 1)]


class T: # a type: how it is declared, its signature, what it is
    def __init__(me, kind, sig, pre, post='', **k): me.kind = kind; me.sig = sig; me.pre = pre; me.post = post; me.__dict__.update(k)
    def decl(s, name): return f'{s.pre}{name}{s.post}'


class Gen:
    def __init__(self, r):
        self.r = r; self.k = 0; self.marks = {}; self.files = {}; self.structs = []; self.enums = []; self.typedefs = []; self.globals = []; self.funcs = []; self.local_consts = []
        self.cur = None
    def name(self, p='v'): self.k += 1; return f'{p}{self.k}' + self.r.choice(['', '', '_x', 'Long_identifier_with_many_characters_in_it' * (self.r.random() < .1)])
    # ---- text
    def open(self, f): self.cur = self.files.setdefault(f, []); self.fname = f
    def out(self, *lines):
        for l in lines: self.cur.extend(l.split('\n'))
    def line(self): return len(self.cur) + 1
    def junk(self):
        r = self.r
        if r.random() < .15: self.out(r.choice(['', '// a comment', '/* a comment\n   of several\n   lines */', '', '#if 0\nint nothing(void){}\n#endif', '\n\n']))
    # ---- types
    def basic(self): d, s, n = self.r.choice(BASIC); return T('basic', s, d + ' ', size=n)
    def scalar(self, depth=2):
        r = self.r; k = r.random()
        if k < .5 or not depth: return self.basic()
        if k < .6 and self.enums: e = r.choice(self.enums); return T('enum', 'i4', f'enum {e[0]} ', size=4)
        if k < .85: t = self.object(depth - 1, arr=r.random() < .3); return T('pointer', f'p({t.sig})', t.pre + ('(*' if t.kind in ('array', 'func') else '*'), (')' if t.kind in ('array', 'func') else '') + t.post, size=8, to=t)
        if k < .95:
            rt = r.choice([None, self.basic(), self.scalar(1)]); a = [self.basic() for _ in range(r.randint(0, 4))]
            if rt and rt.post: rt = None
            return T('fptr', f'p(f({rt.sig if rt else "v0"};{",".join(x.sig for x in a)}))', f'{rt.pre if rt else "void "}(*', f')({", ".join(x.decl("") for x in a) or "void"})', size=8)
        return T('pointer', 'p(v0)', 'void *', size=8)
    def object(self, depth=2, arr=True):
        r = self.r; k = r.random()
        if k < .3 and self.structs: s = r.choice(self.structs); return T('struct', f'{s["k"]}:{s["name"]}:*', f'{s["kw"]} {s["name"]} ', s=s)
        if k < .4 and self.typedefs: n, t = r.choice(self.typedefs); return T(t.kind, t.sig, n + ' ', **{x: y for x, y in t.__dict__.items() if x not in ('kind', 'sig', 'pre', 'post')})
        if k < .6 and arr: e = self.object(depth - 1, depth > 1) if depth else self.basic(); n = r.choice([1, 2, 3, 7, 16]); return T('array', f'a{n}({e.sig})', e.pre, f'[{n}]' + e.post, e=e) if e.kind not in ('fptr',) and not (e.kind == 'pointer' and e.post) else e
        return self.scalar(depth)
    def mk_enum(self):
        r = self.r; n = self.name('E_'); v = []; x = 0
        for _ in range(r.randint(1, 6)):
            if r.random() < .5: x = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 70000, 2 ** 31 - 20, -2 ** 31, r.getrandbits(20), -r.getrandbits(10)])
            v.append((self.name('c'), x, r.random() < .5)); x += 1
        self.out(f'enum {n} {{ ' + ', '.join(f'{a} = {b}' for a, b, _ in v) + ' };'); self.enums.append((n, v))
    def mk_struct(self):
        r = self.r; kw = r.choice(['struct', 'struct', 'struct', 'union']); n = self.name('S_'); s = dict(kw=kw, k='S' if kw == 'struct' else 'U', name=n, m=[], bits=[]); L = []
        def members(depth, cnt):
            for _ in range(cnt):
                k = r.random()
                if k < .12 and depth: L.append(r.choice(['struct', 'union']) + ' {'); members(depth - 1, r.randint(1, 3)); L.append('};')
                elif k < .3:
                    d, sg, z = r.choice([b for b in BASIC if b[1][0] in 'iu' and b[0] != '_Bool'])
                    w = r.randint(1, 8 * z); m = self.name('b'); L.append(f'{d} {m} : {w};'); s['bits'].append((m, w, sg))
                    if r.random() < .15: L.append(f'{d} : 0;')
                elif k < .36: t = self.scalar(1); d = self.name('m'); L.append(r.choice(['struct', 'union']) + ' { ' + t.decl(d) + '; } ' + d + 'q;') # a member of an unnamed type
                else: t = self.object(2); m = self.name('m'); L.append(t.decl(m) + ';'); s['m'].append((m, t))
                if r.random() < .1 and t_self(): m = self.name('m'); L.append(f'{kw} {n} *{m};'); s['m'].append((m, T('pointer', f'p({s["k"]}:{n}:*)', '', size=8)))
        t_self = lambda: True
        members(2, r.randint(1, 7)); 
        if not s['m'] and not s['bits']: m = self.name('m'); L.append(f'int {m};'); s['m'].append((m, T('basic', 'i4', 'int ', size=4)))
        if r.random() < .5: self.out(f'{kw} {n} {{ ' + ' '.join(L) + ' };')
        else: self.out(f'{kw} {n} {{', *['    ' + x for x in L], '};')
        self.structs.append(s)
    def mk_typedef(self):
        t = self.object(1, True)
        if t.kind in ('fptr',) or t.kind == 'pointer' and t.post: t = self.basic()
        n = self.name('t_'); self.out(f'typedef {t.decl(n)};'); self.typedefs.append((n, t))
    # ---- marks
    def mark(self, what, expr, indent, **k):
        """a call on its own line, or spread over several"""
        r = self.r; i = len(self.marks) + 1; a = self.line(); x = r.random(); p = '    ' * indent
        if x < .6: self.out(f'{p}v_mark({i}, {expr});')
        elif x < .75: self.out(f'{p}v_mark({i},', f'{p}       {expr});')
        elif x < .85: self.out(f'{p}v_mark(', f'{p}    {i}, // the number', f'{p}    {expr}', f'{p});')
        elif x < .93: self.out(f'{p}MARK({i}, {expr})')
        else: self.out(f'{p}v_mark({i}, \\', f'{p}   {expr});')
        self.marks[i] = dict(what=what, file=self.fname, lines=(a, self.line() - 1), **k); return i
    def static(self, t): return t
    def init(self, t):
        if t.kind in ('basic', 'enum'): return f' = {self.r.randint(0, 1)}'
        return r' = {0}'
    def mk_global(self):
        r = self.r; t = self.object(2); st = r.random() < .4; n = self.name('g'); ini = self.init(t) if r.random() < .5 else ''
        self.out(('static ' if st else '') + t.decl(n) + ini + ';'); self.globals.append(dict(name=n, t=t, static=st, file=self.fname))
    def visible_global(self):
        g = [x for x in self.globals if not x['static'] or x['file'] == self.fname or x['file'].endswith('.h')]; return self.r.choice(g) if g else None
    def var_mark(self, f, scopes, ind):
        """mark something visible: a local or parameter of any scope, not shadowed"""
        r = self.r; seen = {}
        for s in scopes:
            for n, t, kind in s: seen[n] = (t, kind)
        c = [(n, *x) for n, x in seen.items()]
        if not c: return
        n, t, kind = r.choice(c)
        self.mark('static' if kind == 'static' else 'local', r.choice([f'&{n}', f'(void *)&{n}']), ind, name=n, sig=t.sig, func=f['name'])
    def body(self, f, scopes, ind, depth, budget):
        r = self.r; p = '    ' * ind; mine = scopes[-1]; start = len(self.marks)
        for _ in range(budget):
            self.junk(); k = r.random()
            if k < .3: # a new local
                names = [n for s in scopes[:-1] for n, _, _ in s if n not in [x[0] for x in mine]] if r.random() < .5 and start == len(self.marks) else []
                n = r.choice(names) if names else self.name('l'); t = self.object(2); st = r.random() < .07
                if n in [x[0] for x in mine]: continue
                self.out(f'{p}{"static " if st else ""}{t.decl(n)}{self.init(t) if r.random() < .7 else ""};'); mine.append((n, t, 'static' if st else 'local'))
            elif k < .62: self.var_mark(f, scopes, ind)
            elif k < .66:
                g = self.visible_global()
                if g and not any(n == g['name'] for s in scopes for n, _, _ in s): self.mark('global', f'&{g["name"]}', ind, name=g['name'], sig=g['t'].sig, static=g['static'])
            elif k < .69 and self.funcs and f['k'] > 1:
                o = r.choice([x for x in self.funcs if x['k'] < f['k']] or [None])
                if o and o['done'] and f['cost'] + o['cost'] < 300: f['cost'] += o['cost']; self.out(f'{p}{self.call(o, scopes)};')
            elif k < .74: self.out(f'{p}sink += {r.randint(1, 99)}' + r.choice([';', '\n' + p + '  + 1;', ' * (sink | 1);']))
            elif depth:
                k = r.random(); new = scopes + [[]]
                if k < .25: self.out(p + '{'); self.body(f, new, ind + 1, depth - 1, r.randint(2, 5)); self.out(p + '}')
                elif k < .45:
                    self.out(f'{p}if((sink & 1) == {r.randint(0, 1)}){{'); self.body(f, new, ind + 1, depth - 1, r.randint(1, 4)); self.out(p + '}else{'); self.body(f, scopes + [[]], ind + 1, depth - 1, r.randint(1, 4)); self.out(p + '}')
                elif k < .7:
                    n = self.name('i'); new = scopes + [[(n, T('basic', 'i4', 'int ', size=4), 'local')], []]; x = r.random()
                    if x < .6: self.out(f'{p}for(int {n} = 0; {n} < {r.randint(1, 2)}; {n}++){{')
                    else:
                        i = len(self.marks) + 1; a = self.line(); self.marks[i] = dict(what='local', file=self.fname, lines=(a, a), name=n, sig='i4', func=f['name']); self.out(f'{p}for(int {n} = 0; {n} < 1; {n}++, v_mark({i}, &{n})){{')
                    self.body(f, new, ind + 1, depth - 1, r.randint(1, 3)); self.out(p + '}')
                elif k < .8:
                    n = self.name('w'); self.out(f'{p}int {n} = {r.randint(1, 2)};'); mine.append((n, T('basic', 'i4', 'int '), 'local'))
                    if r.random() < .5: self.out(f'{p}while({n}-- > 0){{'); self.body(f, new, ind + 1, depth - 1, r.randint(1, 3)); self.out(p + '}')
                    else: self.out(p + 'do{'); self.body(f, new, ind + 1, depth - 1, r.randint(1, 3)); self.out(f'{p}}}while(--{n} > 0);')
                elif k < .9:
                    self.out(f'{p}switch(sink & 3){{'); 
                    for q in range(r.randint(1, 3)):
                        self.out(f'{p}    case {q}:{{'); self.body(f, scopes + [[]], ind + 2, depth - 1, r.randint(1, 3)); self.out(f'{p}    }}' + r.choice(['break;', '']))
                    self.out(f'{p}    default:{{'); self.body(f, scopes + [[]], ind + 2, depth - 1, r.randint(1, 2)); self.out(f'{p}    }}', p + '}')
                else: self.value_mark(ind)
            else: self.value_mark(ind)
        # after the inner scopes are closed: the outer meaning again
        if r.random() < .7: self.var_mark(f, scopes, ind)
    def value_mark(self, ind):
        r = self.r; k = r.random()
        if k < .3 and self.structs: s = r.choice(self.structs); self.mark('sizeof', f'(void *)sizeof({s["kw"]} {s["name"]})', ind, s=s)
        elif k < .55 and self.enums: e = r.choice(self.enums); c, v, _ = r.choice(e[1]); self.mark('const', f'(void *)(long long){c}', ind, name=c, enum=e[0])
        elif self.structs:
            s = r.choice(self.structs)
            if s['bits'] and r.random() < .6:
                b, w, sg = r.choice(s['bits']); u = self.name('u')
                p = '    ' * ind; self.out(f'{p}static union {{ {s["kw"]} {s["name"]} s; unsigned long long q[1000]; }} {u}; {u}.s.{b} = ({"un" if sg[0] == "u" else ""}signed long long)-1;')
                for q in range(1): self.mark('bits', f'first_bit({u}.q)', ind, s=s, member=b, width=w, sig=sg)
            elif s['m']: m, t = r.choice(s['m']); self.mark('offset', f'&(({s["kw"]} {s["name"]} *)0)->{m}', ind, s=s, member=m, sig=t.sig)
    def call(self, o, scopes):
        a = []
        for t in o['params']:
            a.append('0' if t.kind in ('basic', 'enum', 'pointer', 'fptr') else f'zero_{t.s["name"]}')
        return f'{o["name"]}({", ".join(a)})'
    def mk_func(self, static=False, export=False):
        r = self.r; n = f't_1' if export else self.name('f'); ps = []; f = dict(name=n, k=self.k, done=False, static=static, file=self.fname, cost=20)
        for _ in range(0 if export else r.choice([0, 1, 2, 3, 4, 5, 8])):
            t = self.object(2, False)
            if t.kind == 'array': t = self.basic() # a typedef
            ps.append((self.name('p'), t))
        rt = r.choice([None, self.scalar(1)])
        if rt and rt.post or export: rt = None
        f['params'] = [t for _, t in ps]; f['sig'] = f'f({rt.sig if rt else "v0"};{",".join(t.sig for t in f["params"])})'; f['first'] = self.line()
        if export: self.out('__declspec(dllexport) unsigned long long t_1(unsigned long long *out, unsigned long long n, unsigned long long q, unsigned long long w){'); f['sig'] = 'f(u8;p(u8),u8,u8,u8)'; ps = [('n', T('basic', 'u8', ''))]
        else:
            head = (rt.pre if rt else 'void ') + n + '(' + (', ' if r.random() < .7 else ',\n    ').join(t.decl(m) for m, t in ps) + ('void' if not ps and r.random() < .5 else '') + ')'
            self.out(('static ' if static else '') + head + r.choice(['{', '\n{']))
        sc = [[(m, t, 'param') for m, t in ps]]
        self.funcs.append(f); self.body(f, sc, 1, 3, r.randint(3, 9) if not export else 3)
        if export:
            for o in self.funcs[:-1]:
                if o['file'].endswith('.c') and o['static'] and o['file'] != self.fname: continue
                self.out(f'    {self.call(o, sc)};')
            self.out('    out[0] = 0; return 0;')
        elif rt: self.out('    return ' + ('0' if rt.kind in ('basic', 'enum', 'pointer', 'fptr') else f'zero_{rt.s["name"]}') + ';')
        self.out('}'); f['last'] = self.line() - 1; f['done'] = True; f['cost'] = min(f['cost'], 200)
    def program(self):
        r = self.r; self.open('a.h'); self.out('#pragma once', '#define MARK(n, p) \\', '    v_mark(n, p);', '__declspec(dllimport) void v_mark(unsigned long long id, void *p);', 'extern int sink;', 'static void *first_bit(unsigned long long *q){ long long i = 0; while(!(q[i >> 6] >> (i & 63) & 1)) i++; return (void *)i; }')
        for _ in range(r.randint(1, 3)): self.mk_enum()
        for _ in range(r.randint(1, 6)):
            self.mk_struct()
            if r.random() < .5: self.mk_typedef()
        for s in self.structs: self.out(f'static {s["kw"]} {s["name"]} zero_{s["name"]};')
        if r.random() < .6:
            for _ in range(r.randint(1, 2)): self.mk_func(static=True)
        nf = r.randint(1, 3); protos = []
        for i in range(nf):
            self.open('abcd'[i] + '.c'); self.out('#include "a.h"')
            if i == 0: self.out('int sink;')
            for _ in range(r.randint(0, 4)): self.mk_global()
            if i and r.random() < .5: pass
            before = [x for x in self.funcs if x['file'] != self.fname and x['file'].endswith('.c')]; hidden = [x for x in before]
            saved = self.funcs; self.funcs = [x for x in self.funcs if x not in hidden]
            self.globals_saved = self.globals; self.globals = [g for g in self.globals if g['file'] == self.fname or g['file'].endswith('.h')]
            for _ in range(r.randint(1, 4)): self.junk(); self.mk_func(static=r.random() < .4)
            if i == nf - 1: self.mk_func(export=True)
            else: self.out(f'void run_{i}(void){{'); start = self.line() - 1; [self.out(f'    {self.call(o, [])};') for o in self.funcs if o['file'] == self.fname]; self.out('}'); self.funcs.append(dict(name=f'run_{i}', k=self.k, done=True, static=False, file=self.fname, first=start, last=self.line() - 1, params=[], sig='f(v0;)', cost=1))
            self.globals = self.globals_saved + [g for g in self.globals if g not in self.globals_saved]
            self.funcs = hidden + self.funcs
        # the last file calls everything
        last = self.cur
        if nf > 1:
            t = next(f for f in self.funcs if f['name'] == 't_1'); calls = [f'    {{ void run_{i}(void); run_{i}(); }}' for i in range(nf - 1)]
            pos = t['last'] - 2; last[pos:pos] = calls; t['last'] += len(calls)
        return {k: '\n'.join(v) + '\n' for k, v in self.files.items()}
