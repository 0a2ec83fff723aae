"""Random reference graphs over functions and data, part of which cannot be reached from the exports and refers to what does not exist."""
M = 2 ** 64 - 1
PRE = '''typedef unsigned long long u64;
typedef u64 (*FN)(u64);
struct N { u64 v; FN f; struct N *n; u64 *q; char *s; };
struct B { int x; union { struct { char c; FN f; } a; struct { u64 p; } b; } u; struct N in; FN t[2][2]; };
'''
WALK = '''static u64 W(struct N *n, u64 d){
  u64 r = n->v; if(!d) return r;
  if(n->f) r += n->f(d - 1) * 3; if(n->n) r += W(n->n, d - 1) * 5; if(n->q) r += *n->q * 7; if(n->s) r += n->s[0] * 11u; return r;
}
'''


class Node: pass


class G:
    """mode: 'dll' (everything compiled by hlc), 'obj' (an object linked by another linker: whatever has external linkage is a root)"""
    def __init__(g, r, mode):
        g.r = r; g.mode = mode; g.nf = r.choice([1, 1, 2, 3]); g.keys = set(); g.u = set(); g.n = 0
        nn = r.randrange(8, 34); g.nodes = []
        g.live_share = r.choice([.3, .6, .8])
        for i in range(nn): g.nodes.append(g.node(i))
        g.live = [x for x in g.nodes if x.want]; 
        for x in g.nodes: g.edges(x)
        # what a live node refers to is live, whatever was planned
    def name(g, p): g.n += 1; return f'{p}{g.n}'
    def magic(g): return g.r.choice([g.r.getrandbits(64), g.r.getrandbits(20), 1])
    def node(g, i):
        r = g.r; x = Node(); x.i = i; x.want = r.random() < g.live_share or i < 3; x.v = g.magic(); x.E = []
        x.kind = r.choice(['fn', 'fn', 'fn', 'fn', 'N', 'N', 'u64', 'arr', 'fnp', 'fna', 'B', 'str', 'np'])
        x.link = r.choice(['ext', 'static', 'static', 'inline', 'all'] if x.kind == 'fn' else ['ext', 'static', 'static', 'tls', 'any'] if x.kind in ('u64',) else ['ext', 'static', 'static', 'any'] if x.kind in ('N', 'fnp') else ['ext', 'static', 'static'])
        if g.mode == 'obj' and not x.want and x.link in ('ext', 'any', 'tls', 'all'): x.link = 'static'
        if g.mode == 'obj' and x.link in ('any', 'all', 'tls'): x.link = 'ext' if x.want else 'static'
        x.vals = [g.magic() for _ in range(r.randrange(1, 5))] if x.kind == 'arr' else [r.choice('kmno'), r.choice('uvw')]; x.at = (r.randrange(2), r.randrange(2)); x.nb = r.randrange(1, 4); x.b = x.t = None; x.P = None
        x.file = r.randrange(g.nf); x.n = g.name({'fn': 'f'}.get(x.kind, 'g'))
        return x
    def can(g, a, b, need_const=False):
        """may a's definition name b"""
        if b.link == 'slocal': return False
        if need_const and b.link == 'tls': return False
        if a.link in ('all', 'any'): return b.link in ('ext', 'all', 'any', 'tls')
        return b.link in ('ext', 'all', 'any', 'tls') or b.file == a.file
    def pick(g, a, kinds, const=False):
        c = [b for b in g.nodes if b.kind in kinds and g.can(a, b, const) and (b.want or not a.want)]
        return g.r.choice(c) if c else None
    def undef(g, k):
        n = g.r.choice([f'undef_{k}{g.r.randrange(6)}']); g.u.add((k, n)); return n
    # ---- initializers: (text, function (d) -> value) for the parts of a data node
    def fnref(g, x):
        """an address constant of a function"""
        r = g.r
        if not x.want and r.random() < .35: n = g.undef(r.choice('fi') if g.mode == 'dll' else 'f'); t = None
        else:
            b = g.pick(x, ('fn',))
            if b is None: return '0', None
            n = b.n; t = b; x.E.append(b)
        s = r.choice([n, n, '&' + n, '*' + n, f'(FN)(void *){n}', f'(1 ? {n} : 0)', f'(0 ? 0 : {n})', f'({n})'])
        if t and t.n != n: pass
        g.keys.add('init-fn' + s.replace(n, '')); return s, t
    def nref(g, x):
        r = g.r
        if not x.want and r.random() < .35: return '&' + g.undef('d'), None
        b = g.pick(x, ('N', 'B'), True)
        if b is None: return '0', None
        x.E.append(b); n = b.n + ('.in' if b.kind == 'B' else ''); s = r.choice([f'&{n}', f'(struct N *)(void *)&{n}', f'(struct N *)((char *)&{n} + 0)', f'&*&{n}']); g.keys.add('init-n' + s.replace(n, '')); return s, b
    def qref(g, x):
        """address of a u64 that can be read: (text, value)"""
        r = g.r
        if not x.want and r.random() < .35: return r.choice(['{}', '{} + 1', '&{}[2]']).format(g.undef('q')), 0
        b = g.pick(x, ('u64', 'arr', 'N', 'B'), True)
        if b is None: return '0', None
        x.E.append(b)
        if b.kind == 'u64': return r.choice([f'&{b.n}', f'(u64 *)&{b.n}', f'&{b.n} + 0']), b.v
        if b.kind == 'arr':
            k = r.randrange(len(b.vals)); g.keys.add('init-q-arr'); return r.choice([f'{b.n} + {k}', f'&{b.n}[{k}]', f'({b.n} + {len(b.vals)}) - {len(b.vals) - k}', f'(u64 *)((char *){b.n} + {8 * k})']), b.vals[k]
        if b.kind == 'B': return f'&{b.n}.in.v', b.v
        return r.choice([f'&{b.n}.v', f'(u64 *)&{b.n}']), b.v
    def nval(g, x, lit=True):
        """(initializer of a struct N, its parts)"""
        r = g.r; P = {'v': x.v if lit else g.magic(), 'f': None, 'n': None, 'q': None, 's': None}; t = [f'.v = {P["v"]}ull']
        if r.random() < .6: s, b = g.fnref(x); P['f'] = b; P['fd'] = s; t.append(f'.f = {s}')
        if r.random() < .5:
            if lit and r.random() < .25:
                s, q = g.nval(x, False); P['n'] = q; t.append(f'.n = &(struct N){s}'); g.keys.add('init-compound-literal')
            else: s, b = g.nref(x); P['n'] = b; t.append(f'.n = {s}')
        if r.random() < .5:
            if lit and r.random() < .2: v = g.magic(); P['q'] = v; t.append(r.choice([f'.q = (u64[]){{ 1, {v}ull }} + 1', f'.q = &(u64){{ {v}ull }}'])); g.keys.add('init-array-literal')
            else: s, v = g.qref(x); P['q'] = v; t.append(f'.q = {s}')
        if r.random() < .3: c = r.choice('abcXYZ'); P['s'] = ord(c); t.append(r.choice([f'.s = "{c}q"', f'.s = "z{c}" + 1', f'.s = (char[]){{"{c}"}}']) if lit else f'.s = "{c}"')
        h, w = t[:1], t[1:]; r.shuffle(w)
        return '{ ' + ', '.join(h + w) + ' }', P
    def edges(g, x):
        r = g.r; k = x.kind
        if k == 'u64': x.init = f'{x.v}ull'; x.decl = f'u64 {x.n}'
        elif k == 'arr': x.init = '{ ' + ', '.join(f'{v}ull' for v in x.vals) + ' }'; x.decl = f'u64 {x.n}[{len(x.vals)}]'
        elif k == 'N': x.init, x.P = g.nval(x); x.decl = f'struct N {x.n}'
        elif k == 'np':
            if r.random() < .5: s, b = g.nref(x); x.init = s; x.b = b
            else: s, P = g.nval(x, False); x.init = '&(struct N)' + s; x.b = P; g.keys.add('init-compound-literal')
            x.decl = f'struct N *{x.n}'
        elif k == 'fnp': x.init, x.b = g.fnref(x); x.decl = f'FN {x.n}'
        elif k == 'fna':
            L = [g.fnref(x) for _ in range(x.nb)]; x.bs = [b for s, b in L]; x.decl = f'FN {x.n}[{len(L)}]'
            if r.random() < .3: x.init = '{ ' + ', '.join(f'[{i}] = {L[i][0]}' for i in reversed(range(len(L)))) + ' }'
            else: x.init = '{ ' + ', '.join(s for s, b in L) + ' }'
        elif k == 'B':
            s, x.P = g.nval(x); f, x.b = g.fnref(x); a, x.t = g.fnref(x); g.keys.add('init-nested')
            x.init = r.choice([f'{{ 1, {{ .a = {{ 2, {f} }} }}, {s}, {{ [{x.at[0]}][{x.at[1]}] = {a} }} }}', f'{{ .t[{x.at[0]}][{x.at[1]}] = {a}, .in = {s}, .u.a.f = {f} }}']); x.decl = f'struct B {x.n}'
        elif k == 'str': x.init = r.choice(['{{ "{0}1", "{1}2" }}', '{{ "x{0}" + 1, [1] = &"yy{1}"[2] }}']).format(*x.vals); x.decl = f'char *{x.n}[2]'
        if k != 'fn': return
        x.st = []; x.pre = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])): g.stmt(x)
        if x.want:
            for _ in range(r.choice([0, 0, 1, 2])): g.unevaluated(x)
    def use(g, x, b, dd='d - 1'):
        """expression over node b and its value as a function of (model, d)"""
        r = g.r; k = b.kind; n = b.n
        if k == 'fn':
            s = r.choice([f'{n}({dd})', f'{n}({dd})', f'(*{n})({dd})', f'(&{n})({dd})', f'(d & 1 ? {n} : &{n})({dd})', f'((FN){n})({dd})'])
            if r.random() < .3:
                p = g.name('p'); w = r.choice([f'FN {p} = {n};', f'static FN {p} = {n};', f'static FN {p}[2] = {{ 0, &{n} }};', f'FN {p}[] = {{ {n}, {n} }};', f'static struct {{ int k; FN f; }} {p} = {{ 1, {n} }};', f'FN {p}; {p} = &{n};',
                    f'static FN {p}; {p} = {n};', f'struct N {p} = {{ .f = {n} }};', f'void *{p} = (void *){n};', f'static void *{p} = &{n};'])
                s = f'{p}[1]({dd})' if '[' in w else f'{p}.f({dd})' if 'struct' in w else f'((FN){p})({dd})'; x.pre.append(w); g.keys.add('use-' + w.replace(n, 'F').replace(p, 'P'))
            elif r.random() < .1 and b.link == 'ext': x.pre.append(f'extern u64 {n}(u64);'); g.keys.add('use-block-extern')
            elif r.random() < .1: s = f'((FN[]){{ {n}, {n} }})[1]({dd})'; g.keys.add('use-literal')
            elif r.random() < .1: s = f'((struct N){{ .f = {n} }}).f({dd})'; g.keys.add('use-literal2')
            elif r.random() < .1: s = f'W(&(struct N){{ .f = {n} }}, d)'; return s, lambda m, d: m.val(b, d - 1) * 3 & M
            return s, lambda m, d: m.val(b, d - 1)
        if k in ('u64', 'N', 'B') and r.random() < .15 and b.link != 'tls':
            p = g.name('p'); x.pre.append(f'u64 {p}; __asm__ {{\n    mov rax, {n}{dict(u64="", N=".v", B=".in.v")[k]}\n    mov {p}, rax\n  }}'); g.keys.add('use-asm-' + k); return p, lambda m, d: b.P['v'] if k != 'u64' else b.v
        if k == 'u64':
            if r.random() < .15 and b.link != 'tls': p = g.name('p'); x.pre.append(f'static u64 *{p} = &{n};'); return f'*{p}', lambda m, d: b.v
            return r.choice([n, f'*&{n}', f'(&{n})[0]']), lambda m, d: b.v
        if k == 'arr': i = r.randrange(len(b.vals)); return r.choice([f'{n}[{i}]', f'*({n} + {i})', f'{i}[{n}]']), lambda m, d: b.vals[i]
        if k == 'N': return f'W(&{n}, {dd})', lambda m, d: m.N(b, d - 1)
        if k == 'np': return f'({n} ? W({n}, {dd}) : 9)', lambda m, d: m.N(b.b, d - 1) if b.b is not None else 9
        if k == 'fnp': return f'({n} ? {n}({dd}) : 7)', lambda m, d: m.val(b.b, d - 1) if b.b is not None else 7
        if k == 'fna': i = r.randrange(b.nb); return f'({n}[{i}] ? {n}[{i}]({dd}) : 7)', lambda m, d: m.val(b.bs[i], d - 1) if b.bs[i] is not None else 7
        if k == 'str': i = r.randrange(2); return f'(u64){n}[{i}][0]', lambda m, d: ord(b.vals[i])
        if k == 'B':
            w = r.randrange(3)
            if w == 0: return f'W(&{n}.in, {dd})', lambda m, d: m.N(b, d - 1)
            if w == 1: return f'({n}.u.a.f ? {n}.u.a.f({dd}) : 3)', lambda m, d: m.val(b.b, d - 1) if b.b is not None else 3
            i, j = b.at; return f'({n}.t[{i}][{j}] ? {n}.t[{i}][{j}]({dd}) : 4)', lambda m, d: m.val(b.t, d - 1) if b.t is not None else 4
    def stmt(g, x):
        r = g.r
        if not x.want and r.random() < .4:
            u = g.undef(r.choice('fdqi') if g.mode == 'dll' else r.choice('fdq')); k = u[6]
            x.st.append({'f': f's += {u}(d);', 'd': f's += W(&{u}, d);', 'q': f's += {u}[1];', 'i': f's += {u}(d);'}[k]); g.keys.add('undefined-' + k); return
        if r.random() < .15: # a static local
            s, P = g.nval(x, False) ; n = g.name('sl'); x.st.append(f'static struct N {n} = {s}; s += W(&{n}, d - 1);' if r.random() < .6 else f'{{ static struct N {n}[2] = {{ [1] = {s} }}; s += W({n} + 1, d - 1); }}'); x.E.append((lambda m, d: m.N(P, d - 1))); g.keys.add('static-local'); x.V = getattr(x, 'V', []) + [x.E.pop()]; return
        c = [b for b in g.nodes if b is not x and g.can(x, b) and (b.want or not x.want)]
        if not c: return
        b = r.choice(c); x.E.append(b)
        if b.kind == 'N' and r.random() < .3: s = f'W(&(struct N){{ .n = &{b.n} }}, d)'; v = lambda m, d: m.N(b, d - 1) * 5 & M; g.keys.add('use-literal-n')
        elif b.kind == 'N' and r.random() < .8: s = f'W(&{b.n}, d - 1)'; v = lambda m, d: m.N(b, d - 1)
        else: s, v = g.use(x, b)
        w = r.random(); x.V = getattr(x, 'V', [])
        if w < .08: x.st.append(f'if(0) s += {s};'); return
        if w < .12: l = g.name('L'); x.st.append(f'goto {l}; s += {s}; {l}:;'); return
        if w < .15: x.st.append(f'0 && (s += {s});'); return
        if w < .18: x.st.append(f'switch(1){{ s += {s}; case 2: s++; }}'); return
        x.V.append(v); x.st.append(r.choice([f's += {s};', f's += {s};', f's = s + ({s});', f'if(d) s += {s};', f'for(int i = 0; i < 1; i++) s += {s};', f's += (0, {s});', f's += (d ? {s} : 0);', f'{{ u64 t = {s}; s += t; }}', f'switch(d){{ default: s += {s}; }}']))
        g.keys.add('live' if x.want else 'dead')
    def unevaluated(g, x):
        """names of things that do not exist, where nothing is evaluated"""
        r = g.r; k = r.randrange(6); x.V = getattr(x, 'V', [])
        if k == 0: u = g.undef('f'); t, v = f'sizeof({u}(1))', 8
        elif k == 1: u = g.undef('d'); t, v = f'sizeof {u}.f', 8
        elif k == 2: u = g.undef('q'); t, v = f'sizeof({u}) / sizeof({u}[0])', 4
        elif k == 3: u = g.undef('d'); t, v = f'sizeof({u})', 40
        elif k == 4: u = g.undef('f'); t, v = f'sizeof(*&{u}(0) + 1)'.replace('*&', ''), 8
        else: u = g.undef('q'); t, v = f'sizeof(W(0, {u}[1]))', 8
        g.keys.add('unevaluated'); x.st.append(f's += {t};'); x.V.append(lambda m, d, v=v: v)
    # ---- text
    def define(g, x):
        q = {'ext': '', 'static': 'static ', 'inline': 'static inline ', 'all': 'inline ', 'tls': '__declspec(thread) ', 'any': '__declspec(selectany) ', 'slocal': 'static '}[x.link]
        if x.kind == 'fn':
            if getattr(x, 'export', 0) and not g.dxh: q = '__declspec(dllexport) '
            return f'{q}u64 {x.n}(u64 d){{\n  u64 s = {x.v}ull; if(!d) return s;\n  ' + '\n  '.join(x.pre + x.st) + '\n  return s;\n}'
        if x.link == 'slocal': return f'{x.decl.replace(x.n, "*get_" + x.n if x.kind == "N" else "get_" + x.n)}(void){{ static {x.decl} = {x.init}; return {"&" if x.kind == "N" else ""}{x.n}; }}'
        if getattr(x, 'export', 0): q = '__declspec(dllexport) '
        return f'{q}{x.decl} = {x.init};'
    def program(g, roots=3):
        """(files, [(name, expected words)])"""
        r = g.r; m = Model(); g.exported = []
        if g.mode == 'exp':
            for x in g.nodes:
                if x.want and x.link == 'ext' and r.random() < .6: x.export = True; g.exported.append(x)
        dx = lambda x: '__declspec(dllexport) ' if getattr(x, 'export', 0) else ''
        lv = [b for b in g.nodes if b.want and b.link != 'slocal']
        lv = [b for b in lv if b.kind != 'str' or 1]
        und = ''; g.dxh = r.random() < .5
        for k, n in sorted(g.u): und += {'f': f'u64 {n}(u64);', 'i': f'__declspec(dllimport) u64 {n}(u64);', 'd': f'extern struct N {n};', 'q': f'extern u64 {n}[4];'}[k] + '\n'
        fs = []
        proto = lambda x: (f'u64 {x.n}(u64 d);' if x.kind == 'fn' else f'{x.decl};')
        heads = ''
        for x in g.nodes:
            if x.link == 'ext': heads += ('' if x.kind == 'fn' else 'extern ') + (dx(x) if g.dxh else '') + proto(x) + '\n'
            if x.link == 'tls': heads += 'extern __declspec(thread) ' + proto(x) + '\n'
            if x.link == 'all': heads += 'inline ' + proto(x) + '\n'
            if x.link == 'any': heads += 'extern __declspec(selectany) ' + proto(x) + '\n'
        for f in range(g.nf):
            t = PRE + und + heads + WALK
            for x in g.nodes:
                if x.file == f and x.link in ('static', 'inline'): t += {'static': 'static ', 'inline': 'static inline '}[x.link] + proto(x) + '\n'
            D = [x for x in g.nodes if x.link in ('all', 'any') or x.file == f]; r.shuffle(D)
            for x in D:
                if x.link == 'slocal' : continue
                t += g.define(x) + '\n'
            fs.append(t)
        exp = []
        for k in range(roots):
            f = r.randrange(g.nf); x = Node(); x.kind = 'fn'; x.link = 'static'; x.file = f; x.want = True; x.pre = []; x.st = []; x.V = []; x.E = []; x.v = 0
            c = [b for b in lv if g.can(x, b)]
            if not c: continue
            L = []; want = []
            for _ in range(r.randrange(1, 7)):
                b = r.choice(c); d = r.randrange(1, 6)
                if b.kind == 'N': s, v = f'W(&{b.n}, d - 1)', (lambda m, d, b=b: m.N(b, d - 1))
                else: s, v = g.use(x, b)
                want.append(v(m, d)); L.append((d, s))
            body = '\n  '.join(f'{{ u64 d = {d}; out[1 + {i}] = {s}; }}' for i, (d, s) in enumerate(L)); pre = '\n  '.join(x.pre); n = f't_{len(exp)}'
            fs[f] += f'__declspec(dllexport) u64 {n}(u64 *out, u64 n, u64 q, u64 w){{\n  {"u64 d = 1; (void)d; " if 0 else ""}{pre}\n  {body}\n  out[0] = {len(L)}; return {len(L)};\n}}\n'
            exp.append((n, [v & M for v in want]))
        return fs, exp


    def driver(g):
        '''(C text for another compiler which uses the exports, expected words) after program()'''
        r = g.r; m = Model(); t = PRE + WALK; L = []; want = []
        for x in g.exported: t += '__declspec(dllimport) ' + (f'u64 {x.n}(u64 d);' if x.kind == 'fn' else f'extern {x.decl};') + '\n'
        for x in g.exported * 2:
            d = r.randrange(1, 6); k = x.kind; n = x.n; P = [x.b] if k == 'fnp' else getattr(x, 'bs', None)
            if k == 'fn': s, v = f'{n}(d)', m.val(x, d)
            elif k == 'u64': s, v = n, x.v
            elif k == 'arr': i = r.randrange(len(x.vals)); s, v = f'{n}[{i}]', x.vals[i]
            elif k == 'N': s, v = f'W(&{n}, d)', m.N(x, d)
            elif k == 'np': s, v = f'({n} ? W({n}, d) : 9)', m.N(x.b, d) if x.b is not None else 9
            elif k == 'fnp': s, v = f'({n} ? {n}(d) : 7)', m.val(x.b, d) if x.b is not None else 7
            elif k == 'fna': i = r.randrange(x.nb); s, v = f'({n}[{i}] ? {n}[{i}](d) : 7)', m.val(x.bs[i], d) if x.bs[i] is not None else 7
            elif k == 'str': i = r.randrange(2); s, v = f'(u64){n}[{i}][0]', ord(x.vals[i])
            else: s, v = f'W(&{n}.in, d) + ({n}.u.a.f ? {n}.u.a.f(d) : 3) * 2', m.N(x, d) + (m.val(x.b, d) if x.b is not None else 3) * 2
            L.append(f'{{ u64 d = {d}; out[{len(L) + 1}] = {s}; }}'); want.append(v & M)
        return t + '__declspec(dllexport) u64 t_0(u64 *out, u64 n, u64 q, u64 w){\n  ' + '\n  '.join(L) + f'\n  out[0] = {len(L)}; return {len(L)};\n}}\n', want


class Model:
    def __init__(m): m.memo = {}
    def val(m, x, d):
        """function x of d"""
        if d < 0: d = 0
        k = (id(x), d)
        if k not in m.memo: m.memo[k] = x.v & M if d == 0 else (x.v + sum(v(m, d) for v in getattr(x, 'V', []))) & M
        return m.memo[k]
    def N(m, b, d):
        """W over a node or over the parts of a literal"""
        P = b if isinstance(b, dict) else b.P
        if d == 0: return P['v'] & M
        s = P['v']
        if P['f'] is not None: s += m.val(P['f'], d - 1) * 3
        if P['n'] is not None: s += m.N(P['n'], d - 1) * 5
        if P['q'] is not None: s += P['q'] * 7
        if P['s'] is not None: s += P['s'] * 11
        return s & M
