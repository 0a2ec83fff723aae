"""Random C programs with __asm__ blocks between statements: (hlc source, clang source). Blocks use locals, parameters, globals, statics, members, elements and pointers."""
RG = {8: ['al', 'cl', 'dl', 'r8b', 'r9b', 'r10b', 'r11b', 'sil', 'dil'], 16: ['ax', 'cx', 'dx', 'r8w', 'r9w', 'r10w', 'r11w', 'si', 'di'], 32: ['eax', 'ecx', 'edx', 'r8d', 'r9d', 'r10d', 'r11d', 'esi', 'edi'], 64: ['rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11', 'rsi', 'rdi']}
CT = {8: ['char', 'unsigned char', 'signed char'], 16: ['short', 'unsigned short'], 32: ['int', 'unsigned', 'long'], 64: ['long long', 'unsigned long long']}
PTR = {8: 'byte', 16: 'word', 32: 'dword', 64: 'qword'}
CC = 'o no c nc z nz be nbe s ns p np l nl le nle b ae e ne a ge g'.split()


class B:
    def __init__(g, r): g.r = r; g.keys = set(); g.lab = 0; g.ex = r.choice([0, 1, 2, 4, 5, 6])
    def reg(g, b):
        # hlc needs one volatile register to load a pointer operand
        return g.r.choice([x for i, x in enumerate(RG[b]) if i != g.ex])
    def imm(g, b):
        r = g.r; return str(r.choice([0, 1, 2, 3, -1, 7, 100, 127, -128, r.randrange(-100, 120)] + ([255, 128, 1000, -2000, 0x1234] if b > 8 else []) + ([0x12345678, -0x7fffffff] if b > 16 else [])))
    def var(g, b, any_=False):
        """(hlc operand, clang operand) of an integer object of b bits"""
        r = g.r; k = r.choice(['l', 'g', 'a', 's', 'e', 'ge', 'gs', 'p', 'n', 'st']); g.keys.add(k + str(b))
        if k == 'l': x = f'l{b}'
        elif k == 'g': x = f'g{b}'
        elif k == 'a': x = f'a{b}' 
        elif k == 's': x = f's.m{b}'
        elif k == 'e': x = f'v{b}[{r.randrange(5)}]'
        elif k == 'ge': x = f'gv{b}[{r.randrange(5)}]'
        elif k == 'gs': x = f'glo.m{b}'
        elif k == 'n': x = f's.in.m{b}' if r.random() < .5 else f'glo.in.v[{r.randrange(3)}]' if b == 32 else f'glo.in.m{b}'
        elif k == 'st': x = f'st{b}'
        else:
            if r.random() < .5: return (f'[p{b}]', f'l{b}')
            return (f'[gp{b}]', f'g{b}')
        i = x.find('[')
        # the reference scales no index of an asm operand: it gets the address in bytes
        return (x, x if i < 0 else f'{x[:i]}[{int(x[i + 1:-1]) * b // 8}]')
    def two(g, s, b, mm=False):
        """dst, src operands"""
        r = g.r; x = r.random(); R = g.reg(b)
        if x < .3: v = g.var(b); return [f'{s} {R}, {v[i]}' for i in (0, 1)]
        if x < .55: v = g.var(b); return [f'{s} {v[0]}, {R}', f'{s} {v[1]}, {R}']
        if x < .7: v = g.var(b); i = g.imm(b); return [f'{s} {v[0]}, {i}', f'{s} {v[1]}, {i}']
        if x < .85: t = f'{s} {R}, {g.imm(b)}'; return [t, t]
        t = f'{s} {R}, {g.reg(b)}'; return [t, t]
    def one(g, s, b):
        if g.r.random() < .5: v = g.var(b); return [f'{s} {v[0]}', f'{s} {v[1]}']
        t = f'{s} {g.reg(b)}'; return [t, t]
    def init(g):
        """every register the block uses gets a value"""
        r = g.r; out = []
        for x in range(9):
            if x == g.ex: continue
            b = r.choice([8, 16, 32, 64, 64]); R = RG[64][x]
            if r.random() < .5: t = f'mov {R}, {r.choice([0, 1, 5, 127, 1000, 0x12345678, 0x7fffffff])}'; out.append([t, t])
            elif b in (32, 64): v = g.var(64); out.append([f'mov {R}, {v[0]}', f'mov {R}, {v[1]}'])
            else: v = g.var(b); out.append([f'movzx {R}, {v[0]}', f'movzx {R}, {v[1]}'])
        r.shuffle(out); out.append(['xor esi, esi'] * 2); return out  # defined flags
    def block(g):
        r = g.r; L = g.init(); ends = []; busy = set()
        for _ in range(r.randint(3, 16)):
            b = r.choice([8, 16, 32, 64]); x = r.random()
            if x < .42: m = r.choice(['add', 'sub', 'and', 'or', 'xor', 'mov', 'mov', 'cmp', 'adc', 'sbb']); g.keys.add(m); L.append(g.two(m, b))
            elif x < .5: m = r.choice(['inc', 'dec', 'neg']); g.keys.add(m); L.append(g.one(m, b))
            elif x < .58:
                m = r.choice(['shl', 'shr', 'sar', 'rol', 'ror']); g.keys.add(m); o = g.one('', b); n = r.randrange(1, b if m[0] == 'r' or b > 8 else 8)
                L.append([f'{m}{o[0]}, {n}', f'{m}{o[1]}, {n}'])
            elif x < .66:
                m = r.choice(['movzx', 'movsx']); s = r.choice([8, 16]); d = r.choice([z for z in (16, 32, 64) if z > s]); g.keys.add(m); v = g.var(s) if r.random() < .7 else [g.reg(s)] * 2; R = g.reg(d); L.append([f'{m} {R}, {v[0]}', f'{m} {R}, {v[1]}'])
            elif x < .74:
                t = g.two('cmp', b); c = r.choice([z for z in CC if z not in ('p', 'np', 'o', 'no') or 1]); L.append(t); g.keys.add('set' + c)
                v = g.var(8) if r.random() < .6 else [g.reg(8)] * 2; L.append([f'set{c} {v[0]}', f'set{c} {v[1]}'])
            elif x < .8:
                t = g.two('cmp', b); c = r.choice(CC); bb = r.choice([16, 32, 64]); v = g.var(bb); R = g.reg(bb); L.append(t); L.append([f'cmov{c} {R}, {v[0]}', f'cmov{c} {R}, {v[1]}']); g.keys.add('cmov')
            elif x < .86:
                v = g.var(b); R = g.reg(b); m = r.choice(['xchg', 'xadd']); g.keys.add(m); L.append([f'{m} {v[0]}, {R}', f'{m} {v[1]}, {R}'])
            elif x < .92:
                # forward jump
                c = r.choice(['jz', 'jnz', 'jl', 'jge', 'jg', 'jle']); c = {'jge': 'jnl', 'jg': 'jnle'}.get(c, c); g.lab += 1; n = f'L{g.lab}'; L.append(g.two('cmp', b)); L.append([f'{c} .{n}', f'{c} {n}']); ends.append(n); g.keys.add(c)
                if r.random() < .6: L.append(g.two('add', r.choice([8, 16, 32, 64]))); n = ends.pop(); L.append([f'{n}:', f'{n}:'])
            elif x < .96:
                # a counted loop over a register nothing else writes
                g.lab += 1; n = f'L{g.lab}'; k = r.randrange(1, 6); g.keys.add('loop')
                body = [g.two(r.choice(['add', 'xor', 'sub']), 32) for _ in range(2)]
                if any('r8' in t[0] for t in body): continue
                L.append([f'mov r8, {k}'] * 2); L.append([f'{n}:'] * 2); L += body; L.append(['dec r8'] * 2); L.append([f'jnz .{n}', f'jnz {n}'])
            else:
                w = r.choice(['ss', 'sd']); f = 'f' if w == 'ss' else 'd'; a, bb = (r.choice([f'l{f}', f'g{f}', f'a{f}', f's.{f}', f'glo.{f}', f'[p{f}]']) for _ in 'ab'); q = lambda v: f'l{f}' if v[0] == '[' else v
                m = r.choice(['add', 'sub', 'mul', 'min', 'max']); g.keys.add(m + w); xr, y = r.sample(range(4), 2)
                for t in ([f'mov{w} xmm{xr}, {a}', f'mov{w} xmm{xr}, {q(a)}'], [f'{m}{w} xmm{xr}, {bb}', f'{m}{w} xmm{xr}, {q(bb)}'], [f'mov{w} {a}, xmm{xr}', f'mov{w} {q(a)}, xmm{xr}']): L.append(t)
        while ends: n = ends.pop(); L.append([f'{n}:', f'{n}:'])
        # flags after shifts and jumps are not all defined: end with defined stores
        L.append(g.two('mov', r.choice([8, 16, 32, 64])))
        return L


def program(r):
    g = B(r); blocks = [g.block() for _ in range(r.randint(1, 3))]
    T = {b: r.choice(CT[b]) for b in CT}; lit = lambda b: str(r.choice([0, 1, 5, 100, 127, -1, -128, r.randrange(-100, 100)]) if b == 8 else r.randrange(-(1 << min(b, 32) - 2), 1 << min(b, 32) - 2))
    fl = lambda: r.choice(['1.5', '-2.25', '100.0', '0.125', '3.0'])
    out = []
    for w in (0, 1):
        st = r.getstate() if w == 0 else st
        r.setstate(st)
        o = ['typedef unsigned long long u64;']
        mem = ' '.join(f'{T[b]} m{b};' for b in r.sample([8, 16, 32, 64], 4))
        o.append(f'struct In {{ {mem} int v[3]; }}; struct S {{ char pad; {mem} float f; double d; struct In in; }};')
        for b in T: o.append(f'static {T[b]} g{b} = {lit(b)}, gv{b}[5] = {{{", ".join(lit(b) for _ in range(5))}}}, *gp{b} = &g{b};')
        o.append(f'static float gf = {fl()}f; static double gd = {fl()}; static struct S glo = {{1}};')
        o.append('static u64 mix(u64 h, u64 v){ return (h ^ v) * 1099511628211ull + 7; }')
        o.append(f'static u64 body(u64 *out, u64 i, {", ".join(f"{T[b]} a{b}" for b in T)}, float af, double ad){{')
        for b in T: o.append(f'  {T[b]} l{b} = {lit(b)}, v{b}[5] = {{{", ".join(lit(b) for _ in range(5))}}}, *p{b} = &l{b}; static {T[b]} st{b} = {lit(b)};')
        o.append(f'  float lf = {fl()}f, *pf = &lf; double ld = {fl()}, *pd = &ld; struct S s = {{2}}; u64 k = i * 3;')
        o.append('  (void)p8; (void)p16; (void)p32; (void)p64; (void)gp8; (void)gp16; (void)gp32; (void)gp64; (void)pf; (void)pd;')
        for L in blocks:
            sep = r.choice(['\n    ', ' ' if w == 0 else '\n    '])
            o.append('  __asm__ {\n    ' + sep.join(x[0] for x in L) + '\n  }' if w == 0 else '  __asm {\n    ' + '\n    '.join(x[1] for x in L) + '\n  }')
            o.append(r.choice(['  k += l32;', '  k = mix(k, (u64)l64 + a32);', '  if(l8 > 3) k++;', '  l16 += 3; g32 ^= l32;', '']))
        o.append('  out[i++] = k;')
        for b in T:
            o += [f'  out[i++] = l{b}; out[i++] = a{b}; out[i++] = g{b}; out[i++] = st{b}; out[i++] = s.m{b}; out[i++] = glo.m{b}; out[i++] = s.in.m{b}; out[i++] = glo.in.m{b};', f'  for(int j = 0; j < 5; j++){{ out[i++] = v{b}[j]; out[i++] = gv{b}[j]; }}']
        o.append('  for(int j = 0; j < 3; j++) out[i++] = glo.in.v[j];')
        for f, t in (('f', 'unsigned'), ('d', 'u64')): o.append(''.join(f'  out[i++] = *({t} *)&{x};' for x in (f'l{f}', f'g{f}', f'a{f}', f's.{f}', f'glo.{f}')))
        o.append('  return i;\n}')
        o.append(f'__declspec(dllexport) u64 t_0(u64 *out, u64 n, u64 q, u64 w){{ u64 k = n * 7 + 1, i = 1; i = body(out, i, {", ".join(lit(b) for b in T)}, {fl()}f, {fl()}); i = body(out, i, {", ".join(lit(b) for b in T)}, {fl()}f, {fl()}) + k - n * 7 - 1; out[0] = i - 1; return i - 1; }}')
        out.append('\n'.join(o) + '\n')
    return out[0], out[1], g.keys
