"""Imports and exports: chains of DLLs built by hlc and by clang/lld, import libraries in every form, every import called; values identify which function of which DLL answered."""
import random, os, shutil
import pe, hv
from diffrun import Diff, errors

M64 = 2 ** 64 - 1
H = '''typedef unsigned long long u64; typedef unsigned int u32; typedef int i32; typedef unsigned char u8; typedef struct { u64 a, b, c; } S24;
'''
KW = set('auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while asm main u64 u32 i32 u8 S24 near far out n q w noreturn'.split())
SIG = {'u': ('u64 {n}(u64 x)', 'return x * {m}ull + {k}ull;', '{f}({a})', lambda x, m, k: (x * m + k) & M64),
       'd': ('double {n}(double x, u64 y)', 'return x * 2 + (double)(u32)({m}ull + y % 1000);', '(u64){f}((double)((u32){a} % 100000), {a})', lambda x, m, k: 2 * ((x & 0xffffffff) % 100000) + ((m + x % 1000) & 0xffffffff)),
       's': ('S24 {n}(u64 x, S24 s)', 'S24 r; r.a = x + s.b; r.b = s.a * {m}ull; r.c = {k}ull ^ s.c; return r;', '{f}({a}, s24).b + s24.a', lambda x, m, k: (7 * m + 7) & M64),
       'v': ('u64 {n}(i32 a, i32 b, i32 c, i32 d, i32 e, u64 x)', 'return (u64)(a + 2*b + 3*c + 4*d + 5*e) * {m}ull + x + {k}ull;', '{f}(1, 2, 3, 4, 5, {a})', lambda x, m, k: (55 * m + x + k) & M64)}


def name(r, used):
    while 1:
        k = r.random()
        if k < .25 and used: s = r.choice(sorted(used)) + r.choice(['_', 'A', '0', 'z', 'Ex', 'W'])
        elif k < .35 and used: s = r.choice(sorted(used)).swapcase()
        elif k < .42 and used: s = r.choice(sorted(used))[:-1]
        elif k < .5: s = r.choice('abXYZ_') * r.randint(1, 8)
        elif k < .54: s = ''.join(r.choice('abcdefghijklmnop_QRSTUV012') for _ in range(r.choice([127, 128, 255, 256, 300])))
        else: s = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789') for _ in range(r.randint(0, 14)))
        if len(s) > 1 and len(s) < 400 and not s[0].isdigit() and s not in used and s not in KW and not s.startswith('__') and not (s[0] == '_' and s[1].isupper()) and not s.startswith('t_') and not s.startswith('mem') and not s.startswith('str') and not s.lower().startswith('import_') and not s.lower().startswith('gl_'): return s


def run(c):
    c.rule = 'a group of 2-5 images; every imported function is called (directly, through pointers, from initializers) and answers with the value of the function of that name in that DLL; the import table of every image names exactly the reachable imports; distinct = (builder of importer, builder of exporter, kind of library, way of binding, signature)'
    c.assume = ['the loader binds as Windows does: by DLL base name, binary search over the export names, or ordinal', 'lld and llvm-lib write correct import libraries', 'DLL data cannot be imported by hlc (documented as incomplete), only exported']
    D = Diff(c); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base + i); d = hv.newdir(); files = {}; log = []
        def bad(t): c.case(); c.violation(f'group-{i}-{base & 0xffff:x}', t + '\n' + '\n'.join(log), files)
        try:
            used = set(); dlls = []; nd = r.randint(1, 4); nexp = lambda: r.choice([1, 2, 3, 5, 8, 13, 20, 40] + [150] * (r.random() < .2))
            for k in range(nd):
                fs = []
                for _ in range(nexp()):
                    n = name(r, used); used.add(n); fs.append((n, r.choice('uuuudsv'), r.getrandbits(r.choice([8, 40])) | 1, r.getrandbits(63)))
                data = []
                for _ in range(r.choice([0, 0, 1, 3])): n = name(r, used); used.add(n); data.append((n, r.getrandbits(63)))
                by = r.choice(['hlc', 'hlc', 'clang', 'obj']); dn = r.choice(['p{}.dll', 'lib{}.dll', 'Some-Long Name.{}.dll', 'X{}.DLL', 'a.b.{}.dll', 'd{}.dll']).format(k)
                if by == 'hlc' and ' ' in dn: dn = dn.replace(' ', '_')
                if dn.endswith('DLL'): dn = dn[:-3] + 'dll'
                uses = []
                for p in dlls:
                    if r.random() < .6: uses += [(p, f) for f in r.sample(p['fs'], min(len(p['fs']), r.randint(1, 6)))]
                x = dict(fs=fs, data=data, by=by, dll=dn, uses=uses, k=k); dlls.append(x)
                if not build(x, dlls[:-1], d, r, files, log, bad): return
            # the program
            uses = [(p, f) for p in dlls for f in r.sample(p['fs'], min(len(p['fs']), r.choice([1, 3, 8, 40])))]
            dat = [(p, v) for p in dlls for v in p['data']]
            x = dict(fs=[], data=[], by=r.choice(['hlc', 'hlc', 'hlc', 'obj', 'clang']), dll='main.dll', uses=uses, k=nd, main=True, dat=dat if r.random() < .9 else [])
            if x['by'] == 'hlc': x['dat'] = []
            if not build(x, dlls, d, r, files, log, bad): return
            rr, out = D.run(f'{d}/main.dll', d, 'm', **{'dll': ','.join(f'{d}/{p["dll"]}' for p in dlls), 'strict': 1})
            if rr.code != 0: bad(f'running: {rr.report}'); return
            got = out.split('\n')[0].split(' ')[2:]; want = [f'{v:x}' for v in x['want']]
            if len(got) != len(want): bad(f'{len(got)} results instead of {len(want)}'); return
            for g, w, what in zip(got, want, x['what']):
                if g != w: bad(f'{what}: {g} instead of {w}'); return
            c.case((nd, len(uses), i)); c.count('calls_compared', len(want)); c.count('images', nd + 1); c.count('imports_bound', sum(len(y['uses']) for y in dlls + [x]))
            for y in dlls + [x]:
                for p, f in y['uses']: c.case((y['by'], p['by'], p['lib'], y['bind'], f[1]), 0)
            if i < 2: c.sample('\n'.join(log)[:700])
        finally: shutil.rmtree(d, ignore_errors=True)
    def value(p, f, x):
        return SIG[f[1]][3](x, f[2], f[3])
    def build(x, prev, d, r, files, log, bad):
        k = x['k']; nf = r.choice([1, 1, 2, 3]) if x['by'] != 'clang' else 1; body = [[] for _ in range(nf)]; heads = [[] for _ in range(nf)]; main = x.get('main')
        style = r.choice(['dllimport', 'dllimport', 'extern', 'mixed']) if x['by'] != 'clang' else 'dllimport'; x['bind'] = style
        libs = sorted({p['k'] for p, f in x['uses']}); bindlib = r.choice(['arg', 'pragma', 'pragma-noext', 'libpath', 'all']) if x['by'] == 'hlc' else 'arg'; x['bind'] = f'{style}/{bindlib}'
        decl = {}
        for j in range(nf):
            for n, v in {f[0]: (p, f) for p, f in x['uses']}.items():
                p, f = v; im = style == 'dllimport' or style == 'mixed' and r.random() < .5; decl.setdefault(n, im)
                heads[j].append(('__declspec(dllimport) ' if decl[n] else r.choice(['', 'extern '])) + SIG[f[1]][0].format(n=n) + ';')
                if r.random() < .1: heads[j].append(('__declspec(dllimport) ' if decl[n] else '') + SIG[f[1]][0].format(n=n) + ';')
            r.shuffle(heads[j])
        for f in x['fs']:
            j = r.randrange(nf); e = '__declspec(dllexport) '; h = SIG[f[1]][0].format(n=f[0])
            if r.random() < .25: body[j].append(e + h + ';'); e = r.choice(['', e])
            elif r.random() < .1: body[j].append(h + ';' if 0 else e + h + ';')
            b = SIG[f[1]][1].format(m=f[2], k=f[3]); body[j].append(f'{e}{h}{{ {b} }}')
        for n, v in x['data']: body[r.randrange(nf)].append(f'__declspec(dllexport) u64 {n}{r.choice(["", "[1]"])} = ' .replace('[1] = ', '[1] = ') + (f'{v}ull;' if not 0 else ''))
        body = [[b.replace('[1] = ', ' = ') if 'declspec(dllexport) u64' in b and '[1] = ' in b else b for b in L] for L in body]
        for _ in range(r.randint(0, 4)): body[r.randrange(nf)].append(f'static u64 hid{r.getrandbits(30)}(u64 x){{ return x + 1; }}' if r.random() < .5 else f'u64 gl_{k}_{r.getrandbits(30)} = 5;')
        # exercise the imports
        want, what, lines = [], [], [[] for _ in range(nf)]; seed = r.getrandbits(60)
        for p, f in x['uses']:
            for _ in range(r.choice([1, 1, 2])):
                a = r.getrandbits(r.choice([16, 63])); w = r.random(); fn = f[0]; j = r.randrange(nf); T = SIG[f[1]][0]; loc = ''
                if w < .2: loc = f'{T.format(n="(*lp)").replace("u64 x)", "u64)") if 0 else T.format(n="(*lp)")} = {"&" if r.random() < .5 else ""}{fn}; '; fn = 'lp'; kind = 'local pointer'
                elif w < .35: g = f'gl_p{r.getrandbits(40)}'; body[j].append('static ' + T.format(n=f'(*{g})') + f' = {fn};'); fn = g; kind = 'initializer'
                elif w < .45: g = f'gl_t{r.getrandbits(40)}'; body[j].append('static void *' + g + f'[2] = {{ 0, (void *){fn} }};'); fn = f'(({T.format(n="(*)")}){g}[1])'; kind = 'void pointer table'
                elif w < .55 and x['by'] != 'clang': loc = ('extern __declspec(dllimport) ' if decl[fn] else 'extern ') + T.format(n=fn) + '; '; kind = 'block declaration'
                elif w < .62: fn = f'(w == n ? {fn} : {fn})'; kind = 'conditional'
                else: kind = 'call'
                lines[j].append(f'  {{ {loc}LOG({SIG[f[1]][2].format(f=fn, a=f"{a}ull")}); }}'); want.append((j, value(p, f, a), f'{f[0]} of {p["dll"]} ({f[1]}, {kind}) from {x["dll"]}'))
        want = [w for j in range(nf) for w in want if w[0] == j]
        for (p, (n, v)) in x.get('dat', []):
            heads[0].append(f'__declspec(dllimport) extern u64 {n};'); lines[nf - 1].append(f'  LOG({n}); LOG(*&{n});'); want += [(0, v, f'data {n}')] * 2
        if main:
            for p in dlls_of(prev): # nested calls reported by the other dlls
                if p['self']: heads[0].append(f'__declspec(dllimport) u64 chk_{p["k"]}(u64 *out, u64 n, u64 w);'); lines[nf - 1].append(f'  out = out0; chk_{p["k"]}(out, n, w);'); want += p['pending']
        for j in range(nf):
            heads[j].insert(0, H + '#define LOG(x) (out[++out[0]] = (u64)(x))'); s24 = 'S24 s24 = { 7, 8, 9 };'
            ns = f'u64 part_{k}_{j}(u64 *out, u64 n, u64 w){{ u64 *out0 = out; {s24}\n' + '\n'.join(lines[j]) + '\n  return 0;\n}'
            body[j].append(ns)
        calls = ''.join(f' part_{k}_{j}(out, n, w);' for j in range(nf)); pro = ''.join(f'u64 part_{k}_{j}(u64 *out, u64 n, u64 w); ' for j in range(nf)); x['self'] = bool(x['uses']) and not main; x['pending'] = want
        if main: body[0].append(pro + f'__declspec(dllexport) u64 t_0(u64 *out, u64 n, u64 q, u64 w){{ out[0] = 0;{calls} return 0; }}')
        elif x['self']: body[0].append(pro + f'__declspec(dllexport) u64 chk_{k}(u64 *out, u64 n, u64 w){{{calls} return 0; }}')
        if main: x['want'] = [w[1] for w in want]; x['what'] = [w[2] for w in want]
        if main: libs = sorted(set(libs) | {p['k'] for p in prev if p['self']} | {p['k'] for p, v in x.get('dat', [])})
        extra = [] if r.random() < .6 else [p['k'] for p in prev if p['k'] not in libs]
        L = [p for p in prev if p['k'] in libs + extra]; srcs = []; args = []
        for p in L:
            if bindlib == 'pragma': heads[r.randrange(nf)].append(f'#pragma comment(lib, "{p["libfile"]}")')
            elif bindlib == 'pragma-noext': heads[0].append(f'#pragma comment(lib, "{p["libfile"][:-4]}")')
            elif bindlib == 'libpath': os.makedirs(f'{d}/ld', exist_ok=True); shutil.copy(f'{d}/{p["libfile"]}', f'{d}/ld/only{p["libfile"]}'); args += ['/LIBPATH', 'ld'] * ('ld' not in args); heads[0].append(f'#pragma comment(lib, "only{p["libfile"]}")')
            elif bindlib == 'arg': args.append(p['libfile'])
        if bindlib == 'all' and L:
            t = hv.sh(['llvm-lib-18', '/nologo', f'/out:{d}/all{k}.lib'] + [f'{d}/{p["libfile"]}' for p in L]); args.append(f'all{k}.lib')
        for j in range(nf):
            r.shuffle(body[j]) if 0 else None; s = '\n'.join(heads[j] + body[j]) + '\n'; fn = f'm{k}_{j}.c'; files[fn] = s; srcs.append(fn); open(f'{d}/{fn}', 'w').write(s)
        dbg = r.choice(['/no_debug', '']); x['args'] = args
        if x['by'] == 'hlc':
            parts = srcs + args; r.shuffle(parts) if '/LIBPATH' not in args else None; o = f'{" ".join(parts)} /dll /quiet {dbg} /out:{x["dll"]}'; log.append(f'hlc {o}')
            h = D.h(o, d, tag=f'b{k}')
            if h.crashed or h.timeout or h.code != 0: bad(f'hlc {o}: {h.report}\n{errors(h.text)}'); return
            if not os.path.exists(f'{d}/{x["dll"]}'): bad(f'{x["dll"]} was not written'); return
        else:
            if x['by'] == 'obj':
                o = f'{" ".join(srcs)} /c /quiet {dbg} /out:m{k}.obj'; log.append(f'hlc {o}; lld {x["dll"]}'); h = D.h(o, d, tag=f'b{k}')
                if h.crashed or h.timeout or h.code != 0: bad(f'hlc {o}: {h.report}\n{errors(h.text)}'); return
                ok = os.path.exists(f'{d}/m{k}.obj')
                if not ok: bad(f'm{k}.obj was not written'); return
            else: ok, t = hv.clang_obj(f'{d}/{srcs[0]}', f'{d}/m{k}.obj'); log.append(f'clang {srcs[0]} {x["dll"]}')
            a = ['/dll', '/noentry', '/nodefaultlib', f'{d}/m{k}.obj'] + hv.support_obj() + [f'{d}/{p["libfile"]}' for p in L] + [f'/out:{d}/{x["dll"]}', f'/implib:{d}/own{k}.lib']
            if ok: ok, t = hv.lld(a)
            if not ok and x['by'] == 'obj': bad(f'lld {a}: {t[:600]}'); return
            if not ok: c.inconclusive += 1; c.count('reference_link'); c.sample(t[:500]); return
        P = pe.PE(open(f'{d}/{x["dll"]}', 'rb').read(), dll=True)
        if P.E: bad(f'{x["dll"]} ({x["by"]}): ' + '\n'.join(P.E)); return
        exp = {f[0] for f in x['fs']} | {n for n, v in x['data']} | ({f'chk_{k}'} if x['self'] else set()) | ({'t_0'} if main else set())
        if set(P.exports) != exp: bad(f'{x["dll"]} ({x["by"]}): exports differ: {sorted(set(P.exports) ^ exp)[:6]}'); return
        ordof = {}
        if x['by'] == 'hlc':
            need = {}
            for p, f in x['uses']: need.setdefault(p['dll'], set()).add(p['ords'].get(f[0], f[0]))
            if main:
                for p in prev:
                    if p['self']: need.setdefault(p['dll'], set()).add(p['ords'].get(f'chk_{p["k"]}', f'chk_{p["k"]}'))
            got = {dn: set(fn) for dn, _, fn in P.imports if dn.lower() not in ('ntdll.dll', 'vrt.dll')}
            if got != need: bad(f'{x["dll"]}: import table {sorted((k, sorted(map(str, v))[:9]) for k, v in got.items())}, reachable imports {sorted((k, sorted(map(str, v))[:9]) for k, v in need.items())}'); return
            c.count('import_tables_checked')
        # an import library for it
        if not main:
            how = r.choice(['lld', 'def', 'def', 'ordinal', 'data']) if x['by'] == 'clang' else r.choice(['def', 'def', 'ordinal', 'data']); x['lib'] = how; lf = r.choice(['i{}.lib', 'imp-{}.lib', 'L.{}.lib']).format(k); x['libfile'] = lf; x['ords'] = {}
            if how == 'lld': os.rename(f'{d}/own{k}.lib', f'{d}/{lf}')
            else:
                b = P.b; o = P.off(P.dir[0][0], 40); ob = P.u('I', o + 16)[0]; nn = P.u('I', o + 24)[0]; an, ao = P.u('I', o + 32)[0], P.u('I', o + 36)[0]
                T = [f'LIBRARY "{x["dll"]}"', 'EXPORTS']; L2 = []
                for q in range(nn):
                    s = P.cstr(P.u('I', P.off(an, 4 * nn) + 4 * q)[0], 'x'); od = P.u('H', P.off(ao, 2 * nn) + 2 * q)[0] + ob; dt = ' DATA' if s in dict(x['data']) else ''
                    if how == 'ordinal' and r.random() < .6:
                        if r.random() < .8 and not dt: L2.append(f'{s} @{od} NONAME'); x['ords'][s] = od
                        else: L2.append(f'{s} @{od}{dt}')
                    else: L2.append(f'{s}{dt}')
                r.shuffle(L2); files[f'e{k}.def'] = '\n'.join(T + L2) + '\n'; open(f'{d}/e{k}.def', 'w').write(files[f'e{k}.def'])
                t = hv.sh(['llvm-lib-18', '/nologo', '/machine:x64', f'/def:{d}/e{k}.def', f'/out:{d}/{lf}'])
                if t.returncode: c.inconclusive += 1; c.count('reference_lib'); c.sample((t.stdout or b'').decode()[:400]); return
        return True
    c.map(one, range(c.n(1200, 15000)))


def dlls_of(L): return L
