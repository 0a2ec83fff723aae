"""Images: strict parse, byte comparison of the same program linked for different bases, and execution at several bases."""
import random, hashlib, os, struct
import linkgen, pe, hv
from diffrun import Diff, describe, errors, memory_clean

EXTRA = '''
#pragma comment(lib, "kernel32.lib")
__declspec(dllimport) u32 GetCurrentThreadId(void);
__declspec(dllimport) u32 GetCurrentProcessId(void);
__declspec(dllimport) u32 GetLastError(void);
__declspec(dllimport) void SetLastError(u32 e);
'''
XBODY = '''
static u32 (*const gtid)(void) = &GetCurrentThreadId; static u32 (*gpid[2])(void) = { GetCurrentProcessId, &GetLastError };
static void *self = &self; void **chain[3] = { &self, (void **)&chain[2], (void **)chain };
'''
XT = ['  LOG(gtid() == GetCurrentThreadId());\n', '  LOG(gpid[0]() == GetCurrentProcessId());\n', '  SetLastError((u32)a); LOG(GetLastError()); LOG(gpid[1]());\n', '  LOG(*(void ***)chain[0] == &self); LOG(chain[1] == (void **)chain + 2); LOG(chain[2][0] == (void *)&self);\n']


def run(c):
    c.rule = 'a random program (1-4 files; data with addresses, tables, thread locals, over-aligned objects, imports, exports) written as dll, executable or EFI image with random options: every image passes the strict parser; the same program linked for another base differs exactly in the relocated 8-byte values (by the difference of the bases), the base field and the time stamp/GUID; and it logs the same values as the reference when loaded at its preferred base and at random other bases; distinct = program features x image kind x base kind'
    c.assume = ['the loader relocates as Windows does (it rejects images it cannot relocate)', 'lib/pe.py states the PE32+ rules; clang/lld builds the reference program']
    D = Diff(c); base = c.rng.getrandbits(48); logs = lambda t: '\n'.join(sorted(t.split('\n')))
    def one(i):
        r = random.Random(base + i); P = linkgen.L(r, tls=r.random() < .7)
        if r.random() < .3: P.nf, P.fs, P.head, P.body = P.nf, P.fs, P.head, P.body
        imp = r.random() < .5
        if imp: P.common = EXTRA + P.common
        S, keys = P.sources()
        if imp:
            j = next(k for k in range(len(S)) if 'EXPORT u64 t_0' in S[k]); h, t = S[j].split('EXPORT u64 t_0', 1)
            S[j] = h + XBODY + 'EXPORT u64 t_0' + t.replace('  return out[0];', ''.join(r.sample(XT, r.randint(1, 4))) + '  return out[0];', 1); keys = keys + ['imports']
        files = {f'p{j}.c': s for j, s in enumerate(S)}; d = hv.newdir(); k0 = f'image-{i}-{hashlib.md5("".join(S).encode()).hexdigest()[:10]}'
        def bad(t):
            if memory_clean(S, d) is False: c.inconclusive += 1; c.count('reference_undefined'); return
            c.case(); c.violation(k0, t, files)
        try:
            objs = []
            for j, s in enumerate(S):
                open(f'{d}/p{j}.c', 'w').write(s); ok, t = hv.clang_obj(f'{d}/p{j}.c', f'{d}/c{j}.obj')
                if not ok: c.inconclusive += 1; c.count('reference_rejects'); c.sample(t[:600]); return
                objs.append(f'{d}/c{j}.obj')
            import c15
            ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib'] + objs + hv.support_obj() + c15.tls_obj() + ([k32()] if imp else []) + [f'/out:{d}/ref.dll'])
            if not ok: c.inconclusive += 1; c.count('reference_link'); c.sample(t[:600]); return
            rr, ref = D.run(f'{d}/ref.dll', d, 'ref'); ref = logs(ref)
            if rr.code != 0: c.inconclusive += 1; c.count('reference_fails'); c.sample(rr.report[:300]); return
            kind = r.choice(['dll', 'dll', 'dll', 'exe', 'exe', 'efi']); names = ' '.join(sorted(files)); nd = sum('EXPORT u64 t_' in s for s in S)
            ts = sorted({x for s in S for x in range(4) if f'EXPORT u64 t_{x}(' in s})
            if kind != 'dll':
                m = linkgen.PRE.split('extern u64 *gout')[0] + '#undef EXPORT\n#define EXPORT\n' + ''.join(f'u64 t_{x}(u64 *, u64, u64, u64);\n' for x in ts) + 'static u64 obuf[4100]; static u64 fnv(u64 h){ for(u64 i = 0; i <= obuf[0]; i++) h = (h ^ obuf[i]) * 1099511628211ull; return h; }\n' + ('u64 efi_main(void *image, void *system)' if kind == 'efi' else 'int start_here(void)') + '{ u64 h = 14695981039346656037ull;\n' + ''.join(f't_{x}(obuf, 4000, 0, 0); h = fnv(h);\n' for x in ts) + 'return (int)((h ^ h >> 32) & 0x3fffffff); }\n'
                open(f'{d}/m.c', 'w').write(m); files['m.c'] = m; names += ' m.c'
            bases = sorted({0x180000000 if kind == 'dll' else 0x140000000, r.randrange(1, 0x7fff) << 16 | 0x10000, r.choice([0x7ff600000000, 0x10000000000, r.randrange(0x10000, 0x7ff00000) << 16]), r.randrange(0x10000, 0x40000) << 16}); r.shuffle(bases); bases = bases[:2]
            dbg = r.choice(['/no_debug', '']); out = 'p.' + kind; imgs = []
            o = f'{names} {dict(dll="/dll", exe="/entry:start_here /no_stdlib", efi="/subsystem:efi_application /entry:efi_main /no_stdlib")[kind]} {dbg} /quiet /thread_count 1 '
            def compile(extra, out):
                fin = out; out = 'p.' + kind; h = D.h(o + extra + f' /out:{out}', d, tag=fin)
                if h.timeout or h.crashed or h.code or 'ASSERT FIRED' in (h.text or ''): bad(f'{o}{extra}: {h.report}\n{errors(h.text) or (h.text or "")[-500:]}'); return
                if not os.path.exists(f'{d}/{out}'): bad(f'exit 0 but {out} is missing'); return
                b = open(f'{d}/{out}', 'rb').read(); p = pe.PE(b, dll=kind == 'dll', subsystem={'dll': None, 'exe': None, 'efi': 10}[kind])
                for k, v in p.n.items(): c.count('image ' + k, v)
                c.count('images_parsed')
                if kind == 'dll' and set(p.exports) != {f't_{x}' for x in ts}: p.bad(f'exports {sorted(p.exports)} instead of t_{ts}')
                if kind != 'dll' and not p.entry: p.bad('no entry point')
                if dbg and p.rsds: p.bad('/no_debug, but a pdb is named')
                if not dbg and (not p.rsds or os.path.basename(p.rsds[2].replace('\\', '/')) != out[:out.rindex('.')] + '.pdb'): p.bad(f'debug directory names {p.rsds}')
                os.rename(f'{d}/{out}', f'{d}/{fin}')
                if p.E: bad(f'{o}{extra}: not a valid image:\n' + '\n'.join(p.E)); return
                return p
            for n, x in enumerate(bases):
                p = compile(f'/image_base {x}', f'q{n}.{kind}')
                if not p: return
                if p.base != x: bad(f'image base {p.base:#x} instead of {x:#x}'); return
                if not p.dynamic: bad('no dynamic base flag'); return
                imgs.append(p)
            t = compare(*imgs)
            if t: bad(f'{o}: linked for {bases[0]:#x} and {bases[1]:#x}: {t}'); return
            c.count('relocations_confirmed', len(imgs[0].relocs)); c.count('bytes_compared', len(imgs[0].b))
            fixed = compile(f'/image_base {bases[0]} /no_dynamic_base', f'f.{kind}')
            if not fixed: return
            if fixed.dynamic: bad('/no_dynamic_base: dynamic base flag is set'); return
            at = [0, r.choice([0x5a0000000000, 0x7f0000, 0x120000000, 0x3f00000000]), r.randrange(0x1000, 0x7fff0) << 28 | 0x30000]; seen = set()
            for n, p in enumerate(imgs):
                for x in at[:3 if n == 0 else 2]:
                    f = f'{d}/q{n}.{kind}'; opts = {'base': hex(x)} if x else {}
                    if kind == 'dll':
                        rh, oh = D.run(f, d, 'q', **opts); oh = logs(oh)
                        if rh.code != 0 or oh != ref: bad(f'{o}: linked for {bases[n]:#x}, loaded at {x:#x}: ' + describe(rh, oh, ref)); return
                        c.count('values_compared', len(oh.split()))
                    elif kind == 'exe':
                        rh = D.p.run('run', f, d, f'{d}/q.txt', opts=opts)
                        if rh.crashed or rh.timeout: bad(f'{o}: linked for {bases[n]:#x}, loaded at {x:#x}: {rh.report}'); return
                        seen.add(rh.code)
                    else: continue
                    c.count('loads'); c.case((kind, 'preferred' if not x else 'relocated', 'above 4g' if bases[n] >> 32 else 'below 4g'), 0)
            if len(seen) > 1: bad(f'{o}: exit codes at different bases: {seen}'); return
            if kind == 'exe':
                ok, t = hv.clang_obj(f'{d}/m.c', f'{d}/cm.obj')
                if ok: ok, t = hv.lld(['/subsystem:console', '/entry:start_here', '/nodefaultlib'] + objs + [f'{d}/cm.obj'] + hv.support_obj() + c15.tls_obj() + ([k32()] if imp else []) + [f'/out:{d}/ref.exe'])
                rr = D.p.run('run', f'{d}/ref.exe', d, f'{d}/q.txt') if ok else None
                if not ok or rr.crashed or rr.timeout: c.inconclusive += 1; c.count('reference_link'); c.sample((t or rr.report)[:600]); return
                if {rr.code} != seen: bad(f'{o}: exit code {seen} instead of {rr.code}'); return
                c.count('exit_codes')
            c.case((kind, dbg) + tuple(keys))
            for k in keys: c.case((k, kind), 0)
            if i < 2: c.sample(f'{o} bases {[hex(x) for x in bases]}: {len(imgs[0].relocs)} relocations, {len(imgs[0].rf)} unwind entries, {imgs[0].imports}')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(1500, 20000)))


def compare(p, q):
    """the images may differ only where a relocation says so"""
    a, b = bytearray(p.b), bytearray(q.b); B = q.base - p.base
    if len(a) != len(b): return f'sizes {len(a)} and {len(b)}'
    if p.relocs != q.relocs: return f'relocations differ: {sorted(set(p.relocs) ^ set(q.relocs))[:5]}'
    for x in p.relocs:
        f = p.off(x, 8); v, w = struct.unpack_from('<Q', a, f)[0], struct.unpack_from('<Q', b, f)[0]
        if (w - v) & (2**64 - 1) != B & (2**64 - 1): return f'{x:#x} is relocated, but holds {v:#x} and {w:#x}'
        a[f:f + 8] = b[f:f + 8] = bytes(8)
    e = struct.unpack_from('<I', a, 0x3c)[0]
    for o, n in ((e + 8, 4), (e + 24 + 24, 8), (e + 24 + 64, 4)): a[o:o + n] = b[o:o + n] = bytes(n)
    for pp, y in ((p, a), (q, b)):
        r, n = pp.dir[6]
        for k in range(n // 28 if r else 0):
            f = pp.off(r, n) + 28 * k; y[f + 4:f + 8] = bytes(4); z, ptr = struct.unpack_from('<I', y, f + 16)[0], struct.unpack_from('<I', y, f + 24)[0]; y[ptr:ptr + z] = bytes(z)
        r, n = pp.dir[0]
        if r: f = pp.off(r, n); y[f + 4:f + 8] = bytes(4); m = pp.off(struct.unpack_from('<I', y, f + 12)[0], 1); y[m:m + 6] = bytes(6)
    if a != b:
        f = next(k for k in range(len(a)) if a[k] != b[k]); s = next((s for s in p.S if s['ptr'] <= f < s['ptr'] + s['rsize']), None)
        return f'byte {f:#x} ({s["name"] + "+" + hex(f - s["ptr"]) if s else "headers"}) differs without a relocation: {bytes(a[f & ~7:(f & ~7) + 8]).hex()} {bytes(b[f & ~7:(f & ~7) + 8]).hex()}'


def k32():
    def make(t):
        open(t + '/k.def', 'w').write('LIBRARY kernel32.dll\nEXPORTS\nGetCurrentThreadId\nGetCurrentProcessId\nGetLastError\nSetLastError\n')
        hv.must(hv.sh([hv.LLD, '/lib', '/machine:x64', f'/def:{t}/k.def', f'/out:{t}/k.lib']) if 0 else hv.sh(['llvm-lib-18' if os.path.exists('/usr/bin/llvm-lib-18') else 'llvm-lib', '/machine:x64', f'/def:{t}/k.def', f'/out:{t}/k.lib']), 'k32')
    return hv._cached('k32lib', 'v1', make) + '/k.lib'
