"""Objects: strict parse of every object, and programs linked from objects of both compilers in random combinations."""
import random, hashlib, os
import linkgen, coff, hv
from mixrun import Mix
from diffrun import describe, errors, memory_clean


def run(c):
    c.rule = 'a random program of 2-4 files sharing functions and data in every way (extern, static of the same name, tentative, selectany, const, aligned, thread local, inline, addresses in initializers across files); every object hlc writes is parsed under strict COFF rules, and the program linked by lld-link from hlc objects (one per file; several files in one object; inside of a .lib) and clang objects in random combinations, or written by hlc directly, has the log of the program linked from clang objects only; distinct = features of agreeing programs x link variant'
    c.assume = ['clang 18 objects linked by lld-link 18 are the intended program', 'the COFF rules in lib/coff.py are those of the PE/COFF specification']
    M = Mix(c); base = c.rng.getrandbits(48); logs = lambda t: '\n'.join(sorted(t.split('\n')))
    def one(i, key=None):
        r = random.Random(base + i); P = linkgen.L(r, tls=True); S, keys = P.sources(); d = hv.newdir(); n = len(S); files = {f'p{j}.c': s for j, s in enumerate(S)}
        k0 = key or f'link-{i}-{hashlib.md5("".join(S).encode()).hexdigest()[:10]}'
        def bad(t, **kw):
            if memory_clean(S, d) is False: c.inconclusive += 1; c.count('reference_undefined'); return
            c.case(); c.violation(k0, t, dict(files, **kw))
        try:
            for j, s in enumerate(S):
                open(f'{d}/p{j}.c', 'w').write(s); ok, t = hv.clang_obj(f'{d}/p{j}.c', f'{d}/c{j}.obj')
                if not ok: c.inconclusive += 1; c.count('reference_rejects'); c.sample(t[:600]); return
            tls = tls_obj()
            ok, t = M.link([f'{d}/c{j}.obj' for j in range(n)] + tls, f'{d}/ref.dll')
            if not ok: c.inconclusive += 1; c.count('reference_link'); c.sample(t[:600]); return
            rr, ref = M.run(f'{d}/ref.dll', d, 'ref'); ref = logs(ref)
            if rr.code != 0: c.inconclusive += 1; c.count('reference_fails'); return
            for j in range(n):
                ok, t = hv.clang_obj(f'{d}/p{j}.c', f'{d}/o{j}.obj', ['-O1'])
                if not ok: c.inconclusive += 1; return
            ok, t = M.link([f'{d}/o{j}.obj' for j in range(n)] + tls, f'{d}/o.dll'); ro, oo = M.run(f'{d}/o.dll', d, 'o') if ok else (None, '')
            if not ok or ro.code != 0 or logs(oo) != ref: c.inconclusive += 1; c.count('reference_undefined'); return
            dbg = r.choice(['/no_debug', '/no_debug', '']); objs = []
            def compile(names, out):
                h = M.h(f'{" ".join(names)} /c {dbg} /quiet /out:{out}', d, tag=out)
                if h.timeout or h.crashed or h.code or 'ASSERT FIRED' in (h.text or ''): bad(f'{names}: {h.report}\n{errors(h.text) or (h.text or "")[-500:]}'); return False
                if not os.path.exists(f'{d}/{out}'): bad(f'exit 0 but {out} is missing'); return False
                e, st, _ = coff.parse(open(f'{d}/{out}', 'rb').read())
                for k, v in st.items(): c.count('object ' + k, v)
                c.count('objects_parsed')
                if e: bad(f'{out} ({names}) is not a valid object:\n' + '\n'.join(e)); return False
                return True
            for j in range(n):
                if not compile([f'p{j}.c'], f'p{j}.obj'): return
            parts = r.sample(range(n), r.randint(2, n)); 
            if not compile([f'p{j}.c' for j in parts], 'multi.obj'): return
            V = [('hlc', [f'{d}/p{j}.obj' for j in range(n)])]
            for _ in range(3):
                m = r.randrange(1, 2 ** n); V.append((''.join('ch'[m >> j & 1] for j in range(n)), [f'{d}/{"p" if m >> j & 1 else r.choice("co")}{j}.obj' for j in range(n)]))
            V.append((f'one object of {len(parts)}', [f'{d}/multi.obj'] + [f'{d}/{r.choice("pco")}{j}.obj' for j in range(n) if j not in parts]))
            exp = [j for j in range(n) if 'EXPORT u64 t_' in S[j]]; lib = [j for j in range(n) if j not in exp]
            if lib:
                x = r.choice('ph'); ok = hv.sh(['llvm-lib-18' if os.path.exists('/usr/bin/llvm-lib-18') else 'llvm-lib', '/out:' + d + '/x.lib'] + [f'{d}/p{j}.obj' for j in lib]).returncode == 0
                if not ok: bad('llvm-lib does not accept the objects'); return
                V.append(('library', [f'{d}/{"p" if x == "p" else "c"}{j}.obj' for j in exp] + [f'{d}/x.lib']))
            for name, o in V:
                r.shuffle(o); tag = 'v' + str(V.index((name, o))); ok, t = M.link(o + tls, f'{d}/{tag}.dll')
                if not ok: bad(f'{name}: lld-link: {t[:800]}'); return
                rh, oh = M.run(f'{d}/{tag}.dll', d, tag); oh = logs(oh); c.count('linked_images')
                if rh.code != 0 or oh != ref: bad(f'{name} ({dbg or "debug info"}): ' + describe(rh, oh, ref)); return
                for k in keys: c.case((k, name), 0)
            h = M.h(f'{" ".join(f"p{j}.c" for j in range(n))} /dll /no_debug /quiet /out:direct.dll', d)
            if h.code: bad('direct: ' + h.report + errors(h.text)); return
            rh, oh = M.run(f'{d}/direct.dll', d, 'direct')
            if rh.code != 0 or logs(oh) != ref: bad('written directly: ' + describe(rh, logs(oh), ref)); return
            c.case(tuple(keys)); c.count('values_compared', len(ref.split()) * (len(V) + 1))
            if i < 2: c.sample(S[0][-900:])
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(600, 12000)))


TLS = '''
unsigned _tls_index = 0; __declspec(thread) char __tls_guard = 1; void __dyn_tls_on_demand_init(void){}
__attribute__((section(".tls"), used)) char _tls_start[16] = {0};
__attribute__((section(".tls$ZZZ"), used)) char _tls_end[16] = {0};
__attribute__((section(".rdata$T"), used)) const struct { void *a, *b, *i, *c; unsigned z, f; } _tls_used = { _tls_start, _tls_end, &_tls_index, 0, 0, 0 };
'''


def tls_obj():
    def make(t):
        open(t + '/t.c', 'w').write(TLS); hv.must(hv.sh([hv.CLANG, hv.WIN, '-O1', '-c', t + '/t.c', '-o', t + '/t.obj']), 'tls')
    return [hv._cached('tlsobj', hashlib.sha256(TLS.encode()).hexdigest()[:20], make) + '/t.obj', '/include:_tls_used']
