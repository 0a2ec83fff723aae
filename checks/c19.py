"""Reachability: reference graphs whose unreachable part refers to what does not exist, as DLLs, as objects for another linker, as DLLs used through their exports."""
import hashlib, random, shutil
import pe, hv, reachgen
from diffrun import Diff, describe, errors


def run(c):
    c.rule = 'a program of 8-34 functions and data objects with random references; distinct = reference forms used, mode'
    D = Diff(c, words=6000); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base * 43 + i); mode = r.choice(['dll', 'dll', 'obj', 'exp']); g = reachgen.G(r, mode); fs, exp = g.program(r.choice([1, 2, 3, 5]) if mode != 'exp' else 0); d = hv.newdir()
        files = {f'p{k}.c': t for k, t in enumerate(fs)}; key = mode + '-' + hashlib.md5(''.join(fs).encode()).hexdigest()[:10]; fail = lambda w: c.violation(key, w, files)
        try:
            if mode == 'exp':
                if not g.exported: return
                dt, want = g.driver(); files['driver.c'] = dt
            for n, t in files.items(): open(f'{d}/{n}', 'w').write(t)
            names = ' '.join(n for n in files if n != 'driver.c')
            q = D.h(f'{names} /quiet /no_debug ' + ('/c /out:h.obj' if mode == 'obj' else '/dll /out:h.dll'), d)
            if q.timeout: c.inconclusive += 1; return
            if q.code != 0: c.case(); fail(q.report + '\n' + errors(q.text)); return
            image = f'{d}/h.dll'
            if mode == 'obj':
                ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib', f'{d}/h.obj'] + hv.support_obj() + [f'/out:{image}'])
                if not ok: c.case(); fail('the object does not link: ' + t[:600]); return
            if mode == 'exp':
                P = pe.PE(open(image, 'rb').read(), dll=True)
                if set(P.exports) != {x.n for x in g.exported}: c.case(); fail(f'exports differ: {sorted(set(P.exports) ^ {x.n for x in g.exported})[:6]}'); return
                open(f'{d}/h.def', 'w').write('LIBRARY h.dll\nEXPORTS\n' + ''.join(f'{x.n}{"" if x.kind == "fn" else " DATA"}\n' for x in g.exported))
                t = hv.sh(['llvm-lib-18', '/nologo', '/machine:x64', f'/def:{d}/h.def', f'/out:{d}/h.lib']); ok, e = hv.clang_obj(f'{d}/driver.c', f'{d}/driver.obj')
                if ok: ok, e = hv.lld(['/dll', '/noentry', '/nodefaultlib', f'{d}/driver.obj', f'{d}/h.lib'] + hv.support_obj() + [f'/out:{d}/main.dll'])
                if not ok: c.inconclusive += 1; c.count('driver_failed'); c.sample(e[:500]); return
                image = f'{d}/main.dll'; exp = [('t_0', want)]
            rh, got = D.run(image, d, 'h', **({'dll': f'{d}/h.dll', 'strict': 1} if mode == 'exp' else {}))
            if rh.timeout: c.inconclusive += 1; return
            w = ''.join(f'{n} {len(v):x}' + ''.join(' %x' % x for x in v) + '\n' for n, v in exp)
            c.case((mode, tuple(sorted(g.keys)))); c.count('programs_' + mode); c.count('values_compared', sum(len(v) for n, v in exp)); c.count('unreachable_objects', sum(not x.want for x in g.nodes)); c.count('undefined_names', len(g.u)); c.count('references', sum(len(x.E) for x in g.nodes))
            if rh.code or got.split() != w.split(): fail(describe(rh, got, w)[:800])
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(2500, 60000)))
