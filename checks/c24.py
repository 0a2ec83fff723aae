"""Atomic operations: the value of every form against clang, and threads hammering shared objects whose results must add up."""
import hashlib, os, random, shutil
import hv, atomgen
from diffrun import Diff, describe, errors

K32 = [f'/libpath:{hv.SDKLIB}/um/x64', 'kernel32.lib']


def run(c):
    c.rule = 'a program of 8-30 atomic operations with logged results, or of 2-6 threads doing up to a million operations whose sums, exactly-once exchanges, owned bits, locks, torn values and store buffering outcomes must be the only legal ones; distinct = (kind, operation)'
    c.assume = ['clang 18 implements _Atomic and the Interlocked functions correctly', 'eight processors run the threads truly in parallel; a lost update among the operations of a run shows with overwhelming probability']
    D = Diff(c, words=4000); d = hv.newdir(); src = atomgen.fixed(); open(f'{d}/p.c', 'w').write(src)
    q = D.h('p.c /quiet /dll /no_debug /out:h.dll', d)
    rh, got = D.run(f'{d}/h.dll', d, 'h') if q.code == 0 else (q, '')
    lines = {l.split()[0]: l.split()[1:] for l in got.splitlines() if l.strip()}
    for i, (name, st, want) in enumerate(atomgen.FIXED):
        c.case(('fixed', name)); g = lines.get(f't_{i}', [])[1:]
        if rh.code != 0 or g != [f'{v & (2**64 - 1):x}' for v in want]: c.violation('fixed-' + name.replace(' ', '-'), f'{st}: {g}, the standard says {want} {rh.report}', {'p.c': src})
    shutil.rmtree(d, ignore_errors=True)
    base = c.rng.getrandbits(48)
    # the threads of one program need processors of their own
    NV, NS = c.n(600, 14000), c.n(150, 1600)
    def one(i, kind):
        r = random.Random(base * 31 + i + (1 << 50 if kind == 'stress' else 0)); d = hv.newdir()
        src, keys = atomgen.values(r) if kind == 'values' else atomgen.stress(r, c.n(60000, 120000)); key = f'{kind}-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src}
        try:
            for n in ('p', 'r'): open(f'{d}/{n}.c', 'w').write(src)
            ok, e = hv.clang_obj(f'{d}/r.c', f'{d}/r.obj', ['-mcx16'])
            link = lambda o, out: hv.lld(['/dll', '/noentry', '/nodefaultlib'] + o + hv.support_obj() + K32 + ['/out:' + out])
            if ok: ok, e = link([f'{d}/r.obj'], f'{d}/ref.dll')
            if not ok: c.inconclusive += 1; c.count('reference_failed'); c.sample(e[:500]); return
            how = r.choice(['image', 'image', 'object'])
            q = D.h('p.c /quiet ' + ('/dll /no_debug /out:h.dll' if how == 'image' else '/c /out:h.obj'), d); fail = lambda w: c.violation(key, f'{how}: {w}', files)
            if q.code != 0: c.case(); fail(q.report + ' ' + errors(q.text)); return
            if how == 'object':
                ok, e = link([f'{d}/h.obj'], f'{d}/h.dll')
                if not ok: c.case(); fail('lld rejects the object: ' + e[:600]); return
            o = dict(cpus=4)
            rr, ref = D.run(f'{d}/ref.dll', d, 'ref', **o); rh, got = D.run(f'{d}/h.dll', d, 'h', **o)
            if rr.code != 0: c.inconclusive += 1; c.count('reference_failed'); c.sample('reference: ' + rr.report); return
            if rh.timeout: c.inconclusive += 1; c.count('timeout'); return
            c.case((kind, how, tuple(keys[:3]))); c.count(f'programs_{kind}'); c.count('values_compared', len(ref.split()))
            for k in keys: c.case((kind, k), 0)
            if rh.code != 0 or got != ref: fail(describe(rh, got, ref) + ' ' + '; '.join(keys)); return
            if i < 1: c.sample(f'{kind} {keys}')
        finally: shutil.rmtree(d, ignore_errors=True)
    libd = hv.newdir('vrt'); hv.sh(['llvm-lib-18', f'/def:{hv.VERIF}/rt/vrt.def', '/machine:x64', f'/out:{libd}/vrt.lib']); lib = open(f'{libd}/vrt.lib', 'rb').read(); shutil.rmtree(libd, ignore_errors=True)
    def stepped(i):
        """indivisibility, deterministically: the object changes in front of every single instruction of the operation"""
        r = random.Random(base * 59 + i); d = hv.newdir(); src, keys = atomgen.interfere(r); key = 'step-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src}
        try:
            open(f'{d}/vrt.lib', 'wb').write(lib)
            for n in ('p', 'r'): open(f'{d}/{n}.c', 'w').write(src)
            q = D.h('p.c vrt.lib /quiet /dll /no_debug /out:h.dll', d)
            if q.code != 0: c.case(); c.violation(key, q.report + ' ' + errors(q.text), files); return
            rh, got = D.run(f'{d}/h.dll', d, 'h')
            if rh.timeout: c.inconclusive += 1; c.count('timeout'); return
            v = [int(x, 16) for x in got.split()[2:]] if rh.code == 0 else []
            c.count('programs_stepped')
            if rh.code != 0 or len(v) != 2 * len(keys): c.case(); c.violation(key, describe(rh, got, ''), files); return
            for k, w in enumerate(keys):
                c.case(('stepped',) + w); c.count('operations_stepped')
                if v[2 * k] or v[2 * k + 1] != 1: c.violation(key, f'operation {k} {w}: {v[2 * k]} of its instructions are points at which a change of the object makes the outcome that of neither order', files); return
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(stepped, range(c.n(400, 8000)))
    c.map(lambda i: one(i, 'values'), range(NV))
    c.map(lambda i: one(i, 'stress'), range(NS), workers=2)
