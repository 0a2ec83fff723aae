"""Thread local variables: threads in lockstep log initial values, addresses and what they see after every thread wrote its own copy; hlc against clang, the loader placing blocks as the TLS directory asks."""
import hashlib, os, random, shutil
import hv, tlsgen
from diffrun import Diff, describe, errors
from c15 import tls_obj

K32 = [f'/libpath:{hv.SDKLIB}/um/x64', 'kernel32.lib']


def run(c):
    c.rule = 'a program of 2-6 threads (and two late ones) and 4-16 thread local variables of every form: initial bytes, address identity, distinct addresses, alignment and values after interleaved writes equal those of clang\'s build; distinct = (form of build, features)'
    c.assume = ['clang 18 and lld implement implicit thread local storage as on Windows', 'the loader gives every thread a copy of the TLS template, aligned as the directory says and not more, in a slot that is not 0']
    D = Diff(c, words=9000); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base + i); nf = r.choice([1, 1, 2, 3]); s = tlsgen.source(r, nf); keys = s.pop(); d = hv.newdir(); names = [f'p{j}.c' for j in range(nf)]
        key = 'tls-' + hashlib.md5(''.join(s).encode()).hexdigest()[:10]; files = dict(zip(names, s))
        try:
            objs = []
            for n, t in files.items():
                open(f'{d}/{n}', 'w').write(t); ok, e = hv.clang_obj(f'{d}/{n}', f'{d}/{n}.obj'); objs.append(f'{d}/{n}.obj')
                if not ok: c.inconclusive += 1; c.count('reference_failed'); c.sample(e[:300]); return
            link = lambda o, out: hv.lld(['/dll', '/noentry', '/nodefaultlib'] + o + tls_obj() + hv.support_obj() + K32 + ['/out:' + out])
            ok, e = link(objs, f'{d}/ref.dll')
            if not ok: c.inconclusive += 1; c.count('reference_failed'); c.sample(e[:300]); return
            o = dict(tls_min=1, tls_base=r.choice([0, 1, 5, 40]), perturb=r.randint(1, 10**6), cpus=4)
            rr, ref = D.run(f'{d}/ref.dll', d, 'ref', **o)
            if rr.code != 0: c.inconclusive += 1; c.count('reference_failed'); c.sample('reference: ' + rr.report); return
            how = r.choice(['image', 'image', 'debug', 'objects', 'one object', 'mixed']) if nf > 1 else r.choice(['image', 'debug', 'objects'])
            fail = lambda w: c.violation(key, f'{how}: {w}', files)
            th = r.choice(['', ' /thread_count 1', ' /thread_count 4'])
            if how in ('image', 'debug'):
                q = D.h(' '.join(names) + ' /dll /quiet /out:h.dll' + (' /no_debug' if how == 'image' else '') + th, d); img = f'{d}/h.dll'
                if q.code != 0: c.case(); fail(q.report + ' ' + errors(q.text)); return
            else:
                ho = []
                for g in ([names] if how == 'one object' else [[n] for n in names]):
                    if how == 'mixed' and r.random() < .5: ho.append(f'{d}/{g[0]}.obj'); continue
                    q = D.h(' '.join(g) + f' /c /quiet /out:h{len(ho)}.obj' + r.choice(['', ' /no_debug']), d); 
                    if q.code != 0: c.case(); fail(q.report + ' ' + errors(q.text)); return
                    ho.append(f'{d}/h{len(ho)}.obj')
                ok, e = link(ho, f'{d}/h.dll'); img = f'{d}/h.dll'
                if not ok: c.case(); fail('lld rejects the objects: ' + e[:600]); return
            rh, got = D.run(img, d, 'h', **o)
            c.case((how, nf, tuple(k for k in keys if k.startswith('threads')))); c.count('programs_' + how.replace(' ', '_')); c.count('values_compared', len(ref.split())); c.count('threads', int(rh.stats.get('threads', 0)) if isinstance(rh.stats, dict) else 0)
            for k in keys: c.case((how, k), 0)
            if rh.timeout: c.inconclusive += 1; return
            if rh.code != 0 or got != ref: fail(describe(rh, got, ref)); return
            if i < 2: c.sample(f'{how} {keys} {rh.stats}')
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(500, 9000)))
