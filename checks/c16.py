"""Unwinding: every program is single-stepped; at every instruction a virtual unwinder walks the image's .pdata/.xdata back to the caller."""
import hashlib, random, os
import cgen, ctlgen, presgen, framegen, abigen, alcgen, hv
from diffrun import Diff, errors
from mixrun import Mix


def run(c):
    c.rule = 'a program every executed instruction of which unwinds, through all frames up to the harness, to the caller\'s rip, rsp, rbx rbp rsi rdi r12-r15 and xmm6-15; distinct = programs and (kind, feature) pairs'
    c.assume = ['rt/unwind.h implements RtlVirtualUnwind for version 1 unwind information', 'functions built by clang/lld (memcpy and the stack probe of the harness) have correct unwind information']
    D = Diff(c, words=6000); base = c.rng.getrandbits(48)
    gens = [('frames', lambda r: framegen.source(r), .4), ('random', lambda r: (cgen.Gen(r, stmts=10, ntests=1).program(), ['expressions']), .2), ('flow', lambda r: (ctlgen.source(r), ['flow']), .15),
            ('pressure', lambda r: (presgen.source(r), ['pressure']), .1), ('alloca', lambda r: alcgen.source(r), .08), ('abi', lambda r: abigen.sources(r), .07)]
    def one(i):
        r = random.Random(base + i); x = r.random()
        for name, g, w in gens:
            x -= w
            if x < 0: break
        s = g(r); keys = s[-1]; srcs = []
        for t in s[:-1]: srcs += [t] if isinstance(t, str) else [t[0]]
        keys = [k for k in keys if len(str(k)) < 40][:30]
        d = hv.newdir(); key = f'{name}-{i}-{hashlib.md5("".join(srcs).encode("latin1", "replace")).hexdigest()[:10]}'; how = r.choice(['dll', 'dll', 'objects', 'debug'])
        try:
            for j, t in enumerate(srcs): open(f'{d}/p{j}.c', 'w', encoding='latin1').write(t)
            names = ' '.join(f'p{j}.c' for j in range(len(srcs))); objs = []
            if how == 'objects':
                for j in range(len(srcs)):
                    h = D.h(f'p{j}.c /c /quiet' + r.choice(['', ' /no_debug']), d, tag=f'o{j}'); objs.append(f'{d}/p{j}.obj')
                    if h.code: break
            else: h = D.h(f'{names} /dll /quiet /out:p.dll' + (' /no_debug' if how == 'dll' else ''), d)
            if h.code != 0 or h.crashed:
                c.inconclusive += 1; c.count('not_compiled'); c.sample(f'{key}: {h.report} {errors(h.text)[:300]}'); return
            if objs:
                ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib'] + objs + hv.support_obj() + [f'/out:{d}/p.dll'])
                if not ok: c.violation(key, 'lld rejects the objects: ' + t[:500], {f'p{j}.c': t for j, t in enumerate(srcs)}); return
            rr, out = D.run(f'{d}/p.dll', d, 'p', step=c.n(250000, 1500000), stack=0x4000000)
            m = rr.stats if isinstance(rr.stats, dict) else dict(x.split("=") for x in rr.stats.split(";") if "=" in x); c.count('instructions_unwound', int(m.get("unwinds", 0)))
            if rr.code != 0:
                if 'UNWIND' in rr.report: c.case(); c.violation(key, f'{how}: {rr.report}', {f'p{j}.c': t for j, t in enumerate(srcs)})
                else: c.inconclusive += 1; c.count('program_stopped'); c.sample(f'{key}: {rr.report}')
                return
            c.case((name, how, str(len(out)), hashlib.md5(out.encode()).hexdigest()[:12])); c.count('programs_' + how)
            for k in keys: c.case((name, how, k), 0)
            if i < 2: c.sample(f'{key} {how}: {m}')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(600, 9000)))
