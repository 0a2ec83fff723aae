"""Order and split independence: permuted and distributed declarations behave like the ordered program compiled by the reference."""
import random, hashlib, os
import ordgen, hv
from diffrun import Diff, describe, errors


def run(c):
    c.rule = 'one arrangement (permutation of all declarations in one file; distribution over 1-4 files with types spread over the files, or in a shared header, with redundant prototypes) of a random program that hlc accepts and whose log equals that of the ordered program compiled by the reference; distinct = declaration features x arrangement'
    c.assume = ['clang 18 compiles the ordered program (types, prototypes, definitions) as intended']
    D = Diff(c); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base + i); P = ordgen.Prog(r); ref = P.reference(); d = hv.newdir()
        try:
            ok, t = D.ref(ref, d)
            if not ok: c.inconclusive += 1; c.count('reference_rejects'); c.sample(t[:500]); return
            rc, oc = D.run(f'{d}/c.dll', d, 'c')
            if rc.code != 0: c.inconclusive += 1; c.count('reference_fails'); return
            want = '\n'.join(sorted(oc.split('\n')))
            arr = [('one file', P.one_file(r)), ('files', P.files(r)), ('files+prototypes', P.files(r, extra_proto=True)), ('header', P.files(r, header=True))]
            if i % 6 == 0:
                # one false assertion anywhere is always reported, wherever the declarations it needs are
                name, fs = arr[i // 6 % 4]; fs = dict(fs); n = r.choice(sorted(x for x in fs if x.endswith('.c'))); L = fs[n].split('\n'); cc = P.const(); L.insert(r.randint(2, len(L)), f'_Static_assert(({cc}) * 2 - ({cc}) != ({cc}), "is_false");'); fs[n] = '\n'.join(L); e = hv.newdir()
                try:
                    for n, b in fs.items(): open(f'{e}/{n}', 'w').write(b)
                    cmd = ' '.join(sorted(n for n in fs if n.endswith('.c'))) + f' /dll /no_debug /quiet /out:p.dll /thread_count {r.choice([1, 1, 2, 4])} /seed {r.randint(1, 9999)}'; h = D.h(cmd, e); c.case((name, 'false assertion')); c.count('false_assertions')
                    if h.code != 1 or 'is_false' not in (h.text or ''): c.violation(f'assert-{i}-{name.replace(" ", "-")}-{hashlib.md5(repr(sorted(fs.items())).encode()).hexdigest()[:10]}', f'{name}: the assertion that is false was not reported: {h.report}\n{(h.text or "")[-300:]}', dict(fs, **{'cmd.txt': cmd}))
                finally: hv.shutil.rmtree(e, ignore_errors=True)
            for name, fs in arr:
                e = hv.newdir()
                try:
                    for n, b in fs.items(): open(f'{e}/{n}', 'w').write(b)
                    names = sorted(n for n in fs if n.endswith('.c')); r.shuffle(names)
                    # the threads take the files in any order
                    cmd = ' '.join(names) + f' /dll /no_debug /quiet /out:p.dll /thread_count {r.choice([1, 1, 2, 4])} /seed {r.randint(1, 9999)}'
                    h = D.h(cmd, e); key = f'order-{i}-{name.replace(" ", "-")}-{hashlib.md5(repr(sorted(fs.items())).encode()).hexdigest()[:10]}'
                    out = dict(fs, **{'ref.c': ref, 'cmd.txt': cmd})
                    if h.timeout or h.crashed or h.code not in (0, 1) or 'ASSERT FIRED' in (h.text or ''): c.case(); c.violation(key, f'{name}: compiler failed: {h.report}\n{h.text[-600:]}', out); continue
                    if h.code: c.case(); c.violation(key, f'{name}: rejected\n{errors(h.text)}', out); continue
                    rh, oh = D.run(f'{e}/p.dll', e, 'p'); got = '\n'.join(sorted(oh.split('\n')))
                    if rh.code != 0 or got != want: c.case(); c.violation(key, f'{name}: {describe(rh, got, want)}', out); continue
                    c.case((name, len(names)) + tuple(sorted(P.k))); c.count('arrangements'); c.count('values_compared', len(want.split()))
                    for k in P.k: c.case((k, name, len(names)), 0)
                    if i < 1: c.sample(f'{name}: {cmd}\n' + fs['p0.c'][:700])
                finally: hv.shutil.rmtree(e, ignore_errors=True)
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(1200, 20000)))
