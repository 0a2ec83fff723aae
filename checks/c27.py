"""Self hosting: the compiler built by clang, by itself (as image, as object linked by lld) and by that again; fixpoint, and the same behaviour on every input."""
import hashlib, os, random, re, shutil
import hv, mutgen, cgen, ctlgen, presgen, abigen, laygen, litgen, ppgen, initgen, framegen, constraints

FLAGS = ['/no_debug /out:o.exe', '/out:o.exe', '/c /out:o.obj', '/dll /out:o.dll', '/dll /no_debug /out:o.dll', '/Zs', '/P /Fi:o.i', '/EP', '/obj /no_debug /out:o.obj', '/obj /out:o.obj']
OUT = ('o.exe', 'o.obj', 'o.dll', 'o.i', 'o.pdb', 'o.lib')


def mask(b):
    """contents of an output without the random GUID"""
    b = bytearray(b)
    if b[:2] == b'MZ':
        i = b.rfind(b'RSDS')
        if i >= 0: b[i + 4:i + 20] = bytes(16)
    elif b[:20] == b'Microsoft C/C++ MSF ':
        import struct
        try:
            bs, fpm, nb, sz, _, mp = struct.unpack_from('<6I', b, 32); d = b''.join(bytes(b[x * bs:x * bs + bs]) for x in struct.unpack_from(f'<{(sz + bs - 1) // bs}I', b, mp * bs))[:sz]
            n, = struct.unpack_from('<I', d); ss = struct.unpack_from(f'<{n}I', d, 4); o = 4 + 4 * n
            p0 = (ss[0] + bs - 1) // bs if ss[0] != 0xffffffff else 0; p1, = struct.unpack_from('<I', d, o + 4 * p0); b[p1 * bs + 12:p1 * bs + 28] = bytes(16)
        except Exception: pass
    return bytes(b)


def text(t):
    t = re.sub(r'(?m)^Total Lines:.*\n|^preprocessing .*\n|^.*Time:.*\n', '', t); return t


def run(c):
    c.rule = 'one compilation by the compiler built by clang and by one built by the compiler itself: equal exit code, output text and output files (without the random GUID of the debug information); distinct = (option, outcome, output digest)'
    c.assume = ['clang 18 -O0 compiles the sources correctly', '/seed 1 /thread_count 1 and the loader make a compilation deterministic']
    root = hv.newdir(); shutil.copytree(hv.REPO + '/src', root + '/src'); os.makedirs(root + '/h'); os.symlink(hv.REPO + '/implicit', root + '/h/implicit')
    MOD = {'module': root + '/h/hlc.exe', 'time': '1700000000'}
    h0 = hv.Hlc()
    D = ' /seed 1 /thread_count 1'
    def stage(h, name, args='src/main.c /out:h/hlc.exe', link=False):
        r = h(args + D, root, cpu=120, wall=300, opts=MOD, tag='self'); c.case(('stage', name)); c.count('self_compilations')
        if r.crashed or r.code != 0:
            c.violation('self-' + name, f'{name}: the compiler does not compile itself: {h.explain(r.report) if h is h0 else r.report} ' + '\n'.join(x for x in (r.text or '').split('\n') if 'rror' in x)[:1500]); return None
        if link:
            ok, t = hv.lld(hv.HLC_LINK[1:] + ['/timestamp:0', 'h/hlc.obj', '/out:h/hlc.exe'], root)
            if not ok: c.violation('self-' + name, f'{name}: lld does not link the compiler from its object: {t[:1000]}'); return None
        out = {}
        for n in os.listdir(root + '/h'):
            if n.startswith('hlc.'): out[n] = mask(open(root + '/h/' + n, 'rb').read())
        os.makedirs(root + '/' + name); p = f'{root}/{name}/hlc.exe'; shutil.copy(root + '/h/hlc.exe', p)
        for n in list(out): os.unlink(root + '/h/' + n)
        return hv.Hlc(image=p), text(r.text or ''), out
    s1 = stage(h0, 'image')
    s1o = stage(h0, 'object', '/c src/main.c /out:h/hlc.obj', link=True)
    s1n = stage(h0, 'nodebug', 'src/main.c /no_debug /out:h/hlc.exe')
    gens = []
    def same(a, b, name):
        if a is None or b is None: return
        c.case(('fixpoint', name)); c.count('fixpoints')
        if a[1] != b[1]: c.violation('self-' + name, f'{name}: different messages compiling itself: ' + first(a[1], b[1])); return
        for n in sorted(set(a[2]) | set(b[2])):
            x, y = a[2].get(n), b[2].get(n)
            if x != y:
                k = next((i for i, (p, q) in enumerate(zip(x or b'', y or b'')) if p != q), -1)
                c.violation('self-' + name, f'{name}: {n} differs at {k:#x} (sizes {len(x or b"")}, {len(y or b"")}) when the compiler compiles itself again'); return
    s2 = s2o = None
    if s1:
        s2 = stage(s1[0], 'image2'); same(s1, s2, 'image2')
        if s2: same(s2, stage(s2[0], 'image3'), 'image3')
        o2 = stage(s1[0], 'object2', '/c src/main.c /out:h/hlc.obj', link=True); same(s1o, o2, 'object2')
    if s1o: same(s1, stage(s1o[0], 'image-by-object'), 'image-by-object')
    if s1n: same(s1, stage(s1n[0], 'image-by-nodebug'), 'image-by-nodebug')
    other = [(n, s[0]) for n, s in (('image', s1), ('object', s1o), ('nodebug', s1n)) if s]
    if not other: return
    pool = mutgen.corpus(); base = c.rng.getrandbits(48); cat = constraints.CATALOGUE if hasattr(constraints, 'CATALOGUE') else []
    def gen(r):
        x = r.random()
        if x < .1: return cgen.Gen(r, stmts=8, ntests=3).program(), 'expressions'
        if x < .17: return ctlgen.source(r), 'flow'
        if x < .24: return presgen.source(r), 'pressure'
        if x < .31: s = litgen.source(r)
        elif x < .36: s = laygen.source(r)
        elif x < .41: s = initgen.source(r)
        elif x < .46: s = framegen.source(r)
        elif x < .5: return ppgen.source(r) if hasattr(ppgen, 'source') else r.choice(pool)[1], 'preprocessor'
        else:
            src = r.choice(pool)[1]; k = 'corpus'
            if x > .65:
                for _ in range(r.choice([1, 1, 2])): src, _k = mutgen.mutate(r, src, pool)
                k = 'mutated'
            return src, k
        return s, 'generated'
    def one(i):
        r = random.Random(base * 1000003 + i); d = hv.newdir()
        try:
            if i < len(pool): src, k, fl = pool[i][1], 'corpus', '/no_debug /out:o.exe' if i & 1 else '/out:o.exe'
            else: src, k = gen(r); fl = r.choice(FLAGS)
            while isinstance(src, tuple): src = src[0]
            open(d + '/t.c', 'wb').write(src.encode('latin1', 'replace'))
            args = f't.c {fl}' + r.choice(['', ' /quiet', ' /Wall']) + D; n, h1 = other[i % len(other)] if r.random() < .5 else other[0]
            res = []
            for h in (h0, h1):
                q = h(args, d, cpu=30, wall=90, opts=MOD, tag='x'); o = {}
                for f in OUT:
                    if os.path.exists(d + '/' + f): o[f] = hashlib.md5(mask(open(d + '/' + f, 'rb').read())).hexdigest()[:12]; os.unlink(d + '/' + f)
                res.append((q, text(q.text or ''), o))
            (a, ta, oa), (b, tb, ob) = res; key = f'{k}-{hashlib.md5(src.encode("latin1", "replace")).hexdigest()[:10]}'
            if a.timeout or a.crashed or 'ASSERT FIRED' in ta: c.count('skipped_crash'); return      # the business of C12
            if b.timeout: c.inconclusive += 1; return
            c.case((fl, a.code, tuple(sorted(oa.items())), hashlib.md5(ta.encode()).hexdigest()[:8])); c.count('compilations_' + n); c.count('outputs_compared', len(oa))
            w = None
            if b.crashed: w = f'the compiler compiled by itself ({n}) stops: {b.report}'
            elif a.code != b.code: w = f'exit code {a.code}, compiled by itself ({n}) {b.code}: ' + first(ta, tb)
            elif ta != tb: w = f'messages differ when compiled by itself ({n}): ' + first(ta, tb)
            elif oa != ob: w = f'output differs when compiled by itself ({n}): ' + ', '.join(f for f in OUT if oa.get(f) != ob.get(f))
            if w: c.violation(key, f'{args}: {w}', {'t.c': src})
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(2600, 60000)))
    shutil.rmtree(root, ignore_errors=True)


def first(a, b):
    x, y = a.split('\n'), b.split('\n')
    for p, q in zip(x, y):
        if p != q: return f'{p[:200]!r} / {q[:200]!r}'
    return f'{len(x)} / {len(y)} lines: {(x + y)[min(len(x), len(y))][:200] if len(x) > len(y) else y[len(x)][:200] if len(y) > len(x) else ""!r}'
