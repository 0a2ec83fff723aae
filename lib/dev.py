"""Developer tool: run the random differential generator, shrink what fails. usage: dev.py N [START] [key=val...]"""
import sys, os, random, time, hashlib
sys.path.insert(0, os.path.dirname(__file__))
import hv, cgen, reduce
from diffrun import Diff
from concurrent.futures import ThreadPoolExecutor

def shrink(D, src, verdict, must=None):
    def keep(s):
        d = hv.newdir('r')
        try:
            open(d + '/q.c', 'w').write(s)
            if hv.sh(['clang-18', hv.WIN, '-fsyntax-only', '-fms-extensions', '-Wno-everything', '-Werror=return-type', '-Werror=uninitialized', '-Werror=gnu-empty-struct', '-Werror=excess-initializers', '-Werror=int-conversion', '-Werror=missing-declarations', d + '/q.c']).returncode: return False
            v, t = D.compare(s, d)
            return v == verdict and (must is None or must in str(t))
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    return reduce.reduce(src, keep)

if __name__ == '__main__':
    N = int(sys.argv[1]); S = int(sys.argv[2]) if len(sys.argv) > 2 else 0; kw = {}; nshrink = 3
    for a in sys.argv[3:]:
        k, v = a.split('=')
        if k == 'shrink': nshrink = int(v)
        else: kw[k] = eval(v)
    D = Diff(); c = {}; bad = []
    def one(s):
        d = hv.newdir(); src = cgen.Gen(random.Random(s), **kw).program(); v = D.compare(src, d); hv.shutil.rmtree(d); return v, src
    t = time.time()
    with ThreadPoolExecutor(8) as e:
        for s, (v, src) in zip(range(S, S + N), e.map(one, range(S, S + N))):
            c[v[0]] = c.get(v[0], 0) + 1
            if v[0] not in ('ok',): bad.append((s, v, src))
    print(c, round(time.time() - t, 1), [(s, v[0], str(v[1])[:60]) for s, v, _ in bad][:20], flush=True)
    os.makedirs('/tmp/cg', exist_ok=True)
    seen = set()
    for s, v, src in bad:
        k = (v[0], v[1].split('Error')[1][:40].split("'")[0] if 'Error' in str(v[1]) else str(v[1])[:25] if v[0] != 'diff' else s)
        if k in seen or len(seen) >= nshrink: continue
        seen.add(k); print('-----', s, v[0], str(v[1])[:500])
        if v[0] in ('diff', 'crash', 'reject'):
            must = v[1].split('Error')[1].split(':')[1][:18] if v[0] == 'reject' and 'Error' in v[1] else None
            q = shrink(D, src, v[0], must); open(f'/tmp/cg/{s}.c', 'w').write(q); print(q[len(cgen.PRELUDE) - 200 if q.startswith(cgen.PRELUDE) else 0:][:1500])
