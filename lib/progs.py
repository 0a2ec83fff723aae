"""Running generated programs through Diff and turning verdicts into check results."""
import random, hashlib, time
import hv


def judge(c, D, key, src, cover=None, opts=None, ref=None):
    """compile and run one program with hlc and with the reference; report a violation when they disagree"""
    d = hv.newdir()
    try:
        v, t = D.compare(src, d, opts=opts, ref_src=ref)
        if v == 'ok':
            c.case(cover if cover is not None else hashlib.md5(src.encode('latin1', 'replace')).hexdigest()); c.count('programs')
            c.count('values_compared', sum(max(0, len(l.split(' ')) - 1) for l in D.last_of(d).split('\n')))
        elif v in ('diff', 'crash', 'reject', 'hang'):
            c.case(cover); c.violation(key, f'{v}: {t}', {'p.c': src, 'ref.c': ref or src})
        else:
            c.inconclusive += 1; c.count('inconclusive_' + v)
        return v, t
    finally: hv.shutil.rmtree(d, ignore_errors=True)


def batch(c, D, name, n, gen, budget=None, cover=None):
    """n programs gen(rng, i) -> source or (source, keys); keys are what the case covered"""
    base = c.rng.getrandbits(48); t0 = time.time()
    def one(i):
        if budget and time.time() - t0 > budget: c.count('skipped_for_time'); return
        r = random.Random(base + i); s = gen(r, i); keys = ref = None
        if isinstance(s, tuple): s, keys, ref = (s + (None,))[:3]
        v, t = judge(c, D, f'{name}-{i}-{hashlib.md5(s.encode("latin1", "replace")).hexdigest()[:10]}', s, keys and tuple(keys) or None, ref=ref)
        if i < 2: c.sample(f'{name} case {i}: {v}\n{s[-700:]}')
        c.count(name + '_' + v)
        if v == 'ok' and keys:
            for k in keys: c.case(k, 0)
    c.map(one, range(n))
