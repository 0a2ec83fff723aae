"""Scheduling independence: the same inputs under many thread counts, seeds and perturbed schedules; byte-identical single-threaded repeats."""
import random, hashlib, os, re, glob
import ordgen, cgen, hv
from diffrun import Diff, describe, errors

FAULTS = ['i32 bad_@(void){ return undeclared_@; }', 'struct NoSuch_@ bad_@;', 'i32 dup_@; i64 dup_@;', 'i32 bad_@(i32 x){ return x.y; }', 'i32 bad_@(void){ return missing_@(3); }', 'enum EC_@ { EC_@_A = EC_@_B, EC_@_B = EC_@_A };',
    'struct R_@ { struct R_@ x; };', 'i32 bad_@[-1];', 'static_bad_@ x_@;', 'i32 bad_@(void){ i32 *p = 3.5; return *p; }', 'i32 bad_@(void){ goto nowhere_@; }', 'i32 bad_@(void){ switch(1){ case 1: case 1:; } return 0; }',
    'i32 bad_@(void){ break; return 1 }', 'i32 arr_@[sizeof(struct Unk_@)];', 'typedef T2_@ T1_@; typedef T1_@ T2_@;', '_Static_assert(sizeof(i64) == 4, "no_@");', 'i32 redef_@(void){ return 1; } i32 redef_@(void){ return 2; }', '#error bad_@', '#include "missing_@.h"']
WARNS = ['i32 w_@(void){ i32 unused_@ = 3; return 0; }', 'i32 w_@(u8 *p){ i32 *q = p; return *q; }', 'i32 w_@(i32 x){ u8 b = 300; return b; }', 'static i32 unused_f_@(void){ return 3; }', 'i32 w_@(u32 a, i32 b){ return a < b; }']


def diags(t):
    """the diagnostics as a set (the order of independent ones is not specified): file(line) and message"""
    out = []
    for l in (t or '').split('\n'):
        l = l.strip()
        if re.match(r'.*\(\d+,?\d*\)\s*:?\s*(Error|Warning|error|warning)', l) or re.search(r'\b([Ee]rror|[Ww]arning)\b', l): out.append(re.sub(r'\[-?\d+\] ', '', l))
    # which of two conflicting declarations comes first is not fixed: both ends are kept, their roles are not
    out = [re.sub(r"(: Error( at '[^']*')?: ).*([Pp]revious|Redeclaration|Redefinition).*", r'\1conflicting declarations', l) for l in out]
    return sorted(out)


def run(c):
    c.rule = 'one compilation under one schedule (thread count, /seed, perturbation seed) compared with the single-threaded run of the same inputs; distinct = event-order hashes observed'
    c.assume = ['the loader reports the order of synchronisation events; its clock is fixed, so single-threaded repeats must agree in every byte']
    D = Diff(c); H = hv.Hlc('cov'); base = c.rng.getrandbits(48); nsch = 5 if c.quick else 16
    def sched(r):
        n = r.choice([2, 2, 3, 4, 4, 6, 8, 16]); o = {'perturb': r.randint(1, 1 << 30), 'rate': r.choice([0, 5, 20, 60, 200]), 'hot': r.choice([0, 0, 0, 5000, 20000, 40000]), 'hotmod': r.choice([2, 3, 4, 5])}
        if r.random() < .25: o['cpus'] = r.choice([1, 2]); n = min(n, o['cpus'] * 9)
        if r.random() < .15: n = 1
        return n, r.randint(1, 1 << 20), o
    def prog(i, r):
        m = i % 4
        if i % 10 == 9: return 'tables', ordgen.tables(r)
        if i % 10 == 4: return 'ladder', ordgen.ladder(r)
        if m == 0: P = ordgen.Prog(r); fs = P.files(r, extra_proto=True); kind = 'files'
        elif m == 1: P = ordgen.Prog(r); fs = P.files(r, header=True); kind = 'header'
        elif m == 2: fs = {'p0.c': cgen.Gen(r, stmts=12, ntests=r.randint(6, 14)).program()}; kind = 'functions'
        else:
            P = ordgen.Prog(r); fs = P.files(r, extra_proto=True); kind = 'errors' if r.random() < .75 else 'warnings'
            nf = r.choice([1, 1, 1, 2, 3, 6]); kind += '' if nf == 1 else '-many'
            for k in range(nf):
                n = r.choice(sorted(fs)); L = fs[n].split('\n'); L.insert(r.randint(3, len(L)), r.choice(FAULTS if kind.startswith('errors') else WARNS).replace('@', str(k))); fs[n] = '\n'.join(L)
        return kind, fs
    def one(i):
        r = random.Random(base + i); kind, fs = prog(i, r); d = hv.newdir()
        try:
            for n, b in fs.items(): open(f'{d}/{n}', 'w', encoding='latin1').write(b)
            names = sorted(n for n in fs if n.endswith('.c')); key = f'{kind}-{i}-{hashlib.md5(repr(sorted(fs.items())).encode()).hexdigest()[:10]}'
            dbg = r.random() < .4; ext = r.choice(['/dll', '/dll', '/obj']); flags = f'/error_limit 10000 /warning_limit 10000 {ext} {"" if dbg else "/no_debug"} /quiet'; o = 'obj' if ext == '/obj' else 'dll'
            def comp(tag, extra, opts=None, h=H):
                for x in os.listdir(d):
                    if x.startswith(tag + '.') : os.unlink(f'{d}/{x}')
                q = h(f'{" ".join(names)} {flags} /out:{tag}.{o} {extra}', d, opts=opts, tag=tag)
                if q.timeout or q.crashed or q.code not in (0, 1) or 'ASSERT FIRED' in (q.text or ''): c.violation(key, f'{kind}: {extra} {opts}: {H.explain(q.report)}\n{(q.text or "")[-400:]}', dict(fs, **{'cmd.txt': f'{names} {flags} {extra} {opts}'})); return None
                return q
            def behave(tag):
                if not os.path.exists(f'{d}/{tag}.{o}'): return None
                if o == 'obj':
                    ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib', f'{d}/{tag}.obj'] + hv.support_obj() + [f'/out:{d}/{tag}.dll'])
                    if not ok: return 'link: ' + t[:300]
                rr, oo = D.run(f'{d}/{tag}.dll', d, tag); return (rr.report if rr.code != 0 else 'ran') + '\n' + '\n'.join(sorted(oo.split('\n')))
            a = comp('a', '/thread_count 1 /seed 5')
            if a is None: c.case(); return
            want = (a.code, diags(a.text), behave('a') if a.code == 0 else None)
            # single-threaded repeat: the same bytes
            os.makedirs(d + '/r1'); 
            for x in os.listdir(d):
                if x.startswith('a.') and x.endswith(('.dll', '.obj', '.pdb', '.lib')): os.rename(f'{d}/{x}', f'{d}/r1/{x}')
            b = comp('a', '/thread_count 1 /seed 5')
            if b is None: c.case(); return
            def guid(f):
                b = open(f, 'rb').read() if os.path.exists(f) else b''; k = b.find(b'RSDS'); return b[k + 4:k + 20] if k >= 0 else None
            gs = [g for g in (guid(d + '/r1/a.dll'), guid(d + '/a.dll')) if g]
            def unguid(b):
                for g in gs: b = b.replace(g, b'\0' * 16)      # every image gets a fresh identity by design
                return b
            for x in sorted(os.listdir(d + '/r1')):
                p, q = open(f'{d}/r1/{x}', 'rb').read(), (open(f'{d}/{x}', 'rb').read() if os.path.exists(f'{d}/{x}') else b'')
                if x.endswith(('.dll', '.lib')) and o == 'obj': continue
                p, q = unguid(p), unguid(q)
                c.count('repeat_files')
                if p != q: c.violation(key + '-bytes', f'{kind}: single-threaded repeat differs in {x} at {next((k for k in range(min(len(p), len(q))) if p[k] != q[k]), min(len(p), len(q)))} of {len(p)}/{len(q)}', fs)
            if (b.code, diags(b.text)) != want[:2]: c.violation(key + '-bytes', f'{kind}: single-threaded repeat reports differently', fs)
            for s in range(nsch):
                n, seed, op = sched(r); ex = f'/thread_count {n} /seed {seed}'; q = comp('b', ex, op)
                if q is None: c.case(); continue
                got = (q.code, diags(q.text), behave('b') if q.code == 0 else None); c.case((q.stats['order'],)); c.count('schedules'); c.count('schedules_' + kind); c.count('perturbations', int(q.stats['perturbs'])); c.count('waits', int(q.stats['waits'])); c.count('threads', int(q.stats['threads']))
                what = None
                if got[0] != want[0]: what = f'exit code {got[0]}, single-threaded {want[0]}\n{errors(q.text)}\n--\n{errors(a.text)}'
                elif got[1] != want[1] and kind != 'errors-many': what = 'diagnostics differ:\n' + '\n'.join('+ ' + x for x in got[1] if x not in want[1])[:500] + '\n' + '\n'.join('- ' + x for x in want[1] if x not in got[1])[:500]
                elif got[0] and not got[1]: what = 'failed without a diagnostic'
                elif got[2] != want[2]: what = 'behaviour differs: ' + str(got[2])[:200]
                if what: c.violation(key + '-sched', f'{kind}: {ex} {op}: {what}', dict(fs, **{'cmd.txt': f'{" ".join(names)} {flags} {ex} {op}'})); break
            if i < 4: c.sample(f'{kind}: {" ".join(names)} {flags}: {want[0]} {want[1][:2]}')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(320, 6000)))
    e, n = H.pool.coverage(); c.count('edges_hit', e); c.count('edges', n)
