"""Truthful outcome: every file operation of a build failed in turn, erroneous builds of all kinds, mutated programs; exit status, diagnostics and files must agree."""
import hashlib, os, random, re, shutil
import hv, mutgen, cgen
import pe, coff

INC = '#define K 7\nstruct S { int a; char b[K]; };\nint helper(struct S *s);\n'
MAIN = '#include "inc.h"\n#include "sub/deep.h"\nint helper(struct S *s){ return s->a + DEEP; }\n__declspec(dllexport) int api(int x){ struct S s = { x }; return helper(&s); }\n'
BIG = ''.join(f'struct T{i} {{ int m{i}_{j}; struct T{max(i - 1, 0)} *p; }};\nint fun{i}(struct T{i} *a, int b){{ int c = b * {i}; return c + a->m{i}_{j}; }}\n' for i in range(120) for j in [i % 7]) + 'struct T0 *keep(int i){ ' + ''.join(f'if(i == {i}) fun{i}(0, i); ' for i in range(120)) + 'return 0; }\n__declspec(dllexport) void *api2 = keep;\n'
F = {'p.c': MAIN, 'inc.h': INC, 'sub/deep.h': '#define DEEP 12\n', 'q.c': '#include "inc.h"\nint second(int x){ return x * K; }\nint third(void){ return second(2); }\n', 'big.c': BIG,
     'm.c': '#include "inc.h"\n#include <stdio.h>\nint main(int argc, char **argv){ printf("%d\\n", argc); return K; }\n', 'k.c': '#pragma comment(lib, "kernel32")\n__declspec(dllimport) void ExitProcess(unsigned);\nint main(){ ExitProcess(3); return 0; }\n', 'e.c': 'char data[] = {\n#embed "blob.bin"\n};\n__declspec(dllexport) int f(void){ return data[0] + sizeof data; }\n', 'blob.bin': 'some data\nof a file', 'rsp.txt': 'p.c q.c /dll /no_debug\n/out:o.dll', 'a/x.c': '#include <inc.h>\n__declspec(dllexport) int ax(struct S *s){ return s->a + K; }\n', 'a/y.c': '#include "y.h"\n__declspec(dllexport) int ay(void){ return Y; }\n', 'a/y.h': '#define Y 3\n', 'README.txt': 'a bystander', 'other.obj': 'bystander', 'p.lib': 'bystander'}
GOOD = [('p.c /dll /out:o.dll', ['o.dll', 'o.pdb']), ('p.c /dll /no_debug /out:o.dll', ['o.dll']), ('p.c q.c big.c /dll /out:o.dll', ['o.dll', 'o.pdb']), ('p.c /c /out:o.obj', ['o.obj']), ('p.c q.c big.c /c /out:o.obj', ['o.obj']), ('big.c /c /no_debug /out:o.obj', ['o.obj']),
        ('p.c /P /Fi o.i', ['o.i']), ('m.c /out:o.exe', ['o.exe', 'o.pdb']), ('k.c /no_debug /out:o.exe', ['o.exe']), ('k.c p.c /out:o.exe /thread_count 3', ['o.exe', 'o.pdb']), ('e.c /dll /out:o.dll', ['o.dll', 'o.pdb']), ('p.c /Zs', []), ('p.c /dll', ['p.dll', 'p.pdb']), ('p.c q.c /c', ['p.obj']), ('k.c', ['k.exe', 'k.pdb']), ('k.c /out:dir/', ['dir/k.exe', 'dir/k.pdb']), ('p.c /c /out:dir/', ['dir/p.obj']), ('big.c /dll /quiet /out:dir/z.dll', ['dir/z.dll', 'dir/z.pdb']),
        ('p.c /LD /Wall /Fo:o.dll', ['o.dll', 'o.pdb']), ('p.c /no_entry /out:o.dll', ['o.dll', 'o.pdb']), ('p.c /dll /warning_limit 0 /Wall /out:o.dll', ['o.dll', 'o.pdb']), ('p.c /EP', []), ('@rsp.txt', ['o.dll']), ('a/x.c a/y.c /dll /thread_count 2 /I . /out:o.dll', ['o.dll', 'o.pdb'])]
FAULTS = ['fail_create', 'fail_write', 'short_write', 'fail_open', 'fail_read', 'disk_full']

# (text of bad.c, what is wrong)
BAD = [('int f( {', 'syntax'), ('int x = y;', 'undeclared'), ('#error no\nint a;', '#error'), ('#include "nothere.h"\n', 'missing include'), ('#if 1\nint a;', 'unterminated #if'), ('char *s = "abc\n;', 'unterminated string'), ('/* never\nint a;', 'unterminated comment'), ('int f(void){ return g(); } int g2;', 'undeclared function'), ('struct Incomplete s;', 'incomplete'),
       ('int a = 1; int a = 2;', 'redefinition'), ('int f(void){ return 1; } int f(void){ return 2; }', 'function redefinition'), ('extern int und(void); __declspec(dllexport) int f(void){ return und(); }', 'undefined external'), ('#define A(x) x\nint b = A(1;\n', 'macro call'), ('int f(void){ goto l; }', 'label'), ('_Static_assert(0, "no");', 'static assert'), ('int f(void){ break; }', 'break'),
       ('char d[] = {\n#embed "nothere.bin"\n};', 'missing embed'), ('#pragma comment(lib, "nothere.lib")\nint und(void); __declspec(dllexport) int f(void){ return und(); }', 'missing library'), ('@ int a;', 'stray character'), ("int a = '", 'character'), ('int a[-1];', 'negative array'), ('int f(void){ __asm__ { nonsense rax } }', 'asm'), ('int f(int a){ switch(a){ case 1: case 1: ; } }', 'duplicate case')]
# what does not matter for an object or the syntax check
LINK = {'undefined external', 'missing library'}
BODY = {'undeclared', 'incomplete', 'undeclared function', 'label', 'break', 'asm', 'duplicate case', 'undefined external', 'missing library'}
CMD = ['', 'nothere.c', 'p.c nothere.c', 'dir', 'p.c /out', 'p.c /nosuchoption', 'p.c nothere.lib /dll', 'k.c /entry nothere', 'p.c /out:no/such/dir/o.exe /dll', 'p.c /c /out:no/such/dir/o.obj', 'p.c /P /Fi no/such/dir/o.i', 'p.c /P', 'q.c /out:o.exe', 'p.c /thread_count', 'p.c /dll /image_base zzz', 'p.c q.c q.c /dll /out:o.dll' if 0 else 'dup.c q.c /dll /out:o.dll', 'p.c /dll /l nothere', 'p.c /subsystem foo /dll', 'p.c /dll /out:dir', 'p.c /c /out:dir' if 0 else 'p.c /W nosuchwarning /dll']


def snap(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f); n = os.path.relpath(p, d)
            if not n.startswith('.'): out[n] = open(p, 'rb').read()
    return out


def near(a, b): return len(a) == len(b) and (a == b or sum(x != y for x, y in zip(a, b)) <= 48)


def run(c):
    c.rule = 'one compiler run with one failing file operation, one kind of error or one mutated program; distinct = command, fault and its position, kind of error'
    c.assume = ['an output counts as good when it equals the output of the undisturbed run (but for the random identifier)', 'which errors exist is judged by C25, here only that they are reported in the same way everywhere']
    H = hv.Hlc(); base = c.rng.getrandbits(48)
    def setup(extra={}):
        d = hv.newdir(); w = d + '/w'
        for n, t in {**F, **extra}.items():
            os.makedirs(os.path.dirname(f'{w}/{n}'), exist_ok=True); open(f'{w}/{n}', 'wb').write(t if isinstance(t, bytes) else t.encode('latin1'))
        os.makedirs(w + '/dir', exist_ok=True); return d, w
    def go(cmd, w, opts=None):
        return H(cmd, w, opts=dict(time=1700000000, **(opts or {})), tag='.log')
    def judge(key, what, q, before, after, outs, clean, fault=None, must_fail=False):
        """the rules every run has to follow"""
        files = {n: t for n, t in before.items() if n.endswith(('.c', '.h'))}; bad = lambda t: c.violation(key, f'{what}: {t}\n{q.report}\n{(q.text or "")[-500:]}', files)
        if q.timeout: bad('the compiler does not end'); return False
        if q.crashed or q.code is None or q.code < 0 or q.code > 127: bad('the compiler crashed'); return False
        err = 'rror' in re.sub(r'(?m)^Z:\S*/w/', '', q.text or '')
        for n in set(before) | set(after):
            if n in outs: continue
            if before.get(n) != after.get(n): bad(f'{n}, which is no output of this run, was ' + ('created' if n not in before else 'deleted' if n not in after else 'modified')); return False
        whole = lambda n: n in after and n in clean and near(after[n], clean[n])
        if q.code == 0:
            if must_fail: bad('exit status 0 for a build with an error'); return False
            if re.search(r'(?m)\bError\b', q.text or '') and '/EP' not in what: bad('exit status 0 after an error was reported'); return False
            for n in outs:
                if not whole(n): bad(f'exit status 0, but {n} ' + (f'is not complete ({len(after[n])} of {len(clean[n])} bytes)' if n in after and n in clean else 'is missing')); return False
        else:
            if not err: bad('exit status 1 without an error message'); return False
            touched = [n for n in outs if n in after and after[n] != before.get(n)]
            if (fault in ('fail_open', 'fail_read') or must_fail) and [n for n in touched if not n.endswith('.i')]: bad(f'a failed build wrote {touched}'); return False
            if outs and clean and all(whole(n) and n in touched for n in outs): bad('a failed build left complete outputs'); return False
        return True
    STALE = b'stale output of an earlier run\n' * 40000
    def faults(job):
        cmd, outs, fault, seed = job; r = random.Random(seed); d, w = setup()
        try:
            src = snap(w); q = go(cmd, w); clean = snap(w); key = f'{cmd.split(" /")[0]}-{fault}'.replace(' ', '+')
            if not judge(f'clean-{cmd}'.replace(' ', '+'), f'hlc {cmd}', q, src, clean, outs, clean): return
            if q.code != 0: c.violation(f'clean-{cmd}'.replace(' ', '+'), f'hlc {cmd}: a correct build failed\n{q.text[-400:]}', F); return
            c.case(('clean', cmd)); c.count('clean_builds')
            total = sum(len(clean[n]) for n in outs)
            ks = range(1, 400) if fault != 'disk_full' else sorted({r.randrange(1, total) for _ in range(12)} | {1, total - 1, max(1, total - 4095), len(clean[outs[0]]) + 1, len(clean[outs[0]]) - 1}) if outs else []
            done = 0; cap = 25 if c.quick else 400
            if fault in ('fail_open', 'fail_read', 'fail_write') and c.quick: # a sample of the positions
                n = int(q.stats.get({'fail_read': 'reads', 'fail_write': 'writes'}.get(fault, 'reads'), 40)); ks = sorted({1, 2, 3, max(1, n), max(1, n - 1)} | {r.randrange(1, n + 2) for _ in range(cap)})
            for k in ks:
                if fault == 'disk_full' and k >= total: continue
                for n in list(snap(w)):
                    if n not in src: os.remove(f'{w}/{n}')
                stale = r.random() < .4
                if stale:
                    for n in outs: open(f'{w}/{n}', 'wb').write(STALE)
                before = snap(w); q = go(cmd, w, {fault: k}); after = snap(w); hit = int(q.stats.get('faults', 0))
                if not hit and fault != 'disk_full': c.count('faults_not_reached'); break
                c.count('faults_injected' if hit else 'faults_without_effect'); c.case((cmd, fault, k) if hit else None)
                if not judge(f'{key}-{k}', f'hlc {cmd}, {fault} {k}{" over stale outputs" if stale else ""}', q, before, after, outs, clean, fault): break
                if hit and q.code == 0: c.count('faults_survived')
                done += 1
        finally: shutil.rmtree(d, ignore_errors=True)
    def bad(job):
        text, kind, cmd, outs, must = job; d, w = setup({'bad.c': text, 'dup.c': 'int second(int x){ return x; }\n__declspec(dllexport) int z(void){ return second(3); }\n'})
        try:
            r = random.Random(repr(job)); stale = r.random() < .6
            if stale:
                for n in outs: open(f'{w}/{n}', 'wb').write(STALE)
            before = snap(w); q = go(cmd, w); after = snap(w); c.case((kind, cmd)); c.count('erroneous_builds')
            if kind == 'cmd' and q.code == 0: outs2 = [n for n in after if n not in before or after[n] != before[n]]; c.count('odd_command_accepted'); judge(f'cmd-{cmd}'.replace(' ', '+'), f'hlc {cmd}', q, before, after, outs2, after); return
            judge(f'{kind}-{cmd}'.replace(' ', '+'), f'hlc {cmd} ({kind})', q, before, after, outs, {}, None, must)
        finally: shutil.rmtree(d, ignore_errors=True)
    corpus = mutgen.corpus()
    def mutant(i):
        """whatever the program is: status, messages and files agree"""
        r = random.Random(base * 47 + i); n, s = r.choice(corpus); s = mutgen.mutate(r, s, corpus) if r.random() < .8 else s
        if isinstance(s, tuple): s = s[0]
        flags, outs = r.choice([('/c /out:o.obj', ['o.obj']), ('/dll /out:o.dll', ['o.dll', 'o.pdb']), ('/out:o.exe', ['o.exe', 'o.pdb']), ('/dll /no_debug /out:o.dll', ['o.dll']), ('/Zs', []), ('/c /Wall /error_limit 1 /out:o.obj', ['o.obj']), ('/dll /thread_count 4 /out:o.dll', ['o.dll', 'o.pdb']), ('/P /Fi o.i', ['o.i']), ('/dll /Wnone /quiet /out:o.dll', ['o.dll', 'o.pdb'])])
        d, w = setup({'mut.c': s.encode('latin1', 'replace')})
        try:
            before = snap(w); q = go('mut.c ' + flags, w); after = snap(w); key = 'mutant-' + hashlib.md5(s.encode('latin1', 'replace')).hexdigest()[:8]
            if q.crashed or q.timeout or q.code not in (0, 1): c.inconclusive += 1; c.count('crash_left_to_C08'); return
            if '#pragma' in s and q.code == 0 and set(after) - set(before) - set(outs): pass
            c.case(('mutant', flags, q.code, hashlib.md5(s.encode('latin1', 'replace')).hexdigest()[:8])); c.count('mutants_accepted' if q.code == 0 else 'mutants_rejected')
            if not judge(key, f'hlc mut.c {flags}', q, before, after, outs, {n: after[n] for n in outs if n in after} if q.code == 0 else {}, None, False): return
            if q.code == 0:
                for n in outs:
                    b = after[n]
                    e = [] if n.endswith(('.i', '.pdb')) else pe.PE(b, dll=n.endswith('.dll')).E if n[-3:] in ('exe', 'dll') else []; e = [x for x in e if x != 'no sections']
                    if e or not b: c.violation(key, f'hlc mut.c {flags}: exit status 0, but {n} is damaged: {e[:2]}', {'mut.c': s}); return
            elif any(n in after for n in outs if n != 'o.i'): c.violation(key, f'hlc mut.c {flags}: a failed build wrote {[n for n in outs if n in after]}', {'mut.c': s})
        finally: shutil.rmtree(d, ignore_errors=True)
    jobs = [(cmd, outs, f, base + i * 7 + j) for i, (cmd, outs) in enumerate(GOOD) for j, f in enumerate(FAULTS) if outs or f in ('fail_open', 'fail_read')]
    c.map(faults, jobs)
    bj = []
    for t, k in BAD:
        for cmd, outs in (('bad.c /dll /out:o.dll', ['o.dll', 'o.pdb']), ('bad.c /c /out:o.obj', ['o.obj']), ('p.c bad.c /dll /quiet /thread_count 4 /out:o.dll', ['o.dll', 'o.pdb']), ('bad.c p.c q.c /c /Wnone /out:o.obj', ['o.obj']), ('bad.c /Zs', []), ('bad.c /dll', ['bad.dll', 'bad.pdb']), ('bad.c /dll /error_limit 1 /out:o.dll', ['o.dll', 'o.pdb']), ('bad.c /P /Fi o.i', ['o.i'])):
            if '/P' in cmd and k not in ('#error', 'missing include', 'unterminated #if', 'unterminated string', 'unterminated comment', 'macro call', 'character', 'missing embed'): continue
            if '/c' in cmd and k in LINK or '/Zs' in cmd and k in BODY: continue
            bj.append((t, k, cmd, outs, True))
    for cmd in CMD: bj.append(('', 'cmd', cmd, ['o.dll', 'o.pdb', 'o.exe', 'o.obj'], False))
    c.map(bad, bj); c.map(mutant, range(c.n(2000, 30000)))
