"""Structured exception handling: random nestings of __try/__except run on Wine, every filter, handler and statement logs an event; the log is compared with a model of two-phase exception handling."""
import os, re, shutil
import hv, sehgen

IMPORTS = {'ntdll': ['__C_specific_handler'], 'kernel32': ['RaiseException', 'ExitProcess'], 'ucrtbase': ['__stdio_common_vfprintf', '__acrt_iob_func', '__stdio_common_vsprintf', 'fflush']}
PROBES = [('finally', '#include <stdio.h>\nint g;\nint main(){ __try { g = 1; } __finally { printf("fin\\n"); } return 0; }\n', 'fin\n', '__finally crashes the compiler'),
          ('filter-locals', '#include <stdio.h>\nint *null;\nint f(int a){ int l = a * 3; __try { *null = 1; } __except(l == 12){ return l; } return -1; }\nint main(){ printf("%d\\n", f(4)); return 0; }\n', '12\n', 'a filter does not see the locals of the function around it')]


def run(c):
    c.rule = 'one call of a generated function: the log of all statements, filters and handlers; distinct = log'
    c.assume = ['Wine implements the dispatching of exceptions of Windows', 'filters only use globals, calls and the exception intrinsics: __finally and the use of locals in a filter do not work at all in this compiler (known findings)']
    H = hv.Hlc(); base = c.rng.getrandbits(40); t = hv.newdir(); libs = []
    for dll, names in IMPORTS.items():
        open(f'{t}/{dll}.def', 'w').write(f'LIBRARY {dll}.dll\nEXPORTS\n' + ''.join(n + '\n' for n in names))
        hv.sh(['llvm-dlltool-18', '-m', 'i386:x86-64', '-d', f'{t}/{dll}.def', '-l', f'{t}/{dll}.lib']); libs.append(f'{t}/{dll}.lib')
    def split(r, g, calls):
        """the program as one file or with its functions spread over several"""
        s = g.text(calls); n = r.choice([1, 1, 2, 3])
        if n == 1: return {'a.c': s}
        head, body = s.split('int S(int id)', 1); body = 'int S(int id)' + body
        parts = re.split(r'(?m)^(?=int (?:f\d+|run|main|S)\()', body); parts = [p for p in parts if p]
        proto = 'int S(int id);\n' + ''.join(f'int f{f["k"]}(int p);\n' for f in g.funcs) + 'int run(int k, int n);\n'
        ext = re.sub(r'(?m)^int (F|C|I)\((.*?)\)\{.*$', r'int \1(\2);', head)
        files = {f'u{i}.c': (head if i == 0 else ext) + proto for i in range(n)}
        for i, p in enumerate(parts): files[f'u{r.randrange(n)}.c'] += p
        return files
    def one(seed):
        r = __import__('random').Random(seed); g = sehgen.Gen(seed, r.choice([3, 5, 5, 7])); calls = []; want = []; ev = dict(raised=0, filters=0, handled=0, resumed=0)
        for k in range(len(g.funcs)):
            for n in r.sample(range(-3, 30), 6):
                try: l = g.run(k, n)
                except sehgen.TooLong: c.count('calls_dropped'); continue
                calls.append((k, n)); want.append(f'{k} {n}:' + ''.join(f' {x}' for x in l))
                for x in ev: ev[x] += g.events[x]
        if not calls: return
        d = hv.newdir()
        try:
            files = split(r, g, calls); obj = r.random() < .35
            for n, s in files.items(): open(f'{d}/{n}', 'w').write(s)
            names = ' '.join(files); key = f'program-{seed}'
            if obj: cmd = f'{names} /c /out:o.obj'
            else: cmd = f'{names} /out:a.exe' + r.choice(['', ' /no_debug', ' /no_debug']) + r.choice(['', ' /thread_count 4'])  + r.choice(['', ' /image_base 0x7000000'])
            q = H(cmd, d)
            if q.crashed or q.code != 0: c.violation(key, f'hlc {cmd}: a correct program was not compiled\n{q.report}\n{(q.text or "")[-600:]}', files); return
            if obj:
                ok, tx = hv.lld(['/subsystem:console', '/entry:main', '/nodefaultlib', 'o.obj'] + libs + ['/out:a.exe', '/stack:1048576,1048576'], cwd=d)
                if not ok: c.violation(key, f'hlc {cmd}: the object was not linked: {tx[-600:]}', files); return
                c.count('objects_linked')
            w = hv.wine(d + '/a.exe')
            if w is None: c.inconclusive += 1; c.count('wine_failed'); return
            got = w[1].splitlines()
            for i, x in enumerate(want):
                c.case(x if len(x) < 200 else hash(x)); y = got[i].strip() if i < len(got) else '(nothing)'
                if x != y:
                    a, b = x.split(), y.split(); p = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                    c.violation(key, f'hlc {cmd}: f{calls[i][0]}({calls[i][1]}): event {p} should be {a[p:p+4]}, is {b[p:p+4]} after {a[max(0, p-6):p]}', files); return
            for x in ev: c.count('exceptions_' + x, ev[x])
            c.count('programs'); c.sample(dict(program=seed, events=ev, calls=len(calls)))
        finally: shutil.rmtree(d, ignore_errors=True)
    for key, s, want, what in PROBES:
        d = hv.newdir(); open(d + '/a.c', 'w').write(s); q = H('a.c /no_debug /out:a.exe', d); w = hv.wine(d + '/a.exe') if q.code == 0 and not q.crashed else None
        if not w or w != (0, want): c.violation(key, what, {'a.c': s})
        c.case(key); shutil.rmtree(d, ignore_errors=True)
    c.map(one, [base + i for i in range(c.n(1200, 20000))])
    shutil.rmtree(t, ignore_errors=True)
