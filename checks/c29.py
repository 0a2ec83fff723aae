"""The runtime library: random calls of the supplied memory and string functions and scripts of setjmp/longjmp against the results C11 prescribes; header constants against clang's."""
import hashlib, random
import hv, rtgen
from diffrun import Diff, errors
from progs import judge


def run(c):
    c.rule = 'a program of 60 library calls, or a script of nested setjmp and longjmp, whose log is the one computed by the model; one header constant or type; distinct = (function, situation) pairs and constants'
    c.assume = ['the expected results are computed from the definitions of C11 7.24 and 7.13 in lib/rtgen.py', 'clang -ffreestanding provides the reference values of limits.h, stdint.h, stdbool.h and iso646.h']
    D = Diff(c, words=20000); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base + i); name = ('jumps', 'strings', 'jumps', 'strings', 'helpers')[i % 5]; s, want, keys = getattr(rtgen, name)(r); d = hv.newdir(); key = f'{name}-{i}-{hashlib.md5(s.encode()).hexdigest()[:10]}'
        try:
            h = D.hlc(s, d, flags='/dll /quiet' + r.choice([' /no_debug', '']))
            if h.crashed or h.code != 0: c.case(); c.violation(key, f'not compiled: {h.report} {errors(h.text)[:400]}', {'p.c': s}); return
            rr, out = D.run(f'{d}/p.dll', d, 'p'); w = out.split()
            if rr.code != 0: c.case(); c.violation(key, f'{rr.report}', {'p.c': s}); return
            got = [int(x, 16) for x in w[2:]]
            if got != want:
                k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                c.case(); c.violation(key, f'value {k}: got {got[k:k+1]}, expected {want[k:k+1]} (of {len(got)}/{len(want)})', {'p.c': s}); return
            c.case(name); c.count('programs_' + name); c.count('values_compared', len(want))
            for k in keys: c.case((name, k), 0)
            if i < 2: c.sample(f'{key}: {len(want)} values; {keys}')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(1000, 25000)))
    H = Diff(c, words=20000, cref=('-ffreestanding', '-fms-extensions'))
    P = 'typedef unsigned long long u64;\n#define LOG(x) (out[++out[0]] = (u64)(x))\n#define EXPORT __declspec(dllexport)\n'
    def head(x):
        h, e = x; t = h == 'types'; inc = 'stdint.h' if t else h
        s = f'#include <{inc}>\n' + P + 'EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; ' + (f'LOG(sizeof({e})); LOG(({e})-1 < 0); LOG(({e})-1);' if t else f'LOG({e}); LOG(sizeof({e})); LOG(-({e}) < 0); LOG(({e}) - 1 < 0);') + ' return out[0]; }\n'
        if not t and h in ('limits.h', 'stdint.h') and '(' not in e: s += f'#if {e} > 100\nint big;\n#else\nextern int big;\n#endif\n'
        judge(c, H, f'{h} {e}', s, (h, e)); c.count('header_constants')
    c.map(head, [(h, e) for h, l in rtgen.CONST.items() for e in l] + [('types', t) for t in rtgen.TYPES])
    # each header of the helper library compiles alone
    d = hv.newdir()
    for h, b in (('string', 'struct string a = {"ab", 2}; return string_match(a, a) + 4;'), ('memory_arena', 'struct memory_arena a = {0}; int *q = push_array(&a, int, 5); return q[4] + 5;'), ('simple_file', 'struct string f = load_file("missing"); return (f.data == 0) + 4;')):
        s = f'#include <hlc/{h}.h>\nint main(){{ {b} }}\n'; open(f'{d}/{h}.c', 'w').write(s); q = D.h(f'{h}.c /quiet /no_debug /out:{h}.exe', d); c.case(('alone', h))
        if q.code != 0: c.violation('helper-header-alone', f'hlc/{h}.h: {q.report} {errors(q.text)}', {'p.c': s}); continue
        p = hv.wine(f'{d}/{h}.exe', cwd=d)
        if p is None: c.inconclusive += 1; c.count('wine_unavailable')
        elif p[0] != 5: c.violation('helper-header-alone', f'hlc/{h}.h: exit {p[0]}, expected 5', {'p.c': s})
        else: c.count('headers_alone')
    hv.shutil.rmtree(d, ignore_errors=True)
    # load_file, with the C runtime under Wine
    d = hv.newdir(); r = random.Random(base); data = [b'', b'x', bytes(r.randrange(256) for _ in range(5000)), b'a\r\nb\x1a\nc\r', bytes(70000), bytes(r.randrange(256) for _ in range(300001)), None]
    for i, b in enumerate(data):
        if b is not None: open(f'{d}/f{i}.bin', 'wb').write(b)
    s = '#include <hlc/simple_file.h>\n#include <stdio.h>\nint main(){ char name[8] = "f0.bin"; for(int i = 0; i < %d; i++){ name[1] = (char)(48 + i); struct string s = load_file(name); unsigned h = 7; for(u64 k = 0; k < s.size; k++) h = h * 31 + (unsigned char)s.data[k]; printf("%%d %%llu %%u\\n", s.data != 0, s.size, h); } return 9; }\n' % len(data)
    open(f'{d}/p.c', 'w').write(s); q = D.h('p.c /quiet /no_debug /out:p.exe', d)
    if q.code != 0: c.case(); c.violation('load-file', q.report + ' ' + errors(q.text), {'p.c': s})
    else:
        p = hv.wine(f'{d}/p.exe', cwd=d)
        if p is None: c.inconclusive += 1; c.count('wine_unavailable')
        else:
            want = []
            for b in data:
                h = 7
                for x in b or b'': h = (h * 31 + x) & 0xffffffff
                want.append(f'{int(b is not None)} {len(b or b"")} {h}')
            got = [x.strip() for x in p[1].split('\n') if x.strip()]
            for i, w in enumerate(want): c.case(('load_file', i)); c.count('files_loaded')
            if p[0] != 9 or got != want: c.violation('load-file', f'exit {p[0]}: {got}, expected {want}', {'p.c': s})
    hv.shutil.rmtree(d, ignore_errors=True)
