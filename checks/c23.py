"""Printlike functions: the recorded call of every printlike function, rendered, against the text computed from the values."""
import hashlib, os, random, re, shutil
import hv, printgen
from diffrun import Diff, describe, errors

E2E = r'''#include <hlc/print.h>
#include <stdio.h>
#include <stdarg.h>
typedef unsigned long long u64; typedef long long s64;
static u64 *O; static u64 N; static int cnt;
__declspec(printlike) int logf(int level, char *format, ...){ va_list va; int r; printf("<%d>", level); va_start(va, format); r = vprintf(format, va); va_end(va); return r; }
'''
ARR = re.compile(r'\([^(){}]*(?:\((?:\[\d*\]|\*)*\)[^(){}]*)*\)\{')
REC = re.compile(r'\((struct|union) \w*\)\{')

STAR = r'''struct v2 { int x; int y; int z; };
__declspec(dllexport) u64 t_0(u64 *out, u64 n_, u64 q_, u64 w_){ struct v2 v; v.x = 1; v.y = 2; v.z = 3; O = out; N = 1;
  print("{:*}", 5, v); out[0] = N - 1; return N - 1; }
'''


def same(got, exp):
    if '(array)' in exp: got = ARR.sub('(array){', got); exp = REC.sub('(array){', exp)
    return got == exp, got, exp


def near(got, exp):
    i = next((k for k, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp))); a = max(0, i - 40)
    return f'printed {got[a:i + 60]!r}, the values are {exp[a:i + 60]!r}'


def run(c):
    c.rule = 'one call of a printlike function; distinct = feature set of the program, text of the call'
    c.assume = ['the head an array argument prints (its type) is not judged, the elements are', 'floating point conversion of C printf']
    D = Diff(c, words=60000); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base * 37 + i); d = hv.newdir(); src, exp, keys = printgen.program(r)
        key = 'print-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src}
        try:
            open(f'{d}/p.c', 'w').write(src)
            q = D.h('p.c /quiet /dll /no_debug /out:h.dll', d)
            if q.code != 0: c.case(); c.violation(key, q.report + ' ' + errors(q.text), files); return
            rh, got = D.run(f'{d}/h.dll', d, 'h')
            if rh.timeout: c.inconclusive += 1; c.count('timeout'); return
            if rh.code != 0: c.case(); c.violation(key, describe(rh, got, ''), files); return
            w = printgen.Words([int(x, 16) for x in got.split()[2:]])
            c.count('programs')
            for k, (lev, e) in enumerate(exp):
                try: t = printgen.rendered(w, lev)
                except Exception as x: t = f'<the recorded arguments do not fit the format: {x!r}>'
                ok, t, e = same(t, e); c.case((tuple(sorted(keys)), e)); c.count('calls'); c.count('characters_compared', len(e))
                if not ok: c.violation(key, f'call {k}: ' + near(t, e), files); return
            if w.i != len(w.l): c.violation(key, f'{len(w.l) - w.i} more values recorded than the calls have', files)
        finally: shutil.rmtree(d, ignore_errors=True)
    def e2e(i):
        r = random.Random(base * 41 + i); d = hv.newdir(); parts = []; exp = []
        src, exp, keys = printgen.program(r, True); src = E2E + src[len(printgen.HEAD):]
        src += 'int main(){ static u64 o[16]; t_0(o, 0, 0, 0); return 43; }\n'
        key = 'e2e-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src}
        try:
            open(f'{d}/p.c', 'w').write(src)
            q = D.h('p.c /quiet /no_debug /out:p.exe', d)
            if q.code != 0: c.case(); c.violation(key, q.report + ' ' + errors(q.text), files); return
            p = hv.wine(f'{d}/p.exe', cwd=d)
            if p is None: c.inconclusive += 1; c.count('wine_unavailable'); return
            c.count('wine_programs'); c.count('wine_calls', len(exp))
            ok, t, e = same(p[1], ''.join(e for _, e in exp).replace('\r\n', '\n')); c.case(('e2e', e))
            if p[0] != 43: c.violation(key, f'the program ended with {p[0]} after printing {p[1][-80:]!r}', files)
            elif not ok: c.violation(key, near(t, e), files)
        finally: shutil.rmtree(d, ignore_errors=True)
    d = hv.newdir(); open(f'{d}/p.c', 'w').write(printgen.HEAD + STAR)
    q = D.h('p.c /quiet /dll /no_debug /out:h.dll', d); c.case('star-width-compound')
    if q.code == 0:
        rh, got = D.run(f'{d}/h.dll', d, 'h'); t = ''
        try: t = printgen.rendered(printgen.Words([int(x, 16) for x in got.split()[2:]]), 0)
        except Exception as x: t = repr(x)
        nums = re.findall(r'\{\.x = (.*?), \.y = (.*?), \.z = (.*?)\}', t)
        if rh.code or not nums or [x.strip() for x in nums[0]] != ['1', '2', '3']: c.violation('star-width-compound', f'print("{{:*}}", 5, (struct v2){{1, 2, 3}}) printed {t[:200]!r}', {'p.c': printgen.HEAD + STAR})
    shutil.rmtree(d, ignore_errors=True)
    def formats(i):
        r = random.Random(base * 43 + i); d = hv.newdir(); one = r.random() < .3; src, bad, good = printgen.formats(r, 1, True) if one else printgen.formats(r); key = 'format-' + hashlib.md5(src.encode()).hexdigest()[:10]
        try:
            q = D.hlc(src, d, flags='/dll /no_debug /out:h.dll'); lines = src.split('\n')
            if q.crashed or q.code not in (0, 1): c.case(); c.violation(key, q.report, {'p.c': src}); return
            if q.code != one: c.violation(key, f'exit status {q.code}, ' + ('the number of arguments is wrong' if one else 'format warnings are no errors') + errors(q.text)[:300], {'p.c': src})
            said = {}
            for m in re.finditer(r'p\.c\((\d+),\d+\): (Warning|Error|Syntax error)[^:]*:? ?(.*)', q.text): said.setdefault(int(m[1]), m[0])
            for l in sorted(bad | good):
                c.case(('format', re.sub(r'[\d ]', '', lines[l - 1]))); c.count('format_calls')
                if l in bad and l not in said: c.violation(f'{key}-{l}', f'a wrong argument was not diagnosed: {lines[l - 1]}', {'p.c': src}); return
                if l in good and l in said: c.violation(f'{key}-{l}', f'correct arguments were diagnosed: {lines[l - 1]}: {said[l]}', {'p.c': src}); return
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(formats, range(c.n(90, 3000)))
    n = c.n(700, 20000); c.map(one, range(n)); c.map(e2e, range(c.n(40, 400)), 4)
