"""Robustness: hostile sources, includes, options and libraries against the instrumented compiler (edge coverage, address sanitizer, bounds/shift/division sanitizer, the assertions of the code under test, loader fault/deadlock/lock monitors)."""
import os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import hv, mutgen, cgen

FLAGS = ['/no_debug /out:o.exe', '/out:o.exe', '/c /out:o.obj', '/dll /out:o.dll', '/Zs', '/P /Fi:o.i', '/obj /no_debug /out:o.obj', '/no_stdlib /out:o.exe', '/dll /no_entry /out:o.dll']
OPT = ['/thread_count 0', '/thread_count 3', '/thread_count 99999999', '/seed 0', '/seed 18446744073709551615', '/seed 99999999999999999999999', '/error_limit 0', '/error_limit 1', '/warning_limit 0', '/image_base 0', '/image_base 0x10000', '/image_base 1', '/image_base 0xffffffffffff0000', '/image_base 0x7fffffff0000', '/entry main', '/entry nothere',
    '/subsystem windows', '/subsystem bogus', '/std c99', '/std bogus', '/D', '/DX', '/DX=', '/DX=1=2', '/D"X=\\"a\\""', '/D1', '/D=', '/I', '/I.', '/Inothere', '/LIBPATH nothere', '/l nothere', '/lx', '/Wall', '/W99999', '/Wno19', '/Wno', '/help', '/help out', '/?', '/quiet', '/EP', '/P', '/Fi:o.i', '/MF o.d', '/show_includes', '/incremental no', '/MD', '/MT', '/ignore x',
    '/link', '/link /out:o.exe', '/no_predefines', '/no_dynamic_base', '/dont_print_the_files', '/bogus', '-', '/', '--', '---x', '""', 'nothere.c', '*.c', '?.c', '[', 'a.txt', 't.c t.c', 'm.lib', '/out:', '/out:nodir/o.exe', '/out:t.c.exe', '/out:' + 'x' * 300 + '.exe', '/report_warnings_in_system_includes', '/no_discard', '/LD', '/MP', '@rsp']


def base_libs(d):
    """an import library and a static library to mutate"""
    open(d + '/l.c', 'w').write('__declspec(dllexport) int lf(int a){ return a + 1; } __declspec(dllexport) int lv = 3; __declspec(dllexport) double lg(double a){ return a * 2; } int ls(void){ static int k; return lf(k++); }')
    hv.clang_obj(d + '/l.c', d + '/l.obj'); hv.lld(['/dll', '/noentry', '/nodefaultlib', d + '/l.obj', f'/out:{d}/l.dll', f'/implib:{d}/imp.lib'])
    subprocess.run(['llvm-lib-18', f'/out:{d}/stat.lib', d + '/l.obj'], capture_output=True)
    return [open(f'{d}/{n}', 'rb').read() for n in ('imp.lib', 'stat.lib') if os.path.exists(f'{d}/{n}')]


def run(c):
    c.rule = 'one compilation of a hostile input; verdict from the loader report (fault, deadlock, leaked lock, sanitizer report), the exit code, the diagnostics and the output files; distinct = different inputs; the control-flow edges of the compiler reached are counted'
    c.assume = ['resource limits of the loader (cpu time) are confirmed on the uninstrumented build before a hang is reported']
    V = {}
    with ThreadPoolExecutor(4) as ex:
        for v, h in zip(('cov', 'asan', 'ubsan', 'plain'), ex.map(hv.Hlc, ('cov', 'asan', 'ubsan', 'plain'))): V[v] = h
    pool = mutgen.corpus(); base = c.rng.getrandbits(48); N = c.n(11000, 160000)
    ld = hv.newdir(); libs = base_libs(ld)
    def source(r):
        x = r.random()
        if x < .06: return mutgen.nest(r, 5000)
        if x < .09: src, k = mutgen.huge(r); return src, 'huge ' + k
        if x < .13: return cgen.Gen(r, stmts=6, ntests=3).program(), 'generated'
        if x < .2: src, k = cgen.Gen(r, stmts=6, ntests=3).program(), 'generated'
        else: src, k = r.choice(pool)[1], 'corpus'
        for _ in range(r.choice([1, 1, 2])): src, k2 = mutgen.mutate(r, src, pool)
        return src, k2
    def judge(q, h, d, args, v):
        t = q.text or ''
        if q.timeout:
            p = V['plain'](args, d, cpu=60, wall=180)
            if p.timeout: return 'hang', 'does not terminate ' + str(p.report)[:300]
            c.count('slow'); return None
        if 'ASSERT FIRED' in t:
            m = re.search(r"ASSERT FIRED: '(.*)' in function (\w+)", t); return f'assert {m.group(2)}: {m.group(1)}' if m else 'assert', re.search(r'.*ASSERT FIRED.*', t).group(0)
        if q.crashed:
            e = h.explain(q.report); m = re.search(r'@ (\S+)', e); return 'crash ' + (m.group(1) if m else e[:60]), e[:1500]
        if 'SANNOTE' in t:
            m = re.search(r'SANNOTE (\S+).*?rva=([0-9a-f]+)', t); s = h.sym(int(m.group(2), 16) - 1); w = s.split()[-1].split(':')
            try: line = open(w[0], encoding='latin1').read().split('\n')[int(w[1]) - 1]
            except Exception: line = ''
            if 'file_table' in line: return None             # entry -1 is the 'invalid file', placed before the table on purpose
            return f'ub {m.group(1)} {s.split()[0]}', f'{m.group(1)} {s}'
        if 'nternal compiler error' in t.lower() or 'nternal Compiler Error' in t:
            m = re.search(r'.*nternal [Cc]ompiler [Ee]rror.*?: (.*)', t); return 'ice ' + re.sub(r"'[^']*'|\d+", '_', m.group(1) if m else '')[:80], (m.group(0) if m else t)[:300]
        if q.code not in (0, 1, 2): return f'exit {q.code}', f'exit code {q.code}: {t[-300:]} {q.report}'
        if q.code and not re.search('error|warning|usage|expect|could not|does not|cannot|invalid|unknown|fail|unhandled', t, re.I): return 'silent failure', 'exit 1 without a diagnostic: ' + repr(t[-300:])
        if q.code == 0 and re.search(r'\): (Syntax e|E)rror', t): return 'error but exit 0', t[-300:]
        return None
    def one(i):
        r = random.Random(base * 1000003 + i); d = hv.newdir(); kind = r.random()
        try:
            v = 'cov' if r.random() < .55 else 'asan' if r.random() < .6 else 'ubsan'; h = V[v]; files = {}
            if kind < .80:
                src, k = source(r); files['t.c'] = src.encode('latin1', 'replace'); args = 't.c ' + r.choice(FLAGS) + ' /quiet'
                if r.random() < .25: args += f' /thread_count {r.choice([1, 2, 4])} /seed {r.randint(1, 99)}'
                if r.random() < .1: args += ' /Wall'
            elif kind < .86:                                   # through an include, two files
                src, k = source(r); files['h.h'] = src.encode('latin1', 'replace'); files['t.c'] = b'#include "h.h"\nint q1(void){ return 1; }\n'; files['u.c'] = b'#include "h.h"\nint q2(void){ return 2; }\n'; args = 't.c u.c ' + r.choice(FLAGS) + ' /quiet'; k = 'included ' + k
            elif kind < .92:                                   # options
                files['t.c'] = b'int x = sizeof(int);\nint main(void){ return x; }\n'; args = ' '.join(r.sample(OPT, r.choice([1, 1, 2, 3, 5])) + (['t.c'] if r.random() < .8 else [])); args = args if r.random() < .5 else args + ' ' + r.choice(FLAGS)
                files['m.lib'] = b'!<arch>\n'; k = 'options'; files['rsp'] = b't.c /out:o.exe'; files['a.txt'] = b'x'
                a = args.split(' '); r.shuffle(a); args = ' '.join(a)
            else:                                              # libraries
                b = bytearray(r.choice(libs)); k = 'library'
                for _ in range(r.choice([0, 1, 1, 2, 4, 16])):
                    x = r.random(); j = r.randrange(len(b))
                    if r.random() < .5: j = r.randrange(min(len(b), 300))
                    if x < .5: b[j] = r.choice([0, 255, 127, 128, r.randrange(256)])
                    elif x < .6: del b[j:]
                    elif x < .8: del b[j:j + r.choice([1, 4, 60])]
                    else: b[j:j] = bytes(r.randrange(256) for _ in range(r.choice([1, 4, 60])))
                    if not b: b = bytearray(b'!')
                files['m.lib'] = bytes(b); files['t.c'] = b'int lf(int); double lg(double); extern __declspec(dllimport) int lv; int ls(void);\nint main(void){ return lf(1) + (int)lg(2) + %s; }\n' % r.choice([b'lv', b'0', b'ls()'])
                args = 't.c m.lib /quiet ' + r.choice(['/out:o.exe', '/dll /out:o.dll', '/no_stdlib /no_debug /out:o.exe'])
            for n, b in files.items(): open(f'{d}/{n}', 'wb').write(b)
            q = h(args, d, cpu=20, wall=60); c.case((sorted(files.items()), args)); c.count('inputs ' + k.split()[0]); c.count('variant ' + v); c.count('rejected' if q.code in (1, 2) else 'accepted' if q.code == 0 else 'other')
            e = judge(q, h, d, args, v)
            if e:
                key = e[0] if e[0] not in ('hang', 'silent failure', 'error but exit 0') else f'{e[0]} {k}'
                c.violation(key, f'[{v}] hlc {args}: {e[1]}', dict({n: b.decode('latin1') for n, b in files.items()}, **{'cmd.txt': args}))
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(N))
    hit = V['cov'].pool.coverage(); c.count('compiler edges reached', hit[0]); c.count('compiler edges total', hit[1]); shutil.rmtree(ld, ignore_errors=True)
