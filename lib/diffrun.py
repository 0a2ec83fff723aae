"""Differential execution of one C source: the compiler under test against clang for the same ABI, both run under the loader's monitors."""
import os, re
import hv


class Diff:
    def __init__(self, chk=None, variant='plain', words=4000, flags='/dll /no_debug /quiet', cref=()):
        self.h = hv.Hlc(variant); self.p = hv.Pool(); self.words = words; self.flags = flags; self.cref = list(cref); self.chk = chk
    def hlc(self, src, d, name='p', flags=None, opts=None):
        with open(f'{d}/{name}.c', 'w', encoding='latin1') as f: f.write(src)
        return self.h(f'{name}.c ' + (flags if flags is not None else self.flags), d, opts=opts, tag=name)
    def run(self, image, d, tag, **opts):
        o = dict(out=f'{d}/{tag}.res', words=self.words); o.update(opts)
        r = self.p.run('call', image, d, f'{d}/{tag}.txt', opts=o)
        try: res = open(f'{d}/{tag}.res', errors='replace').read()
        except OSError: res = ''
        return r, res
    def ref(self, src, d, name='c', flags=()):
        with open(f'{d}/{name}.c', 'w', encoding='latin1') as f: f.write(src)
        return hv.clang_dll(f'{d}/{name}.c', f'{d}/{name}.dll', self.cref + list(flags))
    def ub_free(self, src, d):
        """the reference build with every undefined-behaviour check trapping"""
        ok, t = self.ref(src, d, 'ub', ['-fsanitize=undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize=alignment,function,float-divide-by-zero', '-fsanitize-trap=all'])
        if not ok: return None
        r, _ = self.run(f'{d}/ub.dll', d, 'ub')
        return r.code == 0 and memory_clean([src], d) is not False
    def last_of(self, d):
        try: return open(d + '/p.res', errors='replace').read()
        except OSError: return ''
    def compare(self, src, d, opts=None, ref_src=None):
        """-> (verdict, detail): ok | reject | crash | diff | ref (reference could not judge) | ub"""
        r = self.hlc(src, d, opts=opts)
        if r.timeout: return 'hang', 'compiler: ' + r.report
        if r.crashed or r.code not in (0, 1): return 'crash', self.h.explain(r.report) + '\n' + (r.text or '')[-600:]
        if r.code != 0: 
            if 'ASSERT FIRED' in (r.text or ''): return 'crash', r.text[-600:]
            ok, t = self.ref(ref_src or src, d)
            return ('reject', errors(r.text)) if ok else ('ref', t[:300])
        if not os.path.exists(d + '/p.dll'): return 'crash', 'exit 0 but no output file\n' + (r.text or '')[:500]
        ok, t = self.ref(ref_src or src, d)
        if not ok: return 'ref', t[:600]
        rc, oc = self.run(f'{d}/c.dll', d, 'c')
        if rc.code != 0: return 'ref', rc.report
        rh, oh = self.run(f'{d}/p.dll', d, 'p')
        if rh.code == 0 and oh == oc: return 'ok', len(oh)
        if self.ub_free(ref_src or src, d) is not True: return 'ub', ''
        if rh.timeout: return 'hang', f'program: {rh.report}; the reference took {rc.cpu}'
        return 'diff', describe(rh, oh, oc)


def memory_clean(srcs, d):
    """False if the program, built natively with AddressSanitizer, makes an invalid access (then it has no specified behaviour); None if that build is not possible"""
    names = sorted({n for s in srcs for n in re.findall(r'\bu64 (t_\w+)\(u64 \*out', s)}); files = []
    if not names: return None
    for i, s in enumerate(srcs):
        files.append(f'{d}/asan{i}.c'); open(files[-1], 'w', encoding='latin1').write(s)
    m = 'typedef unsigned long long U; extern void *calloc(unsigned long, unsigned long);\n' + ''.join(f'U {n}(U *, U, U, U);\n' for n in names) + 'int main(void){ U s = 1, *b = calloc(8192, 8);\n' + ''.join(f's = s*6364136223846793005ull + 1442695040888963407ull; {n}(b, 4000, s ^ 0x5bd1e995, ~s);\n' for n in names) + 'return 0; }\n'
    files.append(f'{d}/asanm.c'); open(files[-1], 'w').write(m)
    r = hv.sh([hv.CLANG, '-O0', '-g0', '-fsanitize=address', '-fno-common', '-fwrapv', '-w', '-fms-extensions', '-fdeclspec', '-fno-builtin', '-std=gnu11', '-fshort-wchar', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types'] + files + ['-o', f'{d}/asan.exe'], timeout=120)
    if r.returncode: return None
    try: r = hv.sh([f'{d}/asan.exe'], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1'))
    except Exception: return None
    return not any(b in (r.stdout or b'') for b in (b'buffer-overflow', b'stack-use-after', b'buffer-underflow', b'heap-use-after'))


def describe(rh, oh, oc):
    if rh.code != 0: s = f'program compiled by hlc: {rh.report}\n'
    else: s = ''
    for a, b in zip(oh.split('\n') + ['<missing>'] * 50, oc.split('\n')):
        if a != b:
            A, B = a.split(' '), b.split(' ')
            for i, (x, y) in enumerate(zip(A + ['<end>'], B + ['<end>'])):
                if x != y: return s + f'{B[0]}: value {i}: got {x}, reference {y} (of {len(A)-1}/{len(B)-1})'
            return s + f'{A[0]} vs {B[0]}: lengths {len(A)} {len(B)}'
    return s


def errors(text):
    """the diagnostics that are not warnings"""
    return '\n'.join(l for l in (text or '').split('\n') if l.strip() and 'Warning' not in l)[:1500]
