"""Intrinsics and inline assembly: values of the intrinsic functions against clang, encodings against llvm-mc, blocks between live C values against clang's."""
import hashlib, os, random, re, shutil, subprocess
import hv, intrgen, asmgen, asmblk
from diffrun import Diff, describe, errors

FLAGS = ['-ffreestanding', '-mavx2', '-msse4.2', '-maes', '-mpopcnt', '-mlzcnt', '-mbmi', '-mfma']

MC, OD = 'llvm-mc-18' if shutil.which('llvm-mc-18') else 'llvm-mc', 'llvm-objdump-18'
_f = os.path.join(os.path.dirname(hv.__file__), 'asmforms.txt')
ACCEPTED = set(open(_f).read().split('\n')) if os.path.exists(_f) else set()
refused, good = [], []


def _llvm(t):
    p = t.split(' ', 2)
    if p[0] == 'prefetch': return ['prefetchnta', 'prefetcht0', 'prefetcht1', 'prefetcht2'][int(p[1][0])] + ' ' + p[2].replace(p[2].split(' ptr ')[0], 'byte')
    if p[0] in ('ldmxcsr', 'stmxcsr', 'clflush', 'cmpxchg16b', 'cmpxchg8b', 'lea') or p[1:2] == ['cmpxchg16b']: return re.sub(r'\w+ ptr ', '', t)
    return t


def _split(obj, n):
    """the disassembled instructions between the markers: per instruction (n given) or per function"""
    out = subprocess.run([OD, '-d', '--no-show-raw-insn', '-M', 'intel', obj], capture_output=True, text=True).stdout
    if n is not None:
        res = [[]]
        for m in re.finditer(r'^\s*[0-9a-f]+:\s*(.*)$', out, re.M):
            if re.match(r'int\s+0x77', m.group(1)): res.append([])
            else: res[-1].append(m.group(1))
        return [asmgen.seq(map(asmgen.norm, x)) for x in res[:n]] if len(res) > n else None
    res = {}; cur = None; on = False
    for l in out.splitlines():
        m = re.match(r'^[0-9a-f]+ <(\w+)>:', l)
        if m: cur = m.group(1); on = False; continue
        m = re.match(r'^\s*[0-9a-f]+:\s*(.*)$', l)
        if m and cur:
            if re.match(r'int\s+0x77', m.group(1)):
                on = not on
                if on: res.setdefault(cur, [])
                else: res[cur].append('END')
            elif on: res[cur].append(m.group(1))
    return {k: v[:-1] for k, v in res.items() if v and v[-1] == 'END'}


def run(c, dump=False):
    c.rule = 'a program of 6-16 intrinsic calls over operands of every kind, values logged; distinct = intrinsic function, operand shape'
    c.assume = ['clang 18 and its intrinsic headers implement the intrinsics correctly, llvm-mc 18 encodes and decodes correctly', 'a double NaN operand order is not compared']
    D = Diff(c, words=60000); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base * 31 + i); d = hv.newdir()
        src, keys = intrgen.values(r); key = 'intr-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src}
        try:
            for n in ('p', 'r'): open(f'{d}/{n}.c', 'w').write(src)
            ok, e = hv.clang_dll(f'{d}/r.c', f'{d}/ref.dll', FLAGS)
            if not ok: c.inconclusive += 1; c.count('reference_failed'); c.sample(e[:500]); return
            q = D.h('p.c /quiet /dll /no_debug /out:h.dll', d); fail = lambda w: c.violation(key, w + ' ' + ' '.join(keys), files)
            if q.code != 0: c.case(); fail(q.report + ' ' + errors(q.text)); return
            rr, ref = D.run(f'{d}/ref.dll', d, 'ref'); rh, got = D.run(f'{d}/h.dll', d, 'h')
            if rr.code != 0: c.inconclusive += 1; c.count('reference_failed'); c.sample('reference: ' + rr.report); return
            if rh.timeout: c.inconclusive += 1; c.count('timeout'); return
            c.case(tuple(keys[:3])); c.count('intrinsic_programs'); c.count('values_compared', len(ref.split()))
            for k in keys: c.case(('intrinsic', k), 0)
            if rh.code != 0 or got != ref: fail(describe(rh, got, ref)); return
            if i < 1: c.sample(f'{keys}')
        finally: shutil.rmtree(d, ignore_errors=True)
    def encode(i):
        r = random.Random(base * 67 + i); d = hv.newdir(); n = 240
        try:
            items = {}
            while len(items) < n:
                k, t = asmgen.inst(r); items.setdefault(t, k)
            L = list(items.items())
            # the assembler the instructions are compared with says which are legal
            for _ in range(4):
                open(f'{d}/m.s', 'w').write(''.join(f'{_llvm(t)}\nint 0x77\n' for t, k in L))
                p = subprocess.run([MC, '-triple=x86_64-windows', '-x86-asm-syntax=intel', '-filetype=obj', f'{d}/m.s', '-o', f'{d}/m.o'], capture_output=True, text=True)
                bad = {(int(x) - 1) // 2 for x in re.findall(r'm\.s:(\d+):\d+: error', p.stderr)}
                if not bad: break
                L = [x for j, x in enumerate(L) if j not in bad]
            if p.returncode or not L: c.inconclusive += 1; c.count('reference_failed'); return
            ref = _split(f'{d}/m.o', len(L)); key = lambda t: 'asm-' + re.sub(r'[^a-z0-9]+', '-', t)
            if ref is None: c.inconclusive += 1; c.count('reference_failed'); return
            todo = [(t, k, asmgen.norm(x)) for (t, k), x in zip(L, ref)]; c.count('legal_instructions', len(todo))
            for _ in range(40):
                src = ''.join(f'void f{j}(void){{ __asm__ {{ int 0x77 {t} int 0x77 }} }}\n' for j, (t, k, x) in enumerate(todo)); open(f'{d}/p.c', 'w').write(src)
                q = D.h('p.c /quiet /c /out:h.obj', d)
                if q.code == 0: break
                bad = {}
                for x, msg in re.findall(r'p\.c\((\d+),\d+\): (.*)', q.text):
                    if 'Warning' not in msg: bad.setdefault(int(x) - 1, msg)
                if not bad: c.case(); c.violation('asm-crash-' + hashlib.md5(src.encode()).hexdigest()[:10], q.report + ' ' + errors(q.text), {'p.c': src}); return
                for j, msg in bad.items():
                    t, k, x = todo[j]; c.case(('refused',) + k)
                    if 'Unimplemented instruction' not in msg and ('Error' not in msg or 'Internal' in msg): c.violation(key(t), f'{t}: {msg[:200]}', {'p.c': src.splitlines()[j]})
                    else:
                        c.count('instructions_refused')
                        if ' '.join(k) in ACCEPTED: c.violation(key(t), f'{t}: refused: {msg[:200]}', {'p.c': src.splitlines()[j]})
                        if dump: refused.append((k, t, msg[:100]))
                todo = [x for j, x in enumerate(todo) if j not in bad]
            else: c.inconclusive += 1; return
            got = _split(f'{d}/h.obj', None)
            for j, (t, k, want) in enumerate(todo):
                c.case(k); g = got.get(f'f{j}'); g = asmgen.seq(map(asmgen.norm, g)) if g is not None else 'nothing'
                if g != want: c.violation(key(t), f'{t}: encoded as "{g}", the reference as "{want}"', {'p.c': f'void f(void){{ __asm__ {{ {t} }} }}\n'})
                elif dump: good.append(k)
            c.count('instructions_compared', len(todo))
        finally: shutil.rmtree(d, ignore_errors=True)
    def block(i):
        r = random.Random(base * 91 + i); d = hv.newdir()
        src, ref_src, keys = asmblk.program(r); key = 'block-' + hashlib.md5(src.encode()).hexdigest()[:10]; files = {'p.c': src, 'reference.c': ref_src}
        try:
            open(f'{d}/p.c', 'w').write(src); open(f'{d}/r.c', 'w').write(ref_src)
            ok, e = hv.clang_dll(f'{d}/r.c', f'{d}/ref.dll', ['-fasm-blocks', '-fms-extensions'])
            if not ok: c.inconclusive += 1; c.count('reference_failed'); c.sample(e[:500]); return
            q = D.h('p.c /quiet /dll /no_debug /out:h.dll', d); fail = lambda w: c.violation(key, w, files)
            if q.code != 0: c.case(); fail(q.report + ' ' + errors(q.text)); return
            rr, ref = D.run(f'{d}/ref.dll', d, 'ref'); rh, got = D.run(f'{d}/h.dll', d, 'h')
            if rr.code != 0 or rh.timeout: c.inconclusive += 1; c.count('reference_failed'); c.sample('reference: ' + rr.report); return
            c.case(tuple(sorted(keys))); c.count('asm_block_programs'); c.count('values_compared', len(ref.split()))
            if rh.code != 0 or got != ref: fail(describe(rh, got, ref)); return
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(block, range(c.n(600, 12000)))
    c.map(encode, range(c.n(60, 1500)))
    c.map(one, range(c.n(800, 16000)))
