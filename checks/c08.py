"""Preprocessor: token sequences of random macro programs, hlc against clang and gcc."""
import random, re, subprocess, hashlib, os
import ppgen, hv
from diffrun import Diff

CL = ['clang-18', '-std=c11', '-Wno-everything']
GC = ['gcc', '-std=c11', '-w']
KNOWN = {
    'splice-in-token': 'in\\\nt a; i\\\nf x +\\\n+ y 1\\\n2\n',
    'pragma-operator': '_Pragma("pack(1)") int x;\n',
    'hash-in-object-macro': '#define A # x\nint a;\n',
}


NUM = re.compile(r'(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)[A-Za-z_0-9]*$|([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))([eE][+-]?[0-9]+)?[A-Za-z_0-9]*$')


def odd_number(t):
    """a preprocessing number which is no number: accepted by the standard as long as it is not converted, split by hlc"""
    return (t[0].isdigit() or t[0] == '.' and t[1:2].isdigit()) and not NUM.match(t)


def refs(d, name, ccs=(CL, GC)):
    out = []
    for cc in ccs:
        r = subprocess.run(cc + ['-E', '-P', '-I.', '-undef', '-nostdinc', name], cwd=d, capture_output=True)
        if r.returncode: return None
        out.append([ppgen.norm(x) for x in ppgen.tokens(r.stdout.decode('latin1'))])
    return out


def first_diff(t, a):
    for i, (x, y) in enumerate(zip(t + ['<end>'], a + ['<end>'])):
        if x != y: return f'token {i}: got {" ".join(t[max(0, i - 4):i + 5])}   expected {" ".join(a[max(0, i - 4):i + 5])}'
    return None


def run(c):
    c.rule = 'a random macro program (or a set of #if expressions probed bit by bit, or a program logging stringized expansions) whose preprocessed tokens equal those of both references; distinct = preprocessor features (macro kinds, ##, #, variadics, conditionals, includes, splices, comments, CRLF) of agreeing programs'
    c.assume = ['clang and gcc agree: a program on which the two differ is unspecified and not judged', 'no splice inside a token, no _Pragma, no # in an object-like macro (the known findings), no preprocessing number that is not a number, no invocation that continues after the end of a header, no #line, digraphs or __VA_OPT__']
    H = hv.Hlc(); D = Diff(c); base = c.rng.getrandbits(48)
    def hlc(d, name, args, out):
        r = H(f'{name} {args} /quiet /I. /no_stdlib', d)
        if r.crashed or r.timeout or r.code != 0: return None, r.text[:600]
        t = open(f'{d}/{out}', encoding='latin1', newline='').read() if out else re.sub(r'(?m)Z:\S*p\.c\s*$|^Z:.*: Warning .*$', '\n', r.text)  # the name of the file and warnings are printed, too
        return [ppgen.norm(x) for x in ppgen.tokens(t)], t
    def files(d, src, fs):
        for n, b in list(fs.items()) + [('p.c', src)]: open(f'{d}/{n}', 'w', newline='', encoding='latin1').write(b)
    def pick(seed, make):
        for k in range(6):
            r = random.Random(seed * 8 + k); src, fs, keys = make(r); d = hv.newdir(); files(d, src, fs); rs = refs(d, 'p.c')
            if rs and rs[0] == rs[1] and not any(map(odd_number, rs[0])): return d, src, fs, keys, rs[0]
            c.count('rejected_by_reference' if not rs else 'references_differ'); hv.shutil.rmtree(d, ignore_errors=True)
        return None
    def verdict(key, d, src, fs, keys, got, text, want, name):
        if got is None: c.case(); c.violation(key, f'{name}: hlc failed on a valid program\n{text}', dict(fs, **{'p.c': src}))
        elif got != want: c.case(); c.violation(key, f'{name}: {first_diff(got, want)}', dict(fs, **{'p.c': src}))
        else:
            c.case(tuple(keys)); c.count('programs'); c.count('tokens_compared', len(want))
            for k in keys: c.case(k, 0)
    def one(i):
        p = pick(base + i, ppgen.source)
        if not p: c.inconclusive += 1; return
        d, src, fs, keys, want = p; key = f'pp-{i}-{hashlib.md5(src.encode("latin1")).hexdigest()[:10]}'
        try:
            got, text = hlc(d, 'p.c', '/P /Fi:p.i', 'p.i'); verdict(key, d, src, fs, keys, got, text, want, '/P')
            if i < 2: c.sample(f'case {i}: {len(want)} tokens\n{src[-600:]}')
            if got is None or got != want: return
            if i % 4 == 0:
                got, text = hlc(d, 'p.c', '/EP', None); verdict(key + '-EP', d, src, fs, ['/EP'] + keys, got, text, want, '/EP')
            if i % 4 == 1 and '#' not in want:
                os.rename(d + '/p.i', d + '/q.c'); got, text = hlc(d, 'q.c', '/P /Fi:q.i', 'q.i')
                # __LINE__ and macros are gone: preprocessing the output again gives the same tokens
                verdict(key + '-again', d, src, fs, ['again'] + keys, got, text, want, 'preprocessing the output again')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    def arith(i):
        src = ppgen.arith(random.Random(base + 777 + i)); d = hv.newdir(); files(d, src, {})
        try:
            r = subprocess.run(['clang-18', '-std=c11', '-E', '-P', '-Wall', '-Wno-sign-compare', '-undef', 'p.c'], cwd=d, capture_output=True)
            if r.returncode or b'overflow' in r.stderr or b'shift' in r.stderr or b'division' in r.stderr: c.count('undefined_arithmetic'); return
            want = [ppgen.norm(x) for x in ppgen.tokens(r.stdout.decode())]
            got, text = hlc(d, 'p.c', '/P /Fi:p.i', 'p.i'); verdict(f'if-{i}-{hashlib.md5(src.encode()).hexdigest()[:10]}', d, src, {}, ['#if arithmetic'], got, text, want, '#if')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    def strings(i):
        p = pick(base + 99999 + i, lambda r: (lambda s: (s[0], {}, s[1]))(ppgen.strings(r)))
        if not p: c.inconclusive += 1; return
        d, src, fs, keys, want = p
        try:
            # the reference compiles what its own preprocessor printed: the Windows target has Microsoft's comma elision
            pre = subprocess.run(CL + ['-E', '-P', 'p.c'], cwd=d, capture_output=True).stdout.decode('latin1')
            v, t = D.compare(src, d, ref_src=pre)
            key = f'str-{i}-{hashlib.md5(src.encode("latin1")).hexdigest()[:10]}'
            if v == 'ok': c.case(('compiled',) + tuple(keys)); c.count('compiled_string_programs')
            elif v in ('diff', 'crash', 'reject', 'hang'): c.case(); c.violation(key, f'{v}: {t}', {'p.c': src, 'ref.c': src})
            else: c.inconclusive += 1
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    for key, src in KNOWN.items():
        d = hv.newdir(); files(d, src, {})
        got, text = hlc(d, 'p.c', '/P /Fi:p.i', 'p.i'); want = refs(d, 'p.c')[0]; hv.shutil.rmtree(d, ignore_errors=True)
        if got is None or got != want: c.case(); c.violation(key, f'{text[:300] if got is None else first_diff(got, want)}', {'p.c': src})
    c.map(one, range(c.n(1300, 15000)))
    c.map(arith, range(c.n(250, 5000)))
    c.map(strings, range(c.n(150, 3000)))
