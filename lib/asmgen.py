"""Random instructions over every mnemonic the inline assembler knows x operand kinds, and the normal form in which two disassemblies are compared."""
import os, re
TAB = [(l.split()[0], [k.split('|') for k in l.split()[1:]]) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'asmtab.txt')) if l.strip()]
R = {8: 'al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b'.split(), 16: 'ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w'.split(),
     32: 'eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d'.split(), 64: 'rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split()}
PTR = {8: 'byte', 16: 'word', 32: 'dword', 64: 'qword', 128: 'xmmword', 256: 'ymmword'}
LOCKABLE = {'add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'inc', 'dec', 'neg', 'bts', 'btr', 'btc', 'xadd', 'cmpxchg', 'xchg', 'cmpxchg16b', 'cmpxchg8b', 'not'}

SHIFTS = {'rol', 'ror', 'rcl', 'rcr', 'shl', 'shr', 'sar', 'sal'}


def disp(r): return r.choice([1, 8, 16, 127, 128, 129, 255, 256, 4096, 0x7fffffff, 0x12345678, r.randrange(1, 4000), r.randrange(1, 128)])


def mem(r, a32=False):
    w = 32 if a32 else 64; b = r.choice(R[w]) if r.random() < .7 else r.choice([R[w][i] for i in (4, 5, 12, 13)]); s = b
    if r.random() < .45:
        i = r.choice([x for k, x in enumerate(R[w]) if k != 4]); sc = r.choice([1, 2, 4, 8]); s += f' + {i}' if sc == 1 and r.random() < .5 else f' + {sc}*{i}'
    x = r.random()
    if x < .35: s += f' + {disp(r)}'
    elif x < .55: s += f' - {r.choice([1, 8, 127, 128, 129, 4096, 0x7fffffff, r.randrange(1, 4000)])}'
    return '[' + s + ']'


def inst(r):
    """(form key, text) of one instruction"""
    while True:
        k, t = _inst(r); m = k[0]
        # NDD forms which only the reference has; the marker of the comparison
        if m in SHIFTS and len(k) > 3 and k[3][0] == 'r' and not t.endswith(' cl') or t in ('int 119', 'int 0x77', 'int -137', 'int 3', 'int 0x3'): continue
        return k, t


def _inst(r):
    m, ks = r.choice(TAB); ops = []; form = []
    for k in ks:
        x = r.choice(k); form.append(x)
        if x[0] == 'r': ops.append(r.choice(R[int(x[1:])]))
        elif x[0] == 'm':
            a = 'gs:' if r.random() < .08 else ''; a32 = r.random() < .04
            if a: form[-1] = 'gs'
            if a32: form[-1] += 'a32'
            e = mem(r, a32); ops.append(f'{PTR[int(x[1:])]} ptr {a}{e}')
            if re.search(r'\+ [a-z]', e): form[-1] += 'unscaled'
        elif x == 'x': ops.append(f'xmm{r.randrange(16)}')
        elif x == 'y': ops.append(f'ymm{r.randrange(16)}')
        else:
            b = int(x[1:]); v = r.choice([0, 1, -1, 5, 127, -128, 128, 255, (1 << (b - 1)) - 1, -(1 << (b - 1)), r.randrange(1 << b), r.randrange(256)])
            ops.append(str(v) if r.random() < .7 or v < 0 else hex(v))
    t = m + (' ' + ', '.join(ops) if ops else ''); pre = ''
    if m in LOCKABLE and form and form[0][0] in 'mg' and r.random() < .3 and not (('gs:' in t or 'a32' in ' '.join(form)) and ' word ptr' in t): pre = 'lock '  # llvm-objdump drops the lock of 65 f0 66
    if m in ('movsb', 'movsw', 'movsd', 'movsq', 'stosb', 'stosw', 'stosd', 'stosq') and not ops and r.random() < .5: pre = 'rep '
    if m == 'prefetch':
        h = r.randrange(4); return (m, str(h)) + tuple(form[1:]), f'prefetch {h}, {ops[1]}'
    return (m, pre.strip()) + tuple(form), pre + t


def norm(t):
    """text of a disassembled instruction, equivalent spellings made equal"""
    t = re.sub(r'#.*', '', t).strip(); t = re.sub(r'\s+', ' ', t); t = t.replace('movabs', 'mov')
    t = re.sub(r'^(\w+) ', lambda m: {'sal': 'shl', 'repe': 'rep'}.get(m.group(1), m.group(1)) + ' ', t)
    m = re.match(r'^(lock )?xchg (.*), (.*)$', t)
    if m and '[' not in t: a, b = sorted(m.groups()[1:]); t = f'xchg {a}, {b}'
    m = re.match(r'^(lock )?xchg (.*)$', t)
    if m:
        a, b = m.group(2).rsplit(', ', 1)
        if '[' in b: a, b = b, a
        t = f'{m.group(1) or ""}xchg {a}, {b}'
    def im(x):
        v = int(x.group(2), 16); v = -v if x.group(1) else v; return ' ' + hex(v & (1 << 64) - 1)
    if '[' not in t: t = re.sub(r' (-?)(0x[0-9a-f]+)$', im, t)
    t = re.sub(r'\[(\w+) \+ (\w+)\]', lambda x: '[' + ' + '.join(sorted(x.groups())) + ']' if x.group(2)[0] == 'r' and x.group(2) != 'rip' else x.group(0), t)
    t = t.replace('1*', '')
    t = re.sub(r'^((?:lock )?(?:rol|ror|rcl|rcr|shl|shr|sar) [^,]*)$', r'\1, 0x1', t)
    t = re.sub(r'^((?:rol|ror|rcl|rcr|shl|shr|sar) .*), [er]?cx$', r'\1, cl', t)
    t = re.sub(r'^(vpcmpeqb|vpxor|vpminub|vaddps|vmulps) (\w+), (\w+), (\w+)$', lambda m: f'{m.group(1)} {m.group(2)}, ' + ', '.join(sorted(m.groups()[2:])), t)
    return t


def seq(l):
    """the text of a sequence of disassembled instructions; a prefix the disassembler prints as an instruction of its own belongs to the next one"""
    return norm('; '.join(l).replace('lock; ', 'lock ').replace('rep; ', 'rep ').replace('repne; ', 'repne '))
