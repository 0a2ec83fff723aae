"""A strict parser of x64 COFF objects: returns the list of rule violations and a summary of what was checked."""
import struct

RELS = {0: 'ABSOLUTE', 1: 'ADDR64', 2: 'ADDR32', 3: 'ADDR32NB', 4: 'REL32', 5: 'REL32_1', 6: 'REL32_2', 7: 'REL32_3', 8: 'REL32_4', 9: 'REL32_5', 0xa: 'SECTION', 0xb: 'SECREL'}
SIZE = {1: 8, 2: 4, 3: 4, 4: 4, 5: 4, 6: 4, 7: 4, 8: 4, 9: 4, 0xa: 2, 0xb: 4}


def parse(b):
    E = []; n = {'sections': 0, 'symbols': 0, 'relocations': 0, 'functions with unwind data': 0}
    def bad(s):
        if len(E) < 20: E.append(s)
    if len(b) < 20: return ['file shorter than a COFF header'], n, {}
    mach, ns, ts, symp, nsym, opt, ch = struct.unpack_from('<HHIIIHH', b)
    if mach != 0x8664: bad(f'machine {mach:#x}')
    if opt: bad(f'size of optional header {opt}')
    if ch & ~0x4: bad(f'characteristics {ch:#x}')
    if 20 + 40 * ns > len(b): return E + ['section headers outside of the file'], n, {}
    if symp + 18 * nsym + 4 > len(b): return E + ['symbol table outside of the file'], n, {}
    stp = symp + 18 * nsym; stn = struct.unpack_from('<I', b, stp)[0]
    if stn < 4 or stp + stn > len(b): return E + [f'string table size {stn} outside of the file'], n, {}
    if stn > 4 and b[stp + stn - 1]: bad('string table not terminated')
    def name(raw):
        if raw[:4] == b'\0\0\0\0':
            o = struct.unpack_from('<I', raw, 4)[0]
            if o < 4 or o >= stn: bad(f'string table offset {o}'); return '?'
            if o > 4 and b[stp + o - 1]: bad(f'string table offset {o} points into the middle of a name')
            e = b.find(b'\0', stp + o); return b[stp + o:e].decode('latin1')
        return raw.split(b'\0')[0].decode('latin1')
    S = []; used = [(0, 20 + 40 * ns, 'headers'), (symp, stp + stn, 'symbols')]
    for i in range(ns):
        raw = b[20 + 40 * i:60 + 40 * i]; vs, va, sz, ptr, rp, lp, nr, nl, fl = struct.unpack('<IIIIIIHHI', raw[8:])
        nm = raw[:8].split(b'\0')[0].decode('latin1')
        if nm[:1] == '/': bad(f'section {i} long name {nm}')
        s = dict(name=nm, size=sz, ptr=ptr, flags=fl, rel=[], idx=i + 1)
        if vs or va: bad(f'{nm}: virtual size/address {vs:#x}/{va:#x} in an object')
        al = fl >> 20 & 15
        if al == 15: bad(f'{nm}: alignment field 15')
        s['align'] = 1 << max(al - 1, 0) if al else 16
        if fl & 0x80:
            if ptr: bad(f'{nm}: uninitialized data with a file pointer')
        elif sz:
            if ptr < 20 + 40 * ns or ptr + sz > len(b): bad(f'{nm}: data {ptr:#x}+{sz:#x} outside of the file'); continue
            used.append((ptr, ptr + sz, nm))
        if nm == '.text' and (fl & 0x60000020) != 0x60000020: bad(f'.text flags {fl:#x}')
        if nm in ('.data', '.bss', '.tls$') and (fl & 0xe0000000) != 0xc0000000: bad(f'{nm} flags {fl:#x}')
        if nm in ('.rdata', '.pdata', '.xdata') and (fl & 0xe0000000) != 0x40000000: bad(f'{nm} flags {fl:#x}')
        cnt = nr
        if fl & 0x01000000:
            if nr != 0xffff: bad(f'{nm}: NRELOC_OVFL with {nr} relocations')
            cnt = struct.unpack_from('<I', b, rp)[0]
            if cnt < 0xffff: bad(f'{nm}: overflowed relocation count {cnt}')
        elif nr == 0xffff: bad(f'{nm}: 65535 relocations without the overflow flag')
        if cnt:
            if rp + 10 * cnt > len(b): bad(f'{nm}: relocations outside of the file'); continue
            used.append((rp, rp + 10 * cnt, nm + ' relocations')); prev = []
            for k in range(1 if fl & 0x01000000 else 0, cnt):
                a, sy, t = struct.unpack_from('<IIH', b, rp + 10 * k); n['relocations'] += 1
                if t not in SIZE: bad(f'{nm}: relocation type {t}'); continue
                if a + SIZE[t] > sz: bad(f'{nm}: relocation at {a:#x} outside of the section')
                if fl & 0x80: bad(f'{nm}: relocation in uninitialized data')
                if sy >= nsym: bad(f'{nm}: relocation symbol {sy} of {nsym}'); continue
                if 4 <= t <= 9 and not fl & 0x20: bad(f'{nm}: {RELS[t]} outside of code')
                s['rel'].append((a, sy, t)); prev.append((a, a + SIZE[t]))
            prev.sort()
            for x, y in zip(prev, prev[1:]):
                if x[1] > y[0]: bad(f'{nm}: relocations at {x[0]:#x} and {y[0]:#x} overlap')
        if nl: bad(f'{nm}: line numbers')
        S.append(s); n['sections'] += 1
    used.sort()
    for x, y in zip(used, used[1:]):
        if x[1] > y[0]: bad(f'{x[2]} and {y[2]} overlap in the file')
    if len(S) != ns: return E, n, {}
    Y = {}; i = 0; ext = {}; aux_at = set(); secsym = {}; comdat = {}
    while i < nsym:
        raw = b[symp + 18 * i:symp + 18 * i + 18]; nm = name(raw); val, sec, ty, cl, na = struct.unpack('<IhHBB', raw[8:]); n['symbols'] += 1
        if i + na >= nsym: bad(f'{nm}: {na} auxiliary records behind the table')
        if sec > ns or sec < -2: bad(f'{nm}: section number {sec}')
        if cl not in (2, 3, 6, 103, 105): bad(f'{nm}: storage class {cl}')
        if not nm: bad(f'symbol {i} without a name')
        if sec > 0 and cl != 103:
            s = S[sec - 1]
            if val > s['size'] or (val == s['size'] and s['size'] and ty == 0x20): bad(f'{nm}: value {val:#x} outside of {s["name"]} of size {s["size"]:#x}')
        if cl == 2:
            if sec > 0 and nm in ext and ext[nm] > 0: bad(f'{nm}: defined twice')
            if nm in ext and ext[nm] == 0 and sec == 0: bad(f'{nm}: two undefined symbols')
            ext[nm] = sec
            if sec == 0 and ty == 0x20 and val: bad(f'{nm}: undefined function with value {val}')
        if ty == 0x20 and sec > 0 and not S[sec - 1]['flags'] & 0x20: bad(f'function {nm} outside of code')
        Y[i] = dict(name=nm, value=val, sec=sec, type=ty, cls=cl)
        if cl == 3 and sec > 0 and na == 1 and val == 0 and nm == S[sec - 1]['name']:
            ln, nr, nl, chk, num, sel = struct.unpack_from('<IHHIHB', b, symp + 18 * (i + 1))
            if sec in secsym: bad(f'{nm}: two section symbols for section {sec}')
            secsym[sec] = i
            if ln != S[sec - 1]['size']: bad(f'{nm}: section symbol length {ln} instead of {S[sec - 1]["size"]}')
            if S[sec - 1]['flags'] & 0x1000:
                if not 1 <= sel <= 6: bad(f'{nm}: COMDAT selection {sel}')
            elif sel: bad(f'{nm}: selection {sel} without COMDAT')
        elif sec > 0 and S[sec - 1]['flags'] & 0x1000 and sec not in comdat:
            comdat[sec] = i
            if sec not in secsym: bad(f'{nm}: COMDAT symbol before the symbol of its section')
            if cl == 2 and val: bad(f'{nm}: COMDAT symbol at {val:#x}')
        for k in range(na): aux_at.add(i + 1 + k)
        i += 1 + na
    for s in S:
        if s['flags'] & 0x1000 and s['idx'] not in comdat: bad(f'{s["name"]}: COMDAT section without a symbol')
        for a, sy, t in s['rel']:
            if sy in aux_at: bad(f'{s["name"]}+{a:#x}: relocation to an auxiliary record')
        if s['name'] == '.pdata':
            if s['size'] % 12: bad('.pdata size')
            R = {a: (Y.get(sy), t) for a, sy, t in s['rel']}; d = b[s['ptr']:s['ptr'] + s['size']]; spans = []
            for o in range(0, s['size'] - 11, 12):
                x = [R.get(o), R.get(o + 4), R.get(o + 8)]
                if None in x or any(t != 3 or y is None for y, t in x): bad(f'.pdata entry {o // 12} without its three relocations'); continue
                p = []
                for k in range(3):
                    y = x[k][0]; p.append((y['sec'], y['value'] + struct.unpack_from('<I', d, o + 4 * k)[0]))
                if p[0][0] != p[1][0] or p[0][0] <= 0 or not S[p[0][0] - 1]['flags'] & 0x20: bad(f'.pdata entry {o // 12}: not in one code section'); continue
                if p[0][1] >= p[1][1] or p[1][1] > S[p[0][0] - 1]['size']: bad(f'.pdata entry {o // 12}: range {p[0][1]:#x}-{p[1][1]:#x}')
                if p[2][0] <= 0 or S[p[2][0] - 1]['name'] != '.xdata' or p[2][1] % 4 or p[2][1] + 4 > S[p[2][0] - 1]['size']: bad(f'.pdata entry {o // 12}: unwind data at section {p[2]}')
                spans.append((p[0][0], p[0][1], p[1][1])); n['functions with unwind data'] += 1
            spans.sort()
            for u, v in zip(spans, spans[1:]):
                if u[0] == v[0] and u[2] > v[1]: bad(f'.pdata ranges {u[1]:#x}-{u[2]:#x} and {v[1]:#x}-{v[2]:#x} overlap')
            # every function of .text starts a range
            st = {(a, x) for a, x, _ in spans}
            for y in Y.values():
                if y['type'] == 0x20 and y['sec'] > 0 and y['cls'] in (2, 3) and (y['sec'], y['value']) not in st and not y['name'].startswith('$'): n.setdefault('functions without unwind data', 0); n['functions without unwind data'] += 1
    return E, n, dict(symbols=Y, ext=ext, sections=S)
