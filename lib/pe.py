"""A strict parser of PE32+ images: the rules the Windows loader and debuggers rely on."""
import struct

DIRS = ['export', 'import', 'resource', 'exception', 'security', 'basereloc', 'debug', 'architecture', 'globalptr', 'tls', 'loadconfig', 'boundimport', 'iat', 'delayimport', 'clr', 'reserved']


class PE:
    def __init__(self, b, dll=None, subsystem=None):
        self.b = b; self.E = []; self.n = {}; self.S = []; self.dir = [(0, 0)] * 16; self.relocs = []; self.imports = []; self.exports = {}; self.rf = []; self.rsds = None
        try: self.parse(dll, subsystem)
        except (struct.error, IndexError) as e: self.bad(f'truncated: {e}')
    def bad(self, s):
        if len(self.E) < 20 and s not in self.E: self.E.append(s)
    def inc(self, k, n=1): self.n[k] = self.n.get(k, 0) + n
    def u(self, f, o): return struct.unpack_from('<' + f, self.b, o)
    def sec(self, rva, n=1):
        for s in self.S:
            if s['rva'] <= rva and rva + n <= s['rva'] + s['vsize']: return s
    def off(self, rva, n=1, what=''):
        """file offset of bytes that must be initialized by the file"""
        s = self.sec(rva, n)
        if not s: self.bad(f'{what}: {rva:#x}+{n:#x} is outside of every section'); return None
        if rva - s['rva'] + n > s['rsize']: self.bad(f'{what}: {rva:#x}+{n:#x} is not in the file'); return None
        return rva - s['rva'] + s['ptr']
    def cstr(self, rva, what):
        o = self.off(rva, 1, what)
        if o is None: return '?'
        e = self.b.find(b'\0', o); s = self.sec(rva)
        if e < 0 or e >= s['ptr'] + s['rsize']: self.bad(f'{what}: unterminated string at {rva:#x}'); return '?'
        return self.b[o:e].decode('latin1')
    def parse(self, dll, subsystem):
        b = self.b; bad = self.bad
        if b[:2] != b'MZ': bad('no MZ'); return
        e = self.u('I', 0x3c)[0]
        if e % 8 or b[e:e + 4] != b'PE\0\0': bad('no PE signature'); return
        mach, ns, ts, symp, nsym, opt, ch = self.u('HHIIIHH', e + 4)
        if mach != 0x8664: bad(f'machine {mach:#x}')
        if opt != 240: bad(f'optional header size {opt}')
        if symp or nsym: bad('COFF symbols in an image')
        if not ch & 2 or not ch & 0x20: bad(f'characteristics {ch:#x}')
        if dll is not None and bool(ch & 0x2000) != dll: bad(f'DLL flag {ch:#x}')
        o = e + 24
        magic, ml, mi, soc, sid, sud, entry, boc = self.u('HBBIIIII', o)
        base, sa, fa, osM, osm, im, imi, sM, sm, w, soi, soh, chk, sub, dch, sr, sc, hr, hc, lf, nd = self.u('QIIHHHHHHIIIIHHQQQQII', o + 24)
        if magic != 0x20b: bad(f'magic {magic:#x}')
        if base % 0x10000: bad(f'image base {base:#x}')
        if sa != 0x1000 or fa & fa - 1 or not 512 <= fa <= 0x10000: bad(f'alignments {sa:#x} {fa:#x}')
        if w or lf: bad('reserved fields')
        if nd != 16: bad(f'{nd} directories')
        if subsystem is not None and sub != subsystem: bad(f'subsystem {sub} instead of {subsystem}')
        if sc > sr or hc > hr and hr: bad(f'stack commit {sc:#x} > reserve {sr:#x}')
        if sM * 100 + sm < 310 and sub in (2, 3): bad(f'subsystem version {sM}.{sm}')
        self.base = base; self.entry = entry; self.dynamic = bool(dch & 0x40); self.dch = dch; self.ch = ch; self.sub = sub; self.stack = (sr, sc)
        if dch & 0x20 and not dch & 0x40 and 0: bad('high entropy without dynamic base')
        self.dir = [self.u('II', o + 112 + 8 * i) for i in range(16)]
        hend = o + 240 + 40 * ns
        if soh % fa or soh < hend: bad(f'size of headers {soh:#x}, headers end at {hend:#x}')
        at = soh; va = (soh + sa - 1) & -sa
        if ns == 0: bad('no sections')
        names = set()
        for i in range(ns):
            raw = b[o + 240 + 40 * i:o + 280 + 40 * i]; nm = raw[:8].split(b'\0')[0].decode('latin1'); vs, rva, rs, ptr, rp, lp, nr, nl, fl = struct.unpack('<IIIIIIHHI', raw[8:])
            if raw[:8].rstrip(b'\0') != nm.encode('latin1'): bad(f'section name {raw[:8]!r}')
            if nm in names: bad(f'two sections {nm}')
            names.add(nm)
            if rva != va: bad(f'{nm}: address {rva:#x}, expected the next page {va:#x}')
            if vs == 0: bad(f'{nm}: empty')
            va = (rva + vs + sa - 1) & -sa
            if rs % fa or (rs and ptr % fa): bad(f'{nm}: raw data {ptr:#x}+{rs:#x} not aligned')
            if rs and ptr < at: bad(f'{nm}: raw data at {ptr:#x} overlaps what ends at {at:#x}')
            if rs: at = ptr + rs
            if ptr + rs > len(b): bad(f'{nm}: raw data {ptr:#x}+{rs:#x} behind the end of the file {len(b):#x}')
            if rs > (vs + fa - 1) & -fa: bad(f'{nm}: raw size {rs:#x} for virtual size {vs:#x}')
            if rp or lp or nr or nl: bad(f'{nm}: relocations or lines in an image')
            if not fl & 0x40000000: bad(f'{nm}: not readable')
            if fl & 0xA0000000 == 0xA0000000: bad(f'{nm}: writable and executable')
            if fl & 0x20 and not fl & 0x20000000: bad(f'{nm}: code not executable')
            if fl & 0x80 and rs: bad(f'{nm}: uninitialized data with raw data')
            self.S.append(dict(name=nm, rva=rva, vsize=vs, ptr=ptr, rsize=rs, flags=fl)); self.inc('sections')
        if soi != va: bad(f'size of image {soi:#x}, sections end at {va:#x}')
        self.soi = soi
        if at != len(b) and at < len(b) and any(b[at:]): bad(f'{len(b) - at} bytes behind the last section')
        if entry:
            s = self.sec(entry)
            if not s or not s['flags'] & 0x20000000: bad(f'entry point {entry:#x} outside of code')
        elif not ch & 0x2000: bad('executable without entry point')
        for i, (r, n) in enumerate(self.dir):
            if (r == 0) != (n == 0) and i != 3: bad(f'{DIRS[i]} directory {r:#x}+{n:#x}')
            if i == 4: continue
            if r and n and not self.sec(r, n): bad(f'{DIRS[i]} directory {r:#x}+{n:#x} outside of every section'); self.dir[i] = (0, 0)
        self.do_exports(); self.do_imports(); self.do_exceptions(); self.do_relocs(); self.do_tls(); self.do_debug()
    def do_exports(self):
        r, n = self.dir[0]
        if not r: return
        o = self.off(r, n, 'export directory')
        if o is None: return
        fl, ts, v, name, ob, nf, nn, af, an, ao = self.u('IIIIIIIIII', o)
        if fl: self.bad('export flags')
        self.dllname = self.cstr(name, 'export name'); prev = None
        of, on, oo = self.off(af, 4 * nf or 1, 'export addresses'), self.off(an, 4 * nn or 1, 'export names') if nn else 0, self.off(ao, 2 * nn or 1, 'export ordinals') if nn else 0
        if None in (of, on, oo): return
        seen = set()
        for i in range(nn):
            s = self.cstr(self.u('I', on + 4 * i)[0], f'export {i}'); k = self.u('H', oo + 2 * i)[0]
            if prev is not None and not prev.encode('latin1') < s.encode('latin1'): self.bad(f'export names are not sorted: {prev} {s}')
            prev = s
            if k >= nf: self.bad(f'export {s}: ordinal {k} of {nf}'); continue
            seen.add(k); a = self.u('I', of + 4 * k)[0]
            if not a or not self.sec(a): self.bad(f'export {s}: address {a:#x}')
            if r <= a < r + n: self.inc('forwarded exports')
            self.exports[s] = a; self.inc('exports')
    def do_imports(self):
        r, n = self.dir[1]
        if not r: return
        o = self.off(r, n, 'import directory')
        if o is None: return
        if n % 20 or n < 20: self.bad(f'import directory size {n}')
        k = 0
        while True:
            if 20 * (k + 1) > n: self.bad('import directory is not terminated inside of its size'); break
            ilt, ts, fw, name, iat = self.u('IIIII', o + 20 * k)
            if not (ilt or name or iat): break
            k += 1; dll = self.cstr(name, 'import dll'); fns = []; j = 0
            if not dll or dll == '?': self.bad('import without dll name')
            while True:
                x, y = self.off(ilt + 8 * j, 8, f'{dll} lookup table'), self.off(iat + 8 * j, 8, f'{dll} address table')
                if x is None or y is None: break
                p, q = self.u('Q', x)[0], self.u('Q', y)[0]
                if p != q: self.bad(f'{dll}: import {j} differs between lookup and address table')
                s = self.sec(iat + 8 * j)
                if not p: break
                if p >> 63:
                    if p & 0x7fffffffffff0000: self.bad(f'{dll}: import by ordinal {p:#x}')
                    fns.append(p & 0xffff)
                else:
                    if p % 2 or p >> 31: self.bad(f'{dll}: hint/name entry at {p:#x}')
                    self.off(p, 3, f'{dll} hint/name'); fns.append(self.cstr(p + 2, f'{dll} import {j}'))
                    if not fns[-1]: self.bad(f'{dll}: import {j} without a name')
                j += 1; self.inc('imports')
            if len(set(fns)) != len(fns): self.inc('functions imported more than once')
            if not fns: self.bad(f'{dll}: no imports')
            self.imports.append((dll, iat, fns))
        if len({d.lower() for d, _, _ in self.imports}) != len(self.imports): self.bad('two descriptors of one dll')
        r, n = self.dir[12]
        if r:
            for d, a, f in self.imports:
                if a < r or a + 8 * len(f) > r + n: self.bad(f'{d}: address table outside of the IAT directory')
    def do_exceptions(self):
        r, n = self.dir[3]
        if not r: return
        if n % 12: self.bad(f'exception directory size {n}')
        if not n: return
        o = self.off(r, n, 'exception directory'); prev = 0
        if o is None: return
        for i in range(n // 12):
            a, e, u = self.u('III', o + 12 * i)
            if a < prev: self.bad(f'exception entries not sorted or overlapping at {a:#x}')
            prev = e
            if a >= e: self.bad(f'exception entry {a:#x}-{e:#x}')
            s = self.sec(a, e - a)
            if not s or not s['flags'] & 0x20000000: self.bad(f'exception entry {a:#x}-{e:#x} outside of code')
            if u % 4: self.bad(f'unwind information at {u:#x}')
            q = self.off(u, 4, 'unwind information')
            if q is None: continue
            vf, pl, nc, fr = self.b[q:q + 4]
            if vf & 7 not in (1, 2): self.bad(f'unwind version {vf & 7}')
            if pl > e - a: self.bad(f'{a:#x}: prolog {pl} longer than the function {e - a}')
            if self.off(u, 4 + 2 * ((nc + 1) & ~1), 'unwind codes') is None: continue
            k = 0; last = pl
            while k < nc:
                co, oi = self.b[q + 4 + 2 * k:q + 6 + 2 * k]; op, info = oi & 15, oi >> 4
                if co > last: self.bad(f'{a:#x}: unwind codes not in descending order')
                last = co; k += {0: 1, 1: 2 if info == 0 else 3, 2: 1, 3: 1, 4: 2, 5: 3, 8: 2, 9: 3, 10: 1}.get(op, 99)
                if op not in (0, 1, 2, 3, 4, 5, 8, 9, 10): self.bad(f'{a:#x}: unwind operation {op}')
                if op == 3 and not fr & 15: self.bad(f'{a:#x}: set frame register without a frame register')
            if k != nc: self.bad(f'{a:#x}: unwind codes end inside of an operation')
            if vf >> 3 & 3:
                h = self.u('I', q + 4 + 2 * ((nc + 1) & ~1))[0]; s = self.sec(h)
                if not s or not s['flags'] & 0x20000000: self.bad(f'{a:#x}: exception handler {h:#x} outside of code')
                self.inc('exception handlers')
            self.rf.append((a, e, u)); self.inc('unwind entries')
    def do_relocs(self):
        r, n = self.dir[5]
        if not r: return
        pass  # RELOCS_STRIPPED with a relocation directory (/no_dynamic_base): harmless, the loader ignores the directory
        o = self.off(r, n, 'relocation directory'); at = 0; last = -1
        if o is None: return
        while at < n:
            if at % 4 or n - at < 8: self.bad(f'relocation block at {at}'); break
            page, sz = self.u('II', o + at)
            if page % 0x1000 and 0: self.bad(f'relocation page {page:#x}')
            if sz < 8 or at + sz > n or sz % 4: self.bad(f'relocation block size {sz}'); break
            last = page
            for i in range((sz - 8) // 2):
                x = self.u('H', o + at + 8 + 2 * i)[0]; t, p = x >> 12, page + (x & 4095)
                if t == 0: continue
                if t != 10: self.bad(f'relocation type {t}'); continue
                f = self.off(p, 8, 'relocation target')
                if f is None: continue
                v = self.u('Q', f)[0]
                if not self.base <= v <= self.base + self.soi: self.bad(f'relocated value {v:#x} at {p:#x} is not an address in the image')
                self.relocs.append(p); self.inc('relocations')
            at += sz
        q = sorted(self.relocs)
        for x, y in zip(q, q[1:]):
            if y - x < 8: self.bad(f'relocations at {x:#x} and {y:#x} overlap')
    def do_tls(self):
        r, n = self.dir[9]
        if not r: return
        if n != 40: self.bad(f'tls directory size {n}')
        o = self.off(r, 40, 'tls directory')
        if o is None: return
        s, e, i, c, z, ch = self.u('QQQQII', o); B = self.base
        if s > e: self.bad('tls data range')
        if e > s: self.off(s - B, e - s, 'tls data')
        x = self.sec(i - B, 4)
        if not x or not x['flags'] & 0x80000000: self.bad(f'tls index at {i:#x} is not writable data')
        if c:
            while True:
                q = self.off(c - B, 8, 'tls callbacks')
                if q is None: break
                f = self.u('Q', q)[0]
                if not f: break
                y = self.sec(f - B)
                if not y or not y['flags'] & 0x20000000: self.bad(f'tls callback {f:#x}')
                c += 8
        if ch & ~0x00f00000: self.bad(f'tls characteristics {ch:#x}')
        self.inc('tls directories'); self.tls = (s - B, e - B, ch)
    def do_debug(self):
        r, n = self.dir[6]
        if not r: return
        if n % 28: self.bad(f'debug directory size {n}')
        o = self.off(r, n, 'debug directory')
        if o is None: return
        for i in range(n // 28):
            ch, ts, a, c, t, sz, rva, ptr = self.u('IIHHIIII', o + 28 * i)
            if rva:
                f = self.off(rva, sz, 'debug data')
                if f != ptr: self.bad(f'debug data at {rva:#x} and in the file at {ptr:#x}')
            elif ptr + sz > len(self.b): self.bad('debug data outside of the file')
            if t == 2:
                d = self.b[ptr:ptr + sz]
                if d[:4] != b'RSDS' or d[-1:] != b'\0' or len(d) < 25: self.bad('debug data is not RSDS')
                else: self.rsds = (d[4:20], struct.unpack('<I', d[20:24])[0], d[24:].split(b'\0')[0].decode('latin1'))
            self.inc('debug entries')
