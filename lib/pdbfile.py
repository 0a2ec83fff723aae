"""A strict reader of PDB files: checks the container, every stream header, the type records, the hash tables, the symbols and the
line information, and gives functions, variables, constants and lines for the checks against the running program."""
import struct, hashlib, zlib

SIMPLE = {0x00: ('n', 0), 0x03: ('v', 0), 0x08: ('i', 4), 0x10: ('i', 1), 0x20: ('u', 1), 0x68: ('i', 1), 0x69: ('u', 1), 0x70: ('i', 1), 0x71: ('u', 2), 0x7a: ('u', 2), 0x7b: ('u', 4), 0x11: ('i', 2), 0x21: ('u', 2), 0x72: ('i', 2), 0x73: ('u', 2), 0x12: ('i', 4), 0x22: ('u', 4), 0x74: ('i', 4), 0x75: ('u', 4), 0x13: ('i', 8), 0x23: ('u', 8), 0x76: ('i', 8), 0x77: ('u', 8), 0x14: ('i', 16), 0x24: ('u', 16), 0x40: ('f', 4), 0x41: ('f', 8), 0x42: ('f', 10), 0x30: ('u', 1), 0x31: ('u', 2), 0x32: ('u', 4), 0x33: ('u', 8)}
KIND = {0x1002: 'pointer', 0x1001: 'modifier', 0x1008: 'procedure', 0x1201: 'arglist', 0x1203: 'fieldlist', 0x1503: 'array', 0x1505: 'struct', 0x1504: 'class', 0x1506: 'union', 0x1507: 'enum', 0x1205: 'bitfield', 0x1601: 'func_id', 0x1605: 'string_id', 0x1603: 'buildinfo', 0x1604: 'substr', 0x1606: 'srcline', 0x1607: 'modsrcline', 0xe: 'label', 0xa: 'vtshape'}


class Bad(Exception): pass


def hash1(b):
    h = 0; n = len(b) & ~3
    for i in range(0, n, 4): h ^= struct.unpack_from('<I', b, i)[0]
    p = n
    if len(b) - p >= 2: h ^= struct.unpack_from('<H', b, p)[0]; p += 2
    if len(b) - p == 1: h ^= b[p]
    h |= 0x20202020; h ^= h >> 11; return (h ^ (h >> 16)) & 0xffffffff


class PDB:
    def __init__(self, b, strict=True):
        self.b = b; self.E = []; self.n = {}; self.strict = strict; self.funcs = []; self.data = []; self.consts = []; self.lines = []; self.files = {}; self.udts = []; self.publics = []
        try: self.parse()
        except (struct.error, IndexError, Bad, KeyError, RecursionError) as e: self.bad(f'{type(e).__name__}: {e}')
    def bad(self, s):
        if len(self.E) < 20: self.E.append(s)
    def inc(self, k, n=1): self.n[k] = self.n.get(k, 0) + n
    def stream(self, i): return self.S[i]
    # ---- container
    def msf(self):
        b = self.b
        if b[:32] != b'Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0': raise Bad('no MSF signature')
        bs, fpm, nb, nd, unk, mapa = struct.unpack_from('<6I', b, 32)
        if bs not in (512, 1024, 2048, 4096, 8192): raise Bad(f'block size {bs}')
        if fpm not in (1, 2): self.bad(f'free page map in block {fpm}')
        if nb * bs != len(b): self.bad(f'{nb} blocks of {bs} bytes, but the file has {len(b)} bytes')
        self.bs = bs; owner = {0: 'superblock'}
        def take(p, who):
            if p >= nb: raise Bad(f'{who} uses block {p} of {nb}')
            if p % bs in (1, 2): self.bad(f'{who} uses block {p}, a free page map')
            if p in owner: self.bad(f'block {p} is used by {owner[p]} and {who}')
            owner[p] = who; return b[p * bs:(p + 1) * bs]
        npd = (nd + bs - 1) // bs; nmap = (npd * 4 + bs - 1) // bs
        if self.strict or nmap == 1: maps = list(struct.unpack_from(f'<{nmap}I', b, 52))
        else: maps = list(struct.unpack_from(f'<{nmap}I', b, 52))
        dirpages = b''.join(take(p, 'block map') for p in maps); pages = struct.unpack_from(f'<{npd}I', dirpages)
        d = b''.join(take(p, 'directory') for p in pages)[:nd]; ns = struct.unpack_from('<I', d)[0]; sizes = struct.unpack_from(f'<{ns}I', d, 4); o = 4 + 4 * ns; self.S = []
        for i, s in enumerate(sizes):
            if s == 0xffffffff: s = 0
            k = (s + bs - 1) // bs; pg = struct.unpack_from(f'<{k}I', d, o); o += 4 * k; self.S.append(b''.join(take(p, f'stream {i}') for p in pg)[:s])
        if o != nd: self.bad(f'stream directory has {nd} bytes, {o} used')
        for p in owner: # allocated blocks are marked so in the free page map
            if p % bs in (1, 2): continue
            idx = p // (8 * bs); q = (idx * bs + fpm) * bs; bit = p % (8 * bs)
            if q + bs > len(b):
                if self.strict: self.bad(f'the free page map for block {p} is missing')
                break
            if b[q + bit // 8] >> (bit % 8) & 1: self.bad(f'block {p} ({owner[p]}) is marked free'); break
        for p in range(nb):
            if p % bs in (1, 2) or p in owner: continue
            idx = p // (8 * bs); q = (idx * bs + fpm) * bs; bit = p % (8 * bs)
            if self.strict and q + bs <= len(b) and not b[q + bit // 8] >> (bit % 8) & 1: self.bad(f'unused block {p} is marked used'); break
        self.inc('pdb streams', ns); self.inc('pdb blocks', nb)
    def parse(self):
        self.msf(); self.info(); self.names = self.strtab(self.S[self.named['/names']], '/names') if '/names' in self.named else {}
        self.dbi_head(); self.tpi = self.types(2, 'TPI'); self.ipi = self.types(4, 'IPI'); self.check_types(); self.dbi(); self.globals()
    def info(self):
        s = self.S[1]; self.version, self.signature, self.age = struct.unpack_from('<3I', s); self.guid = s[12:28]
        if self.version != 20000404: self.bad(f'PDB version {self.version}')
        n = struct.unpack_from('<I', s, 28)[0]; buf = s[32:32 + n]; o = 32 + n
        if len(buf) != n: raise Bad('named stream map outside of stream 1')
        size, cap, pw = struct.unpack_from('<3I', s, o); o += 12; present = struct.unpack_from(f'<{pw}I', s, o); o += 4 * pw; dw = struct.unpack_from('<I', s, o)[0]; o += 4 + 4 * dw; self.named = {}
        bits = [i for i in range(32 * pw) if present[i // 32] >> (i % 32) & 1]
        if len(bits) != size: self.bad(f'named stream map has {len(bits)} entries, {size} announced')
        if bits and bits[-1] >= cap: self.bad('named stream map entry beyond its capacity')
        for i in bits:
            k, v = struct.unpack_from('<2I', s, o); o += 8
            if k >= n: raise Bad('name of a named stream outside of the buffer')
            nm = buf[k:buf.find(b'\0', k)]
            if v >= len(self.S): self.bad(f'named stream {nm} is stream {v} of {len(self.S)}')
            self.named[nm.decode('latin1')] = v
            h = (hash1(nm) & 0xffff) % cap
            j = h # linear probing: every slot between the hash and the entry is taken
            while j != i:
                if j not in bits: self.bad(f'named stream {nm} is in bucket {i}, unreachable from {h}'); break
                j = (j + 1) % cap
        o += 4 if (len(s) - o) % 4 == 0 and len(s) - o >= 4 else 0
    def strtab(self, s, what):
        sig, ver, n = struct.unpack_from('<3I', s)
        if sig != 0xEFFEEFFE or ver not in (1, 2): raise Bad(f'{what}: header')
        buf = s[12:12 + n]
        if len(buf) != n: raise Bad(f'{what}: strings outside of the stream')
        o = 12 + n; nb = struct.unpack_from('<I', s, o)[0]; bk = struct.unpack_from(f'<{nb}I', s, o + 4); cnt = struct.unpack_from('<I', s, o + 4 + 4 * nb)[0]; names = {}
        for h, off in enumerate(bk):
            if not off: continue
            if off >= n or off and buf[off - 1]: self.bad(f'{what}: bucket points into the middle of a string'); continue
            t = buf[off:buf.find(b'\0', off)]; names[off] = t; w = hash1(t) % nb; k = w
            while k != h:
                if not bk[k]: self.bad(f'{what}: {t} is in bucket {h}, unreachable from {w}'); break
                k = (k + 1) % nb
        if len(names) != cnt: self.bad(f'{what}: {len(names)} names in the table, {cnt} announced')
        self.strbuf = buf; return names
    def strat(self, off):
        if off >= len(self.strbuf): raise Bad('string offset outside of /names')
        return self.strbuf[off:self.strbuf.find(b'\0', off)].decode('latin1')
    # ---- types
    def num(self, r, o):
        v = struct.unpack_from('<H', r, o)[0]
        if v < 0x8000: return v, o + 2
        f = {0x8000: 'b', 0x8001: 'h', 0x8002: 'H', 0x8003: 'i', 0x8004: 'I', 0x8009: 'q', 0x800a: 'Q'}.get(v)
        if not f: raise Bad(f'numeric leaf {v:#x}')
        return struct.unpack_from('<' + f, r, o + 2)[0], o + 2 + struct.calcsize(f)
    def cstr(self, r, o):
        e = r.find(b'\0', o)
        if e < 0: raise Bad('unterminated name in a record')
        return r[o:e].decode('latin1'), e + 1
    def types(self, si, what):
        s = self.S[si]; ver, hs, lo, hi, nb, hstream, aux, hk, buckets = struct.unpack_from('<5I2H2I', s); ho, hl, io, il, ao, al = struct.unpack_from('<iIiIiI', s, 32)
        if ver != 20040203 or hs != 56: self.bad(f'{what}: version {ver}, header {hs}')
        if lo != 0x1000: self.bad(f'{what}: first type index {lo:#x}')
        if hs + nb != len(s): self.bad(f'{what}: {nb} bytes of records in a stream of {len(s)}')
        if hk != 4 or not 0x1000 <= buckets < 0x40000: self.bad(f'{what}: hash key size {hk}, {buckets} buckets')
        o = hs; recs = []; offs = []
        while o < hs + nb:
            n, k = struct.unpack_from('<HH', s, o)
            if n < 2 or o + 2 + n > hs + nb: raise Bad(f'{what}: record at {o} of {n} bytes')
            if (n + 2) % 4: self.bad(f'{what}: record at {o} not aligned ({n})')
            offs.append(o - hs); recs.append((k, s[o + 4:o + 2 + n], s[o:o + 2 + n])); o += 2 + n
        if len(recs) != hi - lo: self.bad(f'{what}: {len(recs)} records, {hi - lo} announced')
        self.inc(what + ' records', len(recs))
        if hstream != 0xffff:
            if hstream >= len(self.S): raise Bad(f'{what}: hash stream {hstream}')
            h = self.S[hstream]
            if hl != 4 * len(recs) or ho + hl > len(h): self.bad(f'{what}: {hl} bytes of hash values for {len(recs)} records')
            else:
                hv = struct.unpack_from(f'<{len(recs)}I', h, ho)
                for i, (k, r, w) in enumerate(recs):
                    if hv[i] >= buckets: self.bad(f'{what}: hash of {lo + i:#x} is {hv[i]:#x} with {buckets} buckets'); break
                    e = self.thash(k, r, w); e = e if e is None else e % buckets
                    if e is not None and hv[i] != e: self.bad(f'{what}: hash of record {lo + i:#x} ({KIND.get(k, hex(k))}) is {hv[i]:#x}, expected {e:#x}'); break
                    self.inc('type hashes')
            if io >= 0 and il:
                for j in range(il // 8):
                    ti, off = struct.unpack_from('<2I', h, io + 8 * j)
                    if not lo <= ti < hi or offs[ti - lo] != off: self.bad(f'{what}: index offset of {ti:#x} is {off}'); break
        elif self.strict and len(recs): self.bad(f'{what}: no hash stream')
        return recs
    def thash(self, k, r, whole):
        if k in (0x1505, 0x1504, 0x1506, 0x1507):
            c, prop = struct.unpack_from('<HH', r); o = {0x1505: 16, 0x1504: 16, 0x1506: 8, 0x1507: 12}[k]
            if k != 0x1507: _, o = self.num(r, o)
            nm, o = self.cstr(r, o); fwd = prop & 0x80; scoped = prop & 0x100; uq = prop & 0x200
            un = self.cstr(r, o)[0] if uq else ''
            anon = uq and (nm in ('<unnamed-tag>', '__unnamed') or nm.endswith(('::<unnamed-tag>', '::__unnamed')))
            if not fwd and not scoped and nm != '<unnamed-tag>': return hash1(nm.encode('latin1'))
            if not fwd and uq and not anon: return hash1(un.encode('latin1'))
            if anon or nm == '<unnamed-tag>': return None
        if k in (0x1606, 0x1607): return hash1(r[:4])
        return zlib.crc32(whole, 0xffffffff) ^ 0xffffffff
    def simple(self, t):
        if t & ~0x7ff: raise Bad(f'simple type {t:#x}')
        base = SIMPLE.get(t & 0xff); mode = t >> 8
        if base is None or mode not in (0, 6, 4): self.bad(f'unknown simple type {t:#x}'); return ('n', 0)
        return base if mode == 0 else ('p', 8 if mode == 6 else 4)
    def rec(self, t):
        if t - 0x1000 >= len(self.tpi): raise Bad(f'type {t:#x} does not exist')
        return self.tpi[t - 0x1000]
    def check_types(self):
        """every record only refers to earlier records; definitions are complete"""
        self.defs = {}; self.sizes = {}
        for i, (k, r, w) in enumerate(self.tpi):
            me = 0x1000 + i
            def ref(t, what, later=False):
                if t < 0x1000: self.simple(t) if t else 0
                elif t >= me: self.bad(f'type {me:#x} ({KIND.get(k)}) refers to {"itself" if t == me else "the later type"} {t:#x} as {what}')
                return t
            if k == 0x1002:
                t, a = struct.unpack_from('<2I', r); ref(t, 'target')
                if (a & 0x1f) != 0xc or (a >> 13 & 0x3f) != 8: self.bad(f'pointer {me:#x} has attributes {a:#x}')
            elif k == 0x1001: ref(struct.unpack_from('<I', r)[0], 'modified type')
            elif k == 0x1008:
                rv, cc, at, np, al = struct.unpack_from('<IBBHI', r); ref(rv, 'return type'); ref(al, 'argument list')
                if al >= 0x1000 and al < me:
                    kk, rr, _ = self.rec(al)
                    if kk != 0x1201: self.bad(f'procedure {me:#x}: {al:#x} is no argument list')
                    elif struct.unpack_from('<I', rr)[0] != np: self.bad(f'procedure {me:#x}: {np} parameters, {struct.unpack_from("<I", rr)[0]} in the list')
            elif k == 0x1201:
                n = struct.unpack_from('<I', r)[0]
                for t in struct.unpack_from(f'<{n}I', r, 4): ref(t, 'argument')
                if len(r) != 4 + 4 * n: self.bad(f'argument list {me:#x} has {len(r)} bytes for {n} arguments')
            elif k == 0x1503:
                e, ix = struct.unpack_from('<2I', r); ref(e, 'element'); ref(ix, 'index'); sz, o = self.num(r, 8); self.cstr(r, o)
            elif k == 0x1205:
                t, ln, pos = struct.unpack_from('<IBB', r); ref(t, 'underlying type')
                if t < 0x1000 and ln + pos > 8 * max(self.simple(t)[1], 1): self.bad(f'bit field {me:#x}: {ln} bits at {pos} in {t:#x}')
            elif k == 0x1203:
                for m in self.fields(me):
                    if m[0] in ('member', 'nest'): ref(m[2], f'type of member {m[1]}')
            elif k in (0x1505, 0x1504, 0x1506, 0x1507):
                c, prop = struct.unpack_from('<HH', r)
                if k == 0x1507: ut, fl = struct.unpack_from('<2I', r, 4); nm, o = self.cstr(r, 12); sz = None; ref(ut, 'underlying type')
                else: fl = struct.unpack_from('<I', r, 4)[0]; sz, o = self.num(r, 16 if k != 0x1506 else 8); nm, o = self.cstr(r, o)
                if prop & 0x80:
                    if fl: self.bad(f'forward reference {nm} has a field list')
                    continue
                if c == 0 and fl == 0: self.defs.setdefault((KIND[k], nm), []).append(me); continue
                ref(fl, 'field list'); self.defs.setdefault((KIND[k], nm), []).append(me)
                if fl >= 0x1000 and fl < me:
                    if self.rec(fl)[0] != 0x1203: self.bad(f'{nm}: {fl:#x} is no field list')
                    else:
                        fs = list(self.fields(fl)); n = len(fs)
                        if n & 0xffff != c: self.bad(f'{nm}: {c} members announced, {n} in the field list')
                        if sz is not None:
                            for f in fs:
                                if f[0] == 'member' and self.size(f[2]) is not None and f[3] + self.size(f[2]) > sz: self.bad(f'{nm}.{f[1]} at {f[3]} with size {self.size(f[2])} is outside of the type of size {sz}')
            elif k not in KIND: self.bad(f'unknown type record {k:#x}')
            self.inc('types checked')
        for i, (k, r, w) in enumerate(self.ipi):
            me = 0x1000 + i
            def iref(t, what):
                if t and (t < 0x1000 or t >= me): self.bad(f'id {me:#x} ({KIND.get(k)}) refers to id {t:#x} as {what}')
            def tref(t, what):
                if t >= 0x1000 + len(self.tpi): self.bad(f'id {me:#x} refers to type {t:#x} as {what}')
            if k == 0x1601: sc, t = struct.unpack_from('<2I', r); iref(sc, 'scope'); tref(t, 'type'); self.cstr(r, 8)
            elif k == 0x1605: iref(struct.unpack_from('<I', r)[0], 'substrings'); self.cstr(r, 4)
            elif k == 0x1603:
                n = struct.unpack_from('<H', r)[0]
                for t in struct.unpack_from(f'<{n}I', r, 2): iref(t, 'build information')
            elif k == 0x1604:
                n = struct.unpack_from('<I', r)[0]
                for t in struct.unpack_from(f'<{n}I', r, 4): iref(t, 'substring')
            elif k == 0x1606: t, s, ln = struct.unpack_from('<3I', r); tref(t, 'type'); iref(s, 'source file')
            elif k == 0x1607: pass
            else: self.bad(f'unknown id record {k:#x}')
    def fields(self, t):
        k, r, _ = self.rec(t); o = 0
        while o < len(r):
            if r[o] >= 0xf0: o += r[o] & 15 or 1; continue
            l = struct.unpack_from('<H', r, o)[0]
            if l == 0x150d: at, ty = struct.unpack_from('<HI', r, o + 2); off, p = self.num(r, o + 8); nm, o = self.cstr(r, p); yield 'member', nm, ty, off
            elif l == 0x1502: v, p = self.num(r, o + 4); nm, o = self.cstr(r, p); yield 'enum', nm, v
            elif l == 0x1404:
                ty = struct.unpack_from('<I', r, o + 4)[0]; o += 8
                if ty >= t: raise Bad(f'continuation of a field list {ty:#x} follows {t:#x}')
                yield from self.fields(ty)
            elif l == 0x1510: ty = struct.unpack_from('<I', r, o + 4)[0]; nm, o = self.cstr(r, o + 8); yield 'nest', nm, ty
            else: raise Bad(f'field {l:#x} in field list {t:#x}')
    def find(self, kind, nm):
        d = self.defs.get((kind, nm), []); return d[0] if d else None
    def udt(self, t):
        """(kind, name, size, field list, definition index) following forward references"""
        k, r, _ = self.rec(t); c, prop = struct.unpack_from('<HH', r)
        if k == 0x1507: ut, fl = struct.unpack_from('<2I', r, 4); nm, _ = self.cstr(r, 12); sz = self.size(ut)
        else: fl = struct.unpack_from('<I', r, 4)[0]; sz, o = self.num(r, 16 if k != 0x1506 else 8); nm, _ = self.cstr(r, o)
        if prop & 0x80:
            d = self.find(KIND[k], nm)
            if d is None: return KIND[k], nm, None, 0, t
            return self.udt(d)
        return KIND[k], nm, sz, fl, t
    def size(self, t):
        if t < 0x1000: return self.simple(t)[1]
        if t in self.sizes: return self.sizes[t]
        k, r, _ = self.rec(t)
        if k == 0x1002: v = 8
        elif k == 0x1001: v = self.size(struct.unpack_from('<I', r)[0])
        elif k == 0x1503: v = self.num(r, 8)[0]
        elif k in (0x1505, 0x1504, 0x1506, 0x1507): v = self.udt(t)[2]
        elif k == 0x1205: v = self.size(struct.unpack_from('<I', r)[0])
        else: v = None
        self.sizes[t] = v; return v
    def sig(self, t, depth=3):
        """a description of a type: i4, u1, f8, p(..), a10(..), S:name:size, e(..)"""
        if t < 0x1000:
            k, s = self.simple(t)
            if k == 'p': return f'p({self.sig(t & 0xff)})'
            return k if k in 'vn' else f'{k}{s}'
        k, r, _ = self.rec(t)
        if k == 0x1002: return ('r(' if struct.unpack_from('<I', r, 4)[0] >> 5 & 7 else 'p(') + (self.sig(struct.unpack_from('<I', r)[0], depth - 1) if depth else '..') + ')'
        if k == 0x1001: return self.sig(struct.unpack_from('<I', r)[0], depth)
        if k == 0x1503: e = struct.unpack_from('<I', r)[0]; sz = self.num(r, 8)[0]; es = self.size(e); return f'a{sz // es if es else 0}({self.sig(e, depth)})'
        if k in (0x1505, 0x1504): _, nm, sz, _, _ = self.udt(t); return f'S:{nm}:{sz}'
        if k == 0x1506: _, nm, sz, _, _ = self.udt(t); return f'U:{nm}:{sz}'
        if k == 0x1507: return self.sig(struct.unpack_from('<I', r, 4)[0])
        if k == 0x1205: b, ln, pos = struct.unpack_from('<IBB', r); return f'b{ln}@{pos}({self.sig(b)})'
        if k == 0x1008:
            rv, cc, at, np, al = struct.unpack_from('<IBBHI', r); n = struct.unpack_from('<I', self.rec(al)[1])[0]
            return 'f(' + self.sig(rv, depth - 1) + ';' + ','.join(self.sig(x, depth - 1) if x else '...' for x in struct.unpack_from(f'<{n}I', self.rec(al)[1], 4)) + ')'
        return KIND.get(k, hex(k))
    # ---- modules
    def dbi_head(self):
        s = self.S[3]
        if len(s) < 64: raise Bad('DBI stream too short')
        (sg, ver, self.dbiage, self.gsi, bn, self.psi, dv, self.symrec, rb, self.modsz, self.scsz, self.smsz, self.sisz, self.tssz, mfc, self.optsz, self.ecsz, fl, mach, pad) = struct.unpack_from('<iIIHHHHHHiiiiiIiiHHI', s)
        if sg != -1 or ver != 19990903: self.bad(f'DBI signature {sg}, version {ver}')
        if mach != 0x8664: self.bad(f'DBI machine {mach:#x}')
        if 64 + self.modsz + self.scsz + self.smsz + self.sisz + self.tssz + self.optsz + self.ecsz != len(s): self.bad('the substreams of the DBI stream do not add up to its size')
    def dbi(self):
        s = self.S[3]; o = 64; e = o + self.modsz; self.mods = []
        opt = struct.unpack_from(f'<{self.optsz // 2}H', s, len(s) - self.optsz)
        self.sections = []
        if len(opt) > 5 and opt[5] != 0xffff:
            h = self.S[opt[5]]
            for i in range(len(h) // 40): nm = h[40 * i:40 * i + 8].rstrip(b'\0').decode('latin1'); vs, va, rs, rp = struct.unpack_from('<4I', h, 40 * i + 8); self.sections.append((nm, vs, va, rs, rp, struct.unpack_from('<I', h, 40 * i + 36)[0]))
        elif self.strict: self.bad('no section headers in the PDB')
        while o < e:
            _, sec, p, off, size, ch, mi, p2, dc, rc, fl, stm, ss, c11, c13, nsf, p3, u, a, b2 = struct.unpack_from('<IHHiiIHHIIHHIIIHHIII', s, o); p = o + 64; nm, p = self.cstr(s, p); ob, p = self.cstr(s, p); o = p + (-(p - 64)) % 4
            self.mods.append(dict(name=nm, obj=ob, stream=stm, sym=ss, c11=c11, c13=c13, files=nsf, sc=(sec, off, size, ch, mi)))
        if o != e: self.bad('module information does not end where it should')
        for i, m in enumerate(self.mods):
            m['index'] = i
            if m['stream'] != 0xffff: self.module(m)
        # section contributions
        o = e
        if self.scsz:
            v = struct.unpack_from('<I', s, o)[0]
            if v != 0xF12EBA2D: self.bad(f'section contribution version {v:#x}')
            last = (0, -1)
            for i in range((self.scsz - 4) // 28):
                sec, p, off, size, ch, mi, p2, dc, rc = struct.unpack_from('<HHiiIHHII', s, o + 4 + 28 * i)
                if (sec, off) < last: self.bad('section contributions are not sorted')
                last = (sec, off + size)
                if mi >= len(self.mods): self.bad(f'section contribution of module {mi} of {len(self.mods)}')
                if not 1 <= sec <= len(self.sections): self.bad(f'section contribution to section {sec} of {len(self.sections)}')
                elif size < 0 or off < 0 or off + size > max(self.sections[sec - 1][1], self.sections[sec - 1][3]): self.bad(f'section contribution {sec}:{off}+{size} outside of its section')
                self.inc('section contributions')
            for f in self.funcs:
                if not any(True for i in range((self.scsz - 4) // 28) for x in [struct.unpack_from('<HHii', s, o + 4 + 28 * i)] if x[0] == f['seg'] and x[2] <= f['off'] < x[2] + x[3]): self.bad(f'{f["name"]} is in no section contribution'); break
        o += self.scsz + self.smsz; si = s[o:o + self.sisz]
        if si:
            nm, ns = struct.unpack_from('<HH', si); cnt = struct.unpack_from(f'<{nm}H', si, 4 + 2 * nm); tot = sum(cnt); offs = struct.unpack_from(f'<{tot}I', si, 4 + 4 * nm); buf = si[4 + 4 * nm + 4 * tot:]
            if nm != len(self.mods): self.bad(f'source information for {nm} modules of {len(self.mods)}')
            for x in offs:
                if x >= len(buf): self.bad('name of a source file outside of the buffer')
            self.srcfiles = [self.cstr(buf, x)[0] for x in offs if x < len(buf)]
    def module(self, m):
        s = self.S[m['stream']]
        if m['sym'] + m['c11'] + m['c13'] > len(s): raise Bad(f'module {m["name"]}: substreams outside of the stream')
        if m['sym'] and struct.unpack_from('<I', s)[0] != 4: self.bad('module stream signature')
        o = 4; stack = []; m['syms'] = {}
        while o < m['sym']:
            n, k = struct.unpack_from('<HH', s, o); r = s[o + 4:o + 2 + n]
            if n < 2 or o + 2 + n > m['sym']: raise Bad(f'symbol at {o} has {n} bytes')
            if (n + 2) % 4: self.bad(f'symbol at {o} is not aligned')
            m['syms'][o] = k; self.inc('module symbols')
            def scope(parent, end):
                if parent != (stack[-1]['at'] if stack else 0): self.bad(f'scope at {o}: parent {parent}, is inside of {stack[-1]["at"] if stack else 0}')
            if k in (0x1110, 0x110f, 0x1147, 0x1146):
                par, end, nxt, ln, ds, de, ty, off, seg, fl = struct.unpack_from('<8IHB', r); nm, _ = self.cstr(r, 35); scope(par, end)
                if stack: self.bad(f'function {nm} inside of a scope')
                f = dict(at=o, end=end, name=nm, seg=seg, off=off, len=ln, type=ty, kind='g' if k in (0x1110, 0x1147) else 'l', vars=[], blocks=[], mod=m['index'], id=k in (0x1147, 0x1146)); stack.append(f); self.funcs.append(f)
                if ds > de or de > ln: self.bad(f'{nm}: debug range {ds}-{de} of {ln} bytes')
            elif k == 0x1103:
                par, end, ln, off, seg = struct.unpack_from('<4IH', r); scope(par, end)
                if not stack: self.bad('block outside of a function')
                f = dict(at=o, end=end, seg=seg, off=off, len=ln, vars=[], blocks=[]); 
                if stack:
                    t = stack[-1]; t['blocks'].append(f)
                    if seg != t['seg'] or off < t['off'] or off + ln > t['off'] + t['len']: self.bad(f'block {seg}:{off}+{ln} is not inside of its parent {t["seg"]}:{t["off"]}+{t["len"]}')
                stack.append(f)
            elif k == 0x1102: par, end = struct.unpack_from('<2I', r); scope(par, end); stack.append(dict(at=o, end=end, vars=[], blocks=[]))
            elif k in (6, 0x114f):
                if not stack: raise Bad('end of a scope without a scope')
                f = stack.pop()
                if f['end'] != o: self.bad(f'scope at {f["at"]} ends at {o}, not {f["end"]}')
            elif k == 0x1111:
                off, ty, reg = struct.unpack_from('<iIH', r); nm, _ = self.cstr(r, 10)
                if not stack: self.bad(f'local {nm} outside of a function')
                else: stack[-1]['vars'].append(('rel', nm, reg, off, ty))
                self.tyok(ty, nm)
            elif k in (0x110c, 0x110d, 0x1112, 0x1113): self.gdata(k, r, stack)
            elif k == 0x1107: self.const(r)
            elif k == 0x1108: ty = struct.unpack_from('<I', r)[0]; self.tyok(ty, 'typedef'); self.udts.append((self.cstr(r, 4)[0], ty))
            elif k == 0x114c:
                if struct.unpack_from('<I', r)[0] - 0x1000 >= len(self.ipi): self.bad('build information does not exist')
            elif k == 0x1012: pass
            o += 2 + n
        if o != m['sym'] and m['sym']: self.bad('symbols do not end where they should')
        if stack: self.bad('scope without an end')
        for f in self.funcs:
            if f['mod'] == m['index']:
                if f['id'] and not f['type']: pass
                else: self.tyok(f['type'], f['name'], f['id'])
        o = m['sym'] + m['c11']; e = o + m['c13']; self.c13(s, o, e, m)
    def tyok(self, t, nm, ident=False):
        if t >= 0x1000 and t - 0x1000 >= len(self.ipi if ident else self.tpi): self.bad(f'type {t:#x} of {nm} does not exist')
    def gdata(self, k, r, stack=None):
        ty, off, seg = struct.unpack_from('<IIH', r); nm, _ = self.cstr(r, 10); self.tyok(ty, nm); self.data.append(dict(name=nm, seg=seg, off=off, type=ty, kind={0x110c: 'l', 0x110d: 'g', 0x1112: 'lt', 0x1113: 'gt'}[k], scope=stack[0]['name'] if stack else None))
        if not 1 <= seg <= len(self.sections): self.bad(f'{nm} is in section {seg} of {len(self.sections)}')
        else:
            s = self.sections[seg - 1]; z = self.size(ty)
            if off + (z or 0) > max(s[1], s[3]): self.bad(f'{nm} at {seg}:{off} with size {z} is outside of its section of size {s[1]}')
    def const(self, r):
        ty = struct.unpack_from('<I', r)[0]; self.tyok(ty, 'constant'); v, o = self.num(r, 4); self.consts.append((self.cstr(r, o)[0], v, ty))
    def c13(self, s, o, e, m):
        subs = []
        while o < e:
            k, n = struct.unpack_from('<II', s, o)
            if o + 8 + n > e: raise Bad(f'debug subsection {k:#x} of {n} bytes')
            subs.append((k, o + 8, n)); o += 8 + n + (-n) % 4
        ck = {}
        for k, a, n in subs:
            if k != 0xf4: continue
            p = a
            while p < a + n:
                off, sz, kind = struct.unpack_from('<IBB', s, p); ck[p - a] = (self.strat(off), kind, s[p + 6:p + 6 + sz]); p += 6 + sz; p += -(p - a) % 4
        m['checksums'] = ck; self.files.update({v[0]: v for v in ck.values()})
        for k, a, n in subs:
            if k != 0xf2: continue
            off, seg, fl, cs = struct.unpack_from('<IHHI', s, a); p = a + 12; last = -1
            while p < a + n:
                fid, nl, bsz = struct.unpack_from('<3I', s, p)
                if fid not in ck: raise Bad(f'line block of file {fid}, which does not exist')
                if bsz != 12 + 8 * nl + (4 * nl if fl & 1 else 0): self.bad(f'line block of {bsz} bytes with {nl} lines')
                for i in range(nl):
                    lo, v = struct.unpack_from('<2I', s, p + 12 + 8 * i)
                    if lo > cs or lo == cs and cs: self.bad(f'line {v & 0xffffff} at {lo} of {cs} bytes')
                    if self.strict and lo < last: self.bad(f'line {v & 0xffffff} at {lo} follows {last}')
                    last = lo; self.lines.append((seg, off + lo, ck[fid][0], v & 0xffffff, off, cs)); self.inc('line entries')
                p += bsz
            if p != a + n: self.bad('lines do not end where they should')
    # ---- global symbols
    def gsihash(self, s, o, n, what):
        sg, ver, hr, nb = struct.unpack_from('<IIII', s, o)
        if sg != 0xffffffff or ver != 0xeffe0000 + 19990810: self.bad(f'{what}: header {sg:#x} {ver:#x}'); return set()
        if hr % 8 or 16 + hr + nb > n: self.bad(f'{what}: {hr} + {nb} bytes of {n}'); return set()
        recs = [struct.unpack_from('<II', s, o + 16 + 8 * i) for i in range(hr // 8)]; q = o + 16 + hr; bm = struct.unpack_from('<129I', s, q); bits = [i for i in range(129 * 32) if bm[i // 32] >> (i % 32) & 1]
        if nb != 129 * 4 + 4 * len(bits): self.bad(f'{what}: {len(bits)} buckets in {nb} bytes'); return set()
        offs = struct.unpack_from(f'<{len(bits)}I', s, q + 516)
        if list(offs) != sorted(offs): self.bad(f'{what}: buckets are not sorted')
        sym = self.S[self.symrec]; seen = set()
        for j, bkt in enumerate(bits):
            a = offs[j] // 12; z = offs[j + 1] // 12 if j + 1 < len(bits) else len(recs)
            if offs[j] % 12 or not a < z <= len(recs) or j == 0 and a: self.bad(f'{what}: bucket {bkt} covers {a}-{z} of {len(recs)}'); return seen
            for off, ref in recs[a:z]:
                r = self.symbols.get(off - 1)
                if r is None: self.bad(f'{what}: record at {off - 1} does not exist'); continue
                h = hash1(r[1].encode('latin1')) % 4096
                if h != bkt: self.bad(f'{what}: {r[1]} is in bucket {bkt}, expected {h}')
                if off in seen: self.bad(f'{what}: {r[1]} is in the table twice')
                seen.add(off); self.inc('global hash entries')
        return seen
    def globals(self):
        s = self.S[self.symrec]; o = 0; self.symbols = {}; self.procrefs = []
        fat = {(f['mod'], f['at']): f for f in self.funcs}
        while o < len(s):
            n, k = struct.unpack_from('<HH', s, o); r = s[o + 4:o + 2 + n]
            if n < 2 or o + 2 + n > len(s): raise Bad(f'global symbol at {o} has {n} bytes')
            if (n + 2) % 4: self.bad(f'global symbol at {o} is not aligned')
            if k in (0x110c, 0x110d, 0x1112, 0x1113): self.gdata(k, r); nm = self.cstr(r, 10)[0]
            elif k == 0x1107: self.const(r); nm = self.consts[-1][0]
            elif k == 0x1108: ty = struct.unpack_from('<I', r)[0]; nm = self.cstr(r, 4)[0]; self.tyok(ty, nm); self.udts.append((nm, ty))
            elif k in (0x1125, 0x1127):
                sn, off, mod = struct.unpack_from('<IIH', r); nm = self.cstr(r, 10)[0]; self.procrefs.append((nm, mod, off, k))
                f = fat.get((mod - 1, off))
                if f is None: self.bad(f'the reference to {nm} points to no function (module {mod}, {off})')
                elif f['name'] != nm: self.bad(f'the reference to {nm} points to {f["name"]}')
                elif (f['kind'] == 'g') != (k == 0x1125): self.bad(f'the reference to {nm} has the wrong kind')
            elif k == 0x110e: fl, off, seg = struct.unpack_from('<IIH', r); nm = self.cstr(r, 10)[0]; self.publics.append((nm, seg, off, fl, o))
            else: self.bad(f'unknown global symbol {k:#x}'); nm = ''
            self.symbols[o] = (k, nm); o += 2 + n; self.inc('global symbols')
        g = self.gsihash(self.S[self.gsi], 0, len(self.S[self.gsi]), 'globals'); p = self.S[self.psi]
        ss, asz, nt, st, it, pad, ot, nsec = struct.unpack_from('<IIIIHHII', p); pub = self.gsihash(p, 28, ss, 'publics'); am = [struct.unpack_from('<I', p, 28 + ss + 4 * i)[0] for i in range(asz // 4)]
        bypos = {x[4]: x for x in self.publics}
        if sorted(am) != sorted(bypos): self.bad('the address map of the publics is no permutation of them')
        else:
            ks = [bypos[x][1:3] for x in am]
            if ks != sorted(ks): self.bad('the address map of the publics is not sorted')
        for off, (k, nm) in self.symbols.items():
            if (off + 1 in pub) != (k == 0x110e): self.bad(f'{nm} ({k:#x}) is {"not " if k == 0x110e else ""}in the table of publics')
            if (off + 1 in g) == (k == 0x110e): self.bad(f'{nm} ({k:#x}) is {"" if k == 0x110e else "not "}in the table of globals')
        refs = {(x[0], x[2]) for x in self.procrefs}
        for f in self.funcs:
            if (f['name'], f['at']) not in refs: self.bad(f'no global reference to the function {f["name"]}')
    # ---- questions
    def func_at(self, seg, off): return next((f for f in self.funcs if f['seg'] == seg and f['off'] <= off < f['off'] + f['len']), None)
    def segoff(self, rva):
        for i, s in enumerate(self.sections):
            if s[2] <= rva < s[2] + max(s[1], s[3]): return i + 1, rva - s[2]
        return None
    def line_at(self, seg, off):
        best = None
        for x in self.lines:
            if x[0] == seg and x[4] <= off < x[4] + x[5] and x[1] <= off and (best is None or x[1] >= best[1]): best = x
        return best and best[2:4]
    def vars_at(self, seg, off):
        """the visible locals at an address, innermost first"""
        f = self.func_at(seg, off); out = []
        if not f: return None
        def walk(b):
            for c in b['blocks']:
                if c['off'] <= off < c['off'] + c['len']: walk(c)
            out.extend(b['vars'])
        walk(f); return out
