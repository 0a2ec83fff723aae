"""Debug information: random self-describing programs run under the loader; a strict PDB reader supplies the claims (functions, scopes, variables, types, lines), the run supplies addresses, values and call sites."""
import hashlib, os, random, re, struct
import dbggen, hv, pdbfile, pe
from diffrun import Diff, errors


def run(c):
    c.rule = 'one fact about a running program (the address of a variable, the line of a call site, a member offset, a constant, a range of a function) compared with the debug information; distinct = (kind of fact, configuration, type signature)'
    c.assume = ['lld translates the CodeView sections of objects into a PDB faithfully', 'breakpoint-quality lines are judged at call sites: the statement a call belongs to']
    D = Diff(c); base = c.rng.getrandbits(48); libd = hv.newdir('vrt')
    hv.sh(['llvm-lib-18', f'/def:{hv.VERIF}/rt/vrt.def', '/machine:x64', f'/out:{libd}/vrt.lib']); lib = open(f'{libd}/vrt.lib', 'rb').read()
    def one(i):
        r = random.Random(base + i); g = dbggen.Gen(r); files = g.program(); d = hv.newdir(); log = []; how = r.choice(['dll', 'dll', 'objects', 'object'])
        key = f'{how}-{i}-{hashlib.md5("".join(files.values()).encode()).hexdigest()[:8]}'
        def bad(t): log.append(t)
        try:
            for n, t in files.items(): open(f'{d}/{n}', 'w').write(t)
            open(f'{d}/vrt.lib', 'wb').write(lib); cs = [n for n in files if n.endswith('.c')]
            if how == 'dll': h = D.h(' '.join(cs) + ' vrt.lib /dll /quiet /out:p.dll', d)
            elif how == 'object': h = D.h(' '.join(cs) + ' /c /quiet /out:o.obj', d); objs = [f'{d}/o.obj']
            else:
                objs = []
                for n in cs:
                    h = D.h(f'{n} /c /quiet', d, tag=n[0]); objs.append(f'{d}/{n[0]}.obj')
                    if h.code: break
            if h.code != 0 or h.crashed:
                if h.crashed or h.code not in (0, 1): c.case(); c.violation(key, 'compiler: ' + D.h.explain(h.report) + '\n' + h.text[-400:], files); return
                c.inconclusive += 1; c.count('not_compiled'); c.sample(f'{key}: {errors(h.text)[:300]}'); return
            if how != 'dll':
                ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib', '/debug', f'/pdb:{d}/p.pdb', *objs, f'{d}/vrt.lib', *hv.support_obj(), f'/out:{d}/p.dll'])
                if not ok or 'warning' in t: c.case(); c.violation(key, 'lld: ' + t[:500], files); return
            if not os.path.exists(f'{d}/p.pdb'): c.case(); c.violation(key, 'no PDB was written', files); return
            P = pdbfile.PDB(open(f'{d}/p.pdb', 'rb').read(), how == 'dll'); c.case(('structure', how))
            for e in P.E: bad('PDB: ' + e)
            for k, v in P.n.items(): c.count(k.replace(' ', '_'), v)
            if not P.E:
                rr, out = D.run(f'{d}/p.dll', d, 'p', mark=f'{d}/marks')
                if rr.code != 0: c.inconclusive += 1; c.count('program_stopped'); c.sample(f'{key}: {rr.report}'); return
                judge(c, g, files, d, P, how, bad)
            if log: c.violation(key, '\n'.join(log[:12]), files)
        finally: __import__('shutil').rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(700, 6000)))
    # large inputs: long field lists, many types, a PDB of more than one free page map interval
    def large(k):
        r = random.Random(base ^ k); d = hv.newdir(); members, consts, funcs, w, ndims, how = [(1500, 4000, 500, 40, 3, 'dll'), (1500, 4000, 300, 40, 3, 'obj'), (20, 20, 4500, 60, 40, 'dll'), (20, 30, 20000, 150, 10, 'dll'), (9000, 20000, 100, 100, 3, 'dll'), (100, 100, 8000, 60, 3, 'obj')][k]
        try:
            L = ['struct B {']; off = 0; want = {}
            for i in range(members): n = f'm{i}_' + 'x' * r.randint(0, w); z, t = r.choice([(1, 'char'), (4, 'int'), (8, 'double'), (2, 'short')]); off = (off + z - 1) // z * z; L.append(f'{t} {n};'); want[n] = off; off += z
            L += ['};', 'enum C {']; cs = {}
            for i in range(consts): n = f'c{i}_' + 'y' * r.randint(0, w); v = r.choice([i, -i, i * 70000, -i * 50000]); cs[n] = v; L.append(f'{n} = {v},')
            L += ['};', 'struct B b;', 'enum C e;']
            for i in range(funcs): L.append(f'struct S{i}_{"s" * w} {{ int m; short a[{i % ndims + 1}]; }};\nint f{i}_{"f" * w}(struct S{i}_{"s" * w} *p){{\n int l{i} = p->m;\n return l{i} + b.{list(want)[0]};\n}}')
            L.append('__declspec(dllexport) void *g(int i){ static void *z[] = {' + ','.join(f'f{i}_{"f" * w}' for i in range(funcs)) + '}; e = 0; return z[i]; }')
            open(f'{d}/a.c', 'w').write('\n'.join(L) + '\n')
            h = D.h('a.c ' + ('/c' if how == 'obj' else '/dll') + ' /quiet', d); key = f'large-{k}'
            if h.code != 0: c.case(); c.violation(key, 'compiler: ' + D.h.explain(h.report) + h.text[-300:], {}); return
            if how == 'obj':
                ok, t = hv.lld(['/dll', '/noentry', '/nodefaultlib', '/debug', f'/pdb:{d}/a.pdb', f'{d}/a.obj', *hv.support_obj(), f'/out:{d}/a.dll'])
                if not ok or 'warning' in t: c.case(); c.violation(key, 'lld: ' + t[:500], {}); return
            b = open(f'{d}/a.pdb', 'rb').read(); P = pdbfile.PDB(b, how == 'dll'); c.case(('large', k)); c.count('large_pdb_megabytes', len(b) >> 20); bad = list(P.E)
            for k_, v in P.n.items(): c.count(k_.replace(' ', '_'), v)
            if not bad:
                t = P.find('struct', 'B'); F = {x[1]: x[3] for x in P.fields(P.udt(t)[3])} if t else {}
                if F != want: x = [n for n in want if F.get(n) != want[n]]; bad.append(f'struct B: {len(F)} of {len(want)} members, wrong: {x[:3]}')
                t = P.find('enum', 'C'); F = {x[1]: x[2] for x in P.fields(P.udt(t)[3])} if t else {}; cv = {n: v for n, v, _ in P.consts}
                if F != cs: x = [n for n in cs if F.get(n) != cs[n]]; bad.append(f'enum C: {len(F)} of {len(cs)} constants, wrong: {x[:3]}')
                if how == 'dll' and cv != cs: bad.append(f'{len(cv)} of {len(cs)} constants')
                fs = {f['name']: f for f in P.funcs}; byf = {}
                for x in P.lines: byf.setdefault(x[4] if how == 'dll' else None, []).append(x)
                for i in r.sample(range(funcs), min(funcs, 300)):
                    f = fs.get(f'f{i}_{"f" * w}')
                    if not f: bad.append(f'no function {i}'); break
                    sg = P.sig(f['type'] if not f['id'] else struct.unpack_from('<I', P.ipi[f['type'] - 0x1000][1], 4)[0]); sz = (4 + 2 * (i % ndims + 1) + 3) // 4 * 4
                    if sg != f'f(i4;p(S:S{i}_{"s" * w}:{sz}))': bad.append(f'function {i} has type {sg}'); break
                    if not any(v[1] == f'l{i}' for v in f['vars']): bad.append(f'l{i} is not visible'); break
            if bad: c.violation(key, '\n'.join(bad[:8]), {})
        finally: __import__('shutil').rmtree(d, ignore_errors=True)
    c.map(large, range(c.n(3, 6)))
    def names(i):                                              # names which do not fit into a debug record, and names around that size
        r = random.Random(base + 77 + i); n = r.choice([4094, 32760, 61430 + r.randrange(30), 65470 + r.randrange(70), 70000, 140000]); x = r.choice('abxyz') * n; how = ('dll', 'object')[i % 2]; d = hv.newdir(); key = f'name-of-{n}-{how}'
        t = [f'__declspec(dllexport) int {x}f(int {x}p){{ int {x}l = {x}p; return {x}l; }}', f'struct {x}s {{ int a; struct {x}s *p; }}; struct {x}s {x}v; __declspec(dllexport) int g1(void){{ return {x}v.a; }}', f'enum {x}e {{ {x}E = 3 }}; enum {x}e {x}w = {x}E; __declspec(dllexport) int g2(void){{ return {x}w; }}',
            f'typedef int {x}t; {x}t {x}k = 5; __declspec(dllexport) int g3(void){{ return {x}k; }}', f'static int {x}h(void){{ static int {x}i = 4; return {x}i++; }} __declspec(dllexport) int g4(void){{ return {x}h(); }}', f'__declspec(dllexport) int g5(int a){{ struct {{ int {x}m, b; }} v; v.{x}m = a; return v.{x}m; }}']
        r.shuffle(t); t = t[:r.randint(1, 6)]; src = '\n'.join(t) + '\n__declspec(dllexport) int last(int parameter){ return parameter; }\n'
        try:
            open(f'{d}/t.c', 'w').write(src); h = D.h('t.c /quiet ' + ('/dll /no_entry /out:p.dll' if how == 'dll' else '/c /out:o.obj'), d); c.case(('names', n, how, len(t)))
            if h.code != 0 or h.crashed or 'ASSERT FIRED' in (h.text or ''): c.violation(key, 'compiler: ' + D.h.explain(h.report) + '\n' + h.text[-300:], {'t.c': src}); return
            if how == 'object':
                ok, e = hv.lld(['/dll', '/noentry', '/nodefaultlib', '/debug', f'/pdb:{d}/p.pdb', f'{d}/o.obj', *hv.support_obj(), f'/out:{d}/p.dll'])
                if not ok or 'error' in e or 'warning' in e.replace('warning: empty symbols subsection', ''): c.violation(key, 'lld: ' + e[:300], {'t.c': src}); return
            P = pdbfile.PDB(open(f'{d}/p.pdb', 'rb').read(), how == 'dll'); e = P.E if how == 'dll' else [] # (lld cuts public names elsewhere)
            last = [f for f in P.funcs if f['name'] == 'last']
            if e or len(last) != 1: c.violation(key, f'{len(last)} functions last; ' + '; '.join(y[:200] for y in e[:3]), {'t.c': src}); return
            got = [f for f in P.funcs if len(f['name']) > 4000]
            if any(t_.startswith('__declspec(dllexport) int ' + x) for t_ in t) and not any((x + 'f').startswith(f['name']) for f in got): c.violation(key, 'the function with the long name is not described', {'t.c': src})
            c.count('long_names')
        finally: hv.shutil.rmtree(d, ignore_errors=True)
    c.map(names, range(c.n(16, 120)))


def base(f): return re.split(r'[/\\]', f)[-1]


def judge(c, g, files, d, P, how, bad):
    b = open(f'{d}/p.dll', 'rb').read(); I = pe.PE(b); strict = how == 'dll'
    # the PDB belongs to the image
    if strict:
        p = [(x[0], x[1], x[2]) for x in P.sections]; q = [(x['name'], x['vsize'], x['rva']) for x in I.S]
        if p != q: bad(f'section headers: {p} in the PDB, {q} in the image')
    k = b.find(b'RSDS')
    if k < 0: bad('the image has no reference to the PDB')
    else:
        guid, age = b[k + 4:k + 20], struct.unpack_from('<I', b, k + 20)[0]; c.case(('identity', how))
        if guid != P.guid: bad('GUID of image and PDB differ')
        if age != (P.dbiage or P.age): bad(f'age {age} in the image, {P.age}/{P.dbiage} in the PDB')
        nm = b[k + 24:b.find(b'\0', k + 24)].decode('latin1')
        if base(nm) != 'p.pdb': bad(f'the image names {nm}')
    for f, (_, kind, digest) in P.files.items():
        if base(f) in files:
            c.case(('checksum', how))
            want = {1: hashlib.md5, 2: hashlib.sha1, 3: hashlib.sha256}.get(kind)
            if want and want(files[base(f)].encode()).digest() != digest: bad(f'checksum of {f}')
    # functions
    own = {}
    for f in g.funcs: own.setdefault(f['name'], []).append(f)
    ranges = {}
    for f in P.funcs:
        if f['name'] in own:
            o = own[f['name']][0]; c.case(('function', how, o['sig'] if len(o['sig']) < 60 else 'long')); ranges.setdefault(f['name'], []).append(f)
            if (f['kind'] == 'l') != o['static']: bad(f'{f["name"]} is {"static" if o["static"] else "external"}, symbol {f["kind"]}')
            t = f['type']
            if f['id'] and t: t = struct.unpack_from('<I', P.ipi[t - 0x1000][1], 4)[0]
            s = P.sig(t) if t else None
            if s is None: bad(f'{f["name"]} has no type')
            elif not sigmatch(o['sig'], s): bad(f'type of {f["name"]}: {s}, declared {o["sig"]}')
    pd = {x[0]: x[1] for x in I.rf}
    for f in P.funcs:
        if not 1 <= f['seg'] <= len(P.sections): bad(f'{f["name"]} in section {f["seg"]}'); continue
        a = P.sections[f['seg'] - 1][2] + f['off']
        if f['name'] in own and pd:
            if a not in pd: bad(f'{f["name"]} at {a:x} has no unwind information there')
            elif pd[a] != a + f['len']: bad(f'{f["name"]} {a:x}+{f["len"]:x}, unwind information until {pd[a]:x}')
            c.case(('range', how))
    fs = sorted((f['seg'], f['off'], f['len'], f['name']) for f in P.funcs)
    for x, y in zip(fs, fs[1:]):
        if x[0] == y[0] and x[1] + x[2] > y[1]: bad(f'functions {x[3]} and {y[3]} overlap')
    # the lines of every function stay inside of its source
    byname = {}
    for f in P.funcs: byname.setdefault(f['name'], []).append(f)
    for n, fl in byname.items():
        if n not in own: continue
        for f in fl:
            L = sorted((x[1], x[2], x[3]) for x in P.lines if x[0] == f['seg'] and f['off'] <= x[1] < f['off'] + f['len'])
            if not L: bad(f'{n} has no lines'); continue
            if L[0][0] != f['off']: bad(f'the lines of {n} start {L[0][0] - f["off"]} bytes after its start')
            for a, fn, l in L:
                o = own[n][0]; c.count('lines_checked')
                if base(fn) != o['file'] or not o['first'] <= l <= o['last']: bad(f'{n} ({o["file"]}:{o["first"]}-{o["last"]}) has code of {base(fn)}:{l}'); break
            c.case(('lines of function', how))
    # what the program said
    seen = set(); pubs = {}
    for nm, seg, off, fl, _ in P.publics: pubs.setdefault(nm, (seg, off))
    consts = {}
    for n, v, t in P.consts: consts.setdefault(n, set()).add(v)
    data = {}
    for x in P.data: data.setdefault(x['name'], []).append(x)
    for l in open(f'{d}/marks'):
        i, ret, im, ptr, rel, *slots = l.split(); i = int(i, 16); ret = int(ret, 16); ptr = int(ptr, 16); rel = int(rel); m = g.marks[i]
        if (i, ret, ptr, rel) in seen: continue
        seen.add((i, ret, ptr, rel)); so = P.segoff(ret - 1)
        if so is None: bad(f'mark {i}: called from {ret:x}, outside of the sections'); continue
        # the line of the call
        ln = P.line_at(*so); c.case(('line', how, m['lines'][1] - m['lines'][0])); where = f'{m["file"]}:{m["lines"][0]}-{m["lines"][1]}'
        if ln is None: bad(f'no line for the call at {where}')
        elif base(ln[0]) != m['file'] or not m['lines'][0] <= ln[1] <= m['lines'][1]: bad(f'the call at {where} is at {base(ln[0])}:{ln[1]} in the line information')
        what = m['what']; c.count('marks_' + what)
        if what == 'local':
            f = P.func_at(*so)
            if f is None or f['name'] != m['func']: bad(f'{where}: in function {f and f["name"]} instead of {m["func"]}'); continue
            v = next((x for x in P.vars_at(*so) if x[1] == m['name']), None); c.case(('local', how, m['sig'] if len(m['sig']) < 50 else 'long'))
            if v is None: bad(f'{where}: {m["name"]} is not visible'); continue
            if v[2] != 334: bad(f'{where}: {m["name"]} relative to register {v[2]}')
            elif P.sig(v[4])[0] == 'r': # a reference: its slot holds the address
                if str(v[3]) not in slots: bad(f'{where}: {m["name"]} is described as a reference at rbp{v[3]:+}, the address is at rbp+{slots}')
                c.count('arguments_by_reference'); v = (*v[:4], struct.unpack_from('<I', P.rec(v[4])[1])[0])
            elif v[3] != rel: bad(f'{where}: {m["name"]} is at rbp{rel:+}, rbp{v[3]:+} in the debug information')
            if not sigmatch(m['sig'], P.sig(v[4])): bad(f'{where}: {m["name"]} has type {P.sig(v[4])}, declared {m["sig"]}')
        elif what in ('global', 'static'):
            want = P.segoff(ptr) if im == '1' else None; e = [x for x in data.get(m['name'], []) if (x['seg'], x['off']) == want]
            if what == 'static' and m['name'] not in data: c.count('static_local_without_symbol'); continue
            c.case((what, how, m['sig'] if len(m['sig']) < 50 else 'long'))
            if not e: bad(f'{where}: {m["name"]} is at {want}, debug information: {[(x["seg"], x["off"]) for x in data.get(m["name"], [])]}'); continue
            if not sigmatch(m['sig'], P.sig(e[0]['type'])): bad(f'{where}: {m["name"]} has type {P.sig(e[0]["type"])}, declared {m["sig"]}')
            if what == 'global' and (e[0]['kind'][0] == 'l') != m['static']: bad(f'{where}: {m["name"]} is {"static" if m["static"] else "external"}, its symbol {e[0]["kind"]}')
        elif what == 'const':
            c.case(('const', how, len(str(ptr)))); v = ptr - (1 << 64) if ptr >> 63 else ptr; t = P.find('enum', m['enum']); vals = []
            if t:
                fl = P.udt(t)[3]; vals = [x[2] for x in P.fields(fl) if x[1] == m['name']] if fl else []
                if vals != [v]: bad(f'{where}: {m["name"]} is {v}, {vals} in enum {m["enum"]}')
            if strict and not t: bad(f'{where}: no enum {m["enum"]}')
            if m['name'] in consts and consts[m['name']] != {v}: bad(f'{where}: {m["name"]} is {v}, the constant is {sorted(consts[m["name"]])}')
            if strict and m['name'] not in consts: bad(f'{where}: no constant {m["name"]}')
        else:
            s = m['s']; t = P.find('struct' if s['k'] == 'S' else 'union', s['name'])
            if t is None: (bad(f'{where}: no type {s["name"]}') if strict else c.count('type_not_described')); continue
            k, nm, sz, fl, _ = P.udt(t); c.case((what, how, m.get('sig', '')[:40]))
            if not fl:
                if strict: bad(f'{where}: {nm} has no members')
                continue
            F = {x[1]: x for x in P.fields(fl) if x[0] == 'member'}
            if what == 'sizeof':
                if sz != ptr: bad(f'{where}: size of {nm} is {ptr}, {sz} in the debug information')
            elif m['member'] not in F: bad(f'{where}: {nm} has no member {m["member"]}')
            elif what == 'offset':
                if F[m['member']][3] != ptr: bad(f'{where}: {nm}.{m["member"]} is at {ptr}, {F[m["member"]][3]} in the debug information')
                if not sigmatch(m['sig'], P.sig(F[m['member']][2])): bad(f'{where}: {nm}.{m["member"]} has type {P.sig(F[m["member"]][2])}, declared {m["sig"]}')
            elif what == 'bits':
                _, _, ty, off = F[m['member']]
                if ty < 0x1000 or P.rec(ty)[0] != 0x1205:
                    if m['width'] != 8 * int(m['sig'][1:]) or off * 8 != ptr: bad(f'{where}: {nm}.{m["member"]} is no bit-field (bit {ptr}, {m["width"]} bits): {P.sig(ty)} at {off}')
                    continue
                bt, ln_, pos = struct.unpack_from('<IBB', P.rec(ty)[1])
                if off * 8 + pos != ptr or ln_ != m['width']: bad(f'{where}: {nm}.{m["member"]} is {m["width"]} bits at bit {ptr}, debug information: {ln_} bits at {off * 8 + pos}')
                if P.sig(bt) != m['sig']: bad(f'{where}: {nm}.{m["member"]} has type {P.sig(bt)}, declared {m["sig"]}')
    for n, (seg, off) in pubs.items():
        if n in byname and not any((f['seg'], f['off']) == (seg, off) for f in byname[n]): bad(f'public {n} at {seg}:{off}, the function is elsewhere')
    for n, t in g.typedefs:
        u = [ty for x, ty in P.udts if x == n]
        if u: c.case(('typedef', how)); any(sigmatch(t.sig, P.sig(x)) for x in u) or bad(f'typedef {n} is {P.sig(u[0])}, declared {t.sig}')
        else: c.count('typedefs_not_described')


def sigmatch(want, got):
    """want has * as the size of a struct; got has .. where a pointer is not followed further"""
    i = j = 0
    while i < len(want) and j < len(got):
        if got.startswith('..', j): # skip to the closing bracket
            n = 0
            while i < len(want) and (n or want[i] != ')'): n += {'(': 1, ')': -1}.get(want[i], 0); i += 1
            j += 2
        elif want.startswith('v0', i) and got[j] in 'vn':
            i += 2; j += 1
        elif want[i] == '*' and want[i - 1] == ':':
            i += 1
            while j < len(got) and got[j] not in '(),;': j += 1
        elif want[i] != got[j]: return False
        else: i += 1; j += 1
    return i == len(want) and j == len(got)
