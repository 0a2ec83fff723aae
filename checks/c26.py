"""Command line options: random option sets in random spelling, order and placement over a small project; a model of the documented effects predicts the files produced, the header fields, macros, include order, entry point and diagnostics."""
import os, random, re, shutil, struct
import hv, pe, coff

MAGIC = 0x4e5f11a7c26d03b9
# documented warnings -> (number of the source line below, text); each is reported by a line of its own
WARN = [('junk_after_directive', '#ifdef NOPE\n#else junk\n#endif'), ('compile_time_multiplication_by_zero', 'int f3(int a){ a *= 0; return a; }'), ('shadowing_local', 'int f4(void){ int a = 0; { int a = 1; a++; } return a; }'),
        ('shadowing_in_same_scope', 'int f6(void){ int a = 1; int a = 2; return a; }'), ('type_mismatch', 'int f7(void){ int a = 1.0; return a; }'), ('compile_time_truncation', 'char trunc8 = 0x1234;'), ('unsigned_negation', 'unsigned neg9 = -123u;'),
        ('unsupported_declspec', '__declspec(moose) int dm10;'), ('does_not_declare_anything', 'struct{ int a; };'), ('undefined_static_if_operand', '#if UNDEFINED\n#endif'), ('undef_on_undefined', '#undef UNDEFINEDX'), ('unsupported_pragma', '#pragma moose()'),
        ('unused_local_variable', 'int f14(void){ int unused; return 1; }'), ('local_variable_only_ever_written', 'int f15(void){ int w = 1337; w = 1338; return 2; }'), ('casting_u64_to_float', 'float f16(unsigned long long u){ return (float)u; }'), ('double_specifier', 'static static int st17 = 0; int *p17 = &st17;'),
        ('assignment_in_condition', 'int f18(int a){ if(a = 1) return 3; return a; }'), ('extension_used', "unsigned long long f19(void){ unsigned long long u = 'abcdefgh'; return u; }"), ('missing_return', 'int f20(int a){ if(a) return 1; }'), ('return_in_noreturn_function', '__declspec(noreturn) int f21(void){ return 1; }'),
        ('function_alignment', '_Alignas(16) int f22(void){ return 0; }'), ('redefining_declaration_from_extern_to_static', 'int f24(void);\nstatic int f24(void){ return 0; } int f24b(void){ return f24(); }'), ('inline_function_is_implicitly_external', 'int f25(void);\ninline int f25(void){ return 0; } int f25b(void){ return f25(); }'),
        ('incompatible_redefinition_of_macro', '#define mac26(a) a\n#define mac26(x) 123'), ('extraneous_semicolon', ';'), ('octal_constant_used', 'int oct29 = 0420;'), ('declaration_differs_in_attribute', '__declspec(dllexport) int ex30; int ex30;'), ('pragma_pack_show', '#pragma pack(show)'),
        ('pragma_pack_pop_unknown_identifier', '#pragma pack(push, hi)\n#pragma pack(pop, bye)\n#pragma pack(pop, hi)'), ('pragma_pack_pop_with_empty_stack', '#pragma pack(push, 1)\n#pragma pack(pop)\n#pragma pack(pop)'), ('integer_literal_too_large_to_be_signed', 'unsigned long long ill = 18446744073709551615;'),
        ('incorrect_format_specifier', '__declspec(printlike) int pr(char *fmt, ...){ return fmt != 0; } int f33(void){ return pr("%s", 1); }'), ('unknown_format_specifier', '__declspec(printlike) int pr2(char *fmt, ...){ return fmt != 0; } int f34(void){ return pr2("%q", 1); }'), ('relative_include_is_treated_as_system_include', '#include "wsub.h"')]
DIAG = re.compile(r'^[^\n(]*?([^/\n(]+)\((\d+),(\d+)\): (Warning (\d+)|[^\n]*?[Ee]rror)', re.M)
SHORT = {'out', 'o', 'Fe', 'Fo', 'I', 'D', 'W', 'Wno', 'wd', 'l', 'Fi', 'MF', 'std', 'c', 'LD', 'EP', 'P', 'MP', 'MD', 'MDd', 'MT', 'MTd', 'LDd'}
JOIN = {'o', 'Fe', 'Fo', 'out', 'I', 'D', 'wd', 'W', 'Wno', 'l', 'Fi', 'MF', 'std'}


def spell(r, name, arg=None):
    """one of the spellings the documentation of the command line allows -> list of arguments"""
    n = name
    if name not in SHORT:
        if r.random() < .3: n = n.replace('_', '')
        if r.random() < .2: n = n.replace('_', '-')
        k = r.random()
        if k < .15: n = n.upper()
        elif k < .25: n = ''.join(c.upper() if r.random() < .5 else c for c in n)
    n = r.choice(['/', '-', '--']) + n
    if arg is None: return [n]
    k = r.random()
    if name in JOIN and k < .35 and arg and arg[0] not in ':=': return [n + arg]
    if k < .6: return [n + r.choice(':=') + arg]
    return [n, arg]


def ls(d): return {f for f in os.listdir(d) if not f.endswith('.out')}


def q(a): return f'"{a}"' if ' ' in a or not a else a


def shuffle(r, opts):
    r.shuffle(opts); return [x for o in opts for x in o]


def command(r, d, args):
    """the arguments on the command line, some of them through a command file"""
    if r.random() < .12 and len(args) > 2:
        # options and their arguments must stay together: everything goes to the file
        t = ' '.join(q(a) for a in args); u16 = r.random() < .3
        open(f'{d}/cmd.rsp', 'wb').write(b'\xff\xfe' + t.encode('utf-16le') if u16 else t.encode()); return '@cmd.rsp', {'cmd.rsp'}, t
    t = ' '.join(q(a) for a in args); return t, set(), t


def values(b):
    i = b.find(struct.pack('<Q', MAGIC)); return None if i < 0 else i


def run(c):
    c.rule = 'an option set in one spelling over the project; distinct = (outcome, options used)'
    c.assume = ['the documented effects (hlc --help, meta_programs/hlc.cli and the comments of parse_cli.c) as modelled in checks/c26.py', 'hlc /W* selects diagnostics only; numbers of the warnings are learned from a run with /Wall']
    h = hv.Hlc('plain'); base = c.rng.getrandbits(48)
    def mk(d, files):
        for n, t in files.items(): os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True); open(f'{d}/{n}', 'w').write(t)
    def tree(d): return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs if not f.endswith('.out')}

    def image(i):
        r = random.Random(base + i); d = hv.newdir(); log = []
        def bad(key, t): c.violation(f'{key}', t + '\n' + '\n'.join(log), {'cmd.txt': '\n'.join(log)})
        try:
            opts = []; used = set(); O = lambda n, a=None: (opts.append(spell(r, n, a)), used.add(n))
            src = r.choice(['a.c', 'first.c', 'sub/a.c', 'na me.c', 'x.y.c']); stem = os.path.splitext(os.path.basename(src))[0]
            # include directories
            idirs = [x for x in ['i1', 'i2', 'dir with space', 'i3/deep'] if r.random() < .5]; r.shuffle(idirs); files = {}; H = Q = None
            for k, x in enumerate(idirs):
                files[x + '/keep.h'] = ''
                if r.random() < .6: files[x + '/h.h'] = f'#define H {k + 10}\n'; H = H or k + 10
                if r.random() < .5: files[x + '/q.h'] = f'#define Q {k + 20}\n'; Q = Q or k + 20
            if r.random() < .4: files[os.path.join(os.path.dirname(src), 'q.h')] = '#define Q 99\n'; Q = 99
            for x in idirs: opts.append(('I', x))
            # macros
            dl = []; macros = {}
            for k in range(r.choice([0, 1, 1, 2, 4])):
                n = f'M{k}'; f = r.choice(['{n}', '{n}=7', '{n}=0x10', '{n}=(1+2)', '{n}#5', '{n}=', '{n}={n}', "{n}='a'", '{n}=sizeof(int)', '{n}=M9'])
                macros[n] = {'{n}': 1, '{n}=7': 7, '{n}=0x10': 16, '{n}=(1+2)': 3, '{n}#5': 5, '{n}=': 0, '{n}={n}': 1000 + k, "{n}='a'": 97, '{n}=sizeof(int)': 4, '{n}=M9': 1009}[f]; opts.append(('D', f.format(n=n)))
            nopre = r.random() < .15
            if nopre: O('no_predefines')
            std = r.choice([None, None, 'c99', 'c11', 'c17', 'c23', 'clatest'])
            if std: O('std', std)
            md = r.choice([None, None, None, 'MD', 'MDd', 'MT', 'MTd'])
            if md: O(md)
            # entry points
            cands = [x for x in ['_start', 'DllMain', 'efi_main', 'EfiMain', 'my_entry', 'main'] if r.random() < .45]
            ft = r.choice([None, None, 'exe', 'dll', 'obj', 'efi']); flags = set()
            k = r.choice(['flag', 'ext']) if ft else None
            out = r.choice([None, None, 'out', 'od', 'od/named', 'x.y', 'n n.bin'])
            if ft == 'dll' and k == 'flag': O(r.choice(['dll', 'LD', 'LDd', 'dll'])); flags.add('dll')
            elif ft == 'obj' and k == 'flag': O(r.choice(['obj', 'c'])); flags.add('obj')
            elif ft: out = r.choice(['o', 'od/o']) + '.' + ft
            if out and out.startswith('od'): files['od/keep.txt'] = ''
            if out: O(r.choice(['out', 'o', 'Fe', 'Fo']), out)
            typ = 'dll' if 'dll' in flags else 'obj' if 'obj' in flags else os.path.splitext(out)[1][1:] if out and os.path.splitext(out)[1][1:] in ('exe', 'dll', 'obj', 'efi') else None
            entry = None; noentry = False
            k = r.random()
            if k < .15: O('no_entry'); noentry = True
            elif k < .35: entry = r.choice(cands + ['my_entry', 'missing']); O('entry', entry)
            if typ is None and noentry: typ = 'dll'
            subs = {None: 0, 'console': 3, 'windows': 2, 'efi_application': 10}; sub = r.choice([None, None, None, 'console', 'windows', 'efi_application'])
            if sub: O('subsystem', r.choice([sub, sub.upper()]) if sub != 'efi_application' else sub)
            sv = subs[sub]
            if sv == 0 and typ == 'dll': sv = 2
            if typ == 'obj': noentry = True
            base_ = r.choice([None, None, None, 0x150000000, 0x7ff600000000, 0x10000, 0x200000000])
            if base_: O('image_base', r.choice([hex(base_), str(base_)]))
            ndb = r.random() < .25
            if ndb: O('no_dynamic_base')
            nodbg = r.random() < .35
            if nodbg: O('no_debug')
            k = r.random()
            if k < .15: O('MP')
            elif k < .4: O('thread_count', str(r.randint(1, 6)))
            if r.random() < .2: O('incremental', r.choice(['no', 'yes']))
            if r.random() < .1: O('MF', 'dep.d')
            quiet = r.random() < .5
            if quiet: O(r.choice(['quiet', 'no_logo']))
            sc = r.random() < .06
            if sc: O('syntax_check')
            si = r.random() < .2
            if si: O('show_includes')
            if r.random() < .2: O('warning_limit', str(r.randint(0, 9)))
            if r.random() < .1: O('Wnone')
            two = r.random() < .4; needstd = 'main' in cands and not noentry and (entry is None)
            # which entry point
            order = [('exe', 3, '_start'), ('exe', 3, 'main'), ('dll', 2, 'DllMain'), ('efi', 10, '_start'), ('efi', 10, 'efi_main'), ('efi', 10, 'EfiMain')]
            ep = None; ft2, sv2 = typ, sv
            if not noentry:
                for t, s, n in order:
                    if typ and t != typ or sv and s != sv: continue
                    if entry and n != entry: continue
                    if not entry and n not in cands: continue
                    ep, ft2, sv2 = n, t, s; break
                if not ep and entry: ep = entry
                elif not ep and typ == 'dll': noentry = True
                if ft2 is None: ft2 = 'exe'
            if ft2 is None: ft2 = 'exe'
            if sv2 == 0: sv2 = {'exe': 3, 'dll': 2, 'efi': 10, 'obj': 0}[ft2]
            if ep != 'main' or noentry:
                if r.random() < .8 or True: O('no_stdlib')
            fail = None
            if entry and ('no_entry' in used): fail = 'both'
            elif not noentry and (ep is None or ep not in cands): fail = 'entry'
            # the sources
            ve = ['M9_', 'H_', 'Q_'] ; T = ''
            if H: T += '#include <h.h>\n'
            if Q: T += '#include "q.h"\n'
            T += ''.join(f'enum {{ {n}_e = {1000 + int(n[1:])} }};\n' for n in macros)
            vals = [('H', H or 0, 'H' if H else '0'), ('Q', Q or 0, 'Q' if Q else '0')]
            for n, v in macros.items(): vals.append((n, v, f'({n} + 0)' if v not in (0,) else f'(0 {n} + 0)'))
            pre = ''.join(f'int M{k};\n' for k in range(0))
            P = {'_WIN64': 1, '_M_X64': 100, '_MSC_VER': 1928, '__STDC_NO_VLA__': 1, '__HLC__': 1, '_DLL': 1 if md in ('MD', 'MDd') else 0, '_MT': 1 if md else 0, '_DEBUG': 1 if md in ('MDd', 'MTd') else 0}
            for n, v in P.items(): vals.append((n, 0 if nopre else v, f'defd_{n}')); T += f'#ifdef {n}\n#define defd_{n} {n}\n#else\n#define defd_{n} 0\n#endif\n'
            S = {'c99': 199901, 'c11': 201112, 'c17': 201710, 'c23': 202311, 'clatest': 202311}
            if std: vals.append(('__STDC_VERSION__', 0 if nopre else S[std], 'defd_sv')); T += '#ifdef __STDC_VERSION__\n#define defd_sv __STDC_VERSION__\n#else\n#define defd_sv 0\n#endif\n'
            T += 'enum { ' + ', '.join([f'M{k} = {1000 + k}' for k in (0, 1, 2, 3, 9) if f'M{k}' not in macros or macros[f'M{k}'] == 1000 + k]) + ' };\n'
            T += f'__declspec(dllexport) unsigned long long val[] = {{ {MAGIC}ull, {len(vals)}, ' + ', '.join(x[2] for x in vals) + ' };\n'
            T += '__declspec(dllexport) void *ptr_for_reloc = &val;\n'
            defs = ''.join((f'int {n}(void){{ return {0x5eed0000 + k}; }}\n' if n != 'DllMain' else f'int DllMain(void *a, unsigned b, void *c){{ return {0x5eed0000 + k}; }}\n') if n != 'main' else f'int main(void){{ return {0x5eed0000 + k}; }}\n' for k, n in [(k, n) for k, n in enumerate(['_start', 'DllMain', 'efi_main', 'EfiMain', 'my_entry', 'main']) if n in cands])
            mk(d, files); names = [src]
            if two: mk(d, {src: T, 'b.c': defs}); names.append('b.c')
            else: mk(d, {src: T + defs})
            # the order of -I and -D stays, everything else moves
            rest = [x for x in opts if isinstance(x, list)]; fixed = [spell(r, *x) for x in opts if isinstance(x, tuple)] + [[n] for n in names]; r.shuffle(rest); seq = []
            pool = rest[:]; fx = [('f', x) for x in fixed]
            slots = sorted(r.sample(range(len(pool) + len(fx)), len(fx))) if fx else []
            for k in range(len(pool) + len(fx)): seq.append(fx.pop(0)[1] if k in slots else pool.pop(0))
            # -I must keep its own order, sources theirs
            args = [x for y in seq for x in y]; cmd, extra, shown = command(r, d, args); log.append(f'hlc {shown}'); log.append(f'expected: {fail or ft2} subsystem {sv2} entry {ep if not noentry else None}')
            before = tree(d); o = h(cmd, d, tag='i'); after = tree(d)
            for p in sorted(after - before): log.append('made ' + p)
            log.append(o.text[-500:]); key = f'options-{i}-{base & 0xffff:x}'
            c.case((ft2 if not fail else fail, tuple(sorted(used))))
            if o.crashed or o.timeout or o.code is None: bad(key, f'ended with {o.report}'); return
            if fail == 'both' or fail == 'entry' and not sc:
                if o.code == 0: bad(key, 'succeeded instead of failing'); return
                if after != before: bad(key, f'failed, but made {sorted(after - before)}'); return
                c.count('rejected'); return
            if o.code != 0: bad(key, f'exit status {o.code}'); return
            if sc:
                if after != before: bad(key, 'made files although only checking'); return
                c.count('checked_only'); return
            # output names
            p = out or stem
            if p == 'od' : p = 'od/' + stem
            if not out: p = stem
            if not os.path.splitext(p)[1]: p += '.' + ft2
            want = {p}
            if ft2 != 'obj' and not nodbg: want.add(os.path.splitext(p)[0] + '.pdb')
            if after - before != want: bad(key, f'files {sorted(after - before)} instead of {sorted(want)}'); return
            b = open(f'{d}/{p}', 'rb').read(); at = values(b)
            if at is None: bad(key, 'the exported data is missing'); return
            n, *got = struct.unpack_from(f'<{1 + len(vals)}Q', b, at + 8)
            for g, (nm, v, _) in zip(got, vals):
                if g != v: bad(key, f'{nm} is {g} instead of {v}'); return
            c.count('macro_values', len(vals))
            if quiet and ft2 != 'obj' and not si and any(x.strip() and 'arning' not in x for x in o.text.replace('\r', '').split('\n')): bad(key, f'output although quiet'); return
            if si:
                inc = [x for x in o.text.replace('\r', '').split('\n') if x.strip().endswith(('.h', '.c')) and ':/' in x and not x.startswith('   [')]; inc = [x.strip() for x in inc]
                exp = [src]
                if H: exp.append(next(x + '/h.h' for x in idirs if x + '/h.h' in files))
                if Q: exp.append(os.path.join(os.path.dirname(src), 'q.h') if Q == 99 else next(x + '/q.h' for x in idirs if x + '/q.h' in files))
                for x in exp:
                    if not any(y.endswith('/' + x) for y in inc): bad(key, f'{x} is not shown among the includes {inc}'); return
                if any('/i' in y and y.endswith('.h') and not any(y.endswith('/' + x) for x in exp) and d.split('/')[-1] in y for y in inc): bad(key, f'too many includes: {inc}'); return
                c.count('includes_shown')
            if ft2 == 'obj':
                has = b'.debug$S' in b
                if has == nodbg: bad('no_debug-object' if nodbg else key, f'debug information: {has}'); return
                if md:
                    lib = {'MD': 'MSVCRT', 'MDd': 'MSVCRTD', 'MT': 'LIBCMT', 'MTd': 'LIBCMTD'}[md]
                    m = re.findall(rb'/DEFAULTLIB:"(\w+)"', b)
                    if [x for x in m if x != b'OLDNAMES'] != [lib.encode()]: bad(key, f'default libraries {m} instead of {lib}'); return
                c.count('objects'); return
            P = pe.PE(b, dll=None)
            P.E = [x for x in P.E if not (noentry and 'without entry point' in x)]
            if P.E: bad(key, f'malformed image: {P.E[:3]}'); return
            if bool(P.ch & 0x2000) != (ft2 == 'dll'): bad(key, f'characteristics {P.ch:#x}'); return
            if P.sub != sv2: bad(key, f'subsystem {P.sub} instead of {sv2}'); return
            wb = base_ or (0x180000000 if ft2 == 'dll' else 0x140000000)
            if P.base != wb: bad(key, f'image base {P.base:#x} instead of {wb:#x}'); return
            if bool(P.ch & 1) != ndb or P.dynamic == ndb: bad(key, f'no_dynamic_base={ndb}: characteristics {P.ch:#x} {P.dch:#x}'); return
            if ndb and P.dir[5][1]: bad(key, 'base relocations in spite of no_dynamic_base'); return
            if not ndb and not P.dir[5][1]: bad(key, 'no base relocations'); return
            if bool(P.dir[6][1]) == nodbg: bad(key, f'debug directory {P.dir[6]} with no_debug={nodbg}'); return
            if noentry:
                if P.entry: bad(key, f'entry point {P.entry:#x} instead of none'); return
            else:
                ids = {0x5eed0000 + k: n for k, n in enumerate(['_start', 'DllMain', 'efi_main', 'EfiMain', 'my_entry', 'main'])}
                if ep != 'main':
                    e = P.off(P.entry, 16, 'entry'); w = b[e:e + 64] if e is not None else b''
                    f = min(((w.find(struct.pack('<I', v)), n) for v, n in ids.items() if struct.pack('<I', v) in w), default=(0, None))[1]
                    if f != ep: bad(key, f'the entry point is {f} instead of {ep}'); return
                for v, n in ids.items():
                    here = struct.pack('<I', v) in b
                    if n == ep and not here: bad(key, f'{n} is missing'); return
                    if n != ep and here: bad(key, f'{n} is in the image although nothing refers to it'); return
            c.count('images')
            if i < 3: c.sample('\n'.join(log)[:500])
        finally: shutil.rmtree(d, ignore_errors=True)

    # --- warnings
    wl = {}; text = ''; n = 1
    for nm, t in WARN: wl[nm] = range(n, n + t.count('\n') + 1); text += t + '\n'; n += t.count('\n') + 1
    d0 = hv.newdir(); mk(d0, {'w.c': text, 'inc/wsub.h': 'int wsub;\n'})
    def diags(o): return {(m[1], int(m[2]), int(m[3]), int(m[5])) for m in DIAG.finditer(o.text) if m[5]}
    def wrun(args, tag): return h(f'w.c /c /out:w{tag}.obj /quiet -Iinc {args}', d0, tag=f'w{tag}')
    allw = diags(wrun('/Wall', 'all')); dflt = {x[3] for x in diags(wrun('', 'def'))}; num = {}
    for nm, L in wl.items():
        s = {x[3] for x in allw if x[1] in L}
        o = wrun(f'/Wnone -W {nm}', 'o' + nm); g = diags(o); c.case(('warning', nm))
        ns = {x[3] for x in g}
        if o.code or len(ns) != 1 or not any(x[1] in L for x in g): c.violation('warning-' + nm, f'-Wnone -W {nm} reports {sorted(g)[:4]} (line {L[-1]}: {[x for x in WARN if x[0] == nm][0][1]!r})\n{o.text[:400]}', {'w.c': text}); continue
        num[nm] = ns.pop()
        if {x for x in allw if x[3] == num[nm]} != g: c.violation('warning-' + nm, f'-W {nm} reports {sorted(g)} instead of those of /Wall', {'w.c': text})
    if len(set(num.values())) != len(num): c.violation('warning-numbers', f'several warnings have the same number: {num}')
    c.count('documented_warnings_seen', len(num))
    def warn(i):
        r = random.Random(base + 77777 + i); on = set(dflt); args = []; has = {x[3] for x in allw}
        for _ in range(r.randint(1, 8)):
            k = r.random(); nm = r.choice(sorted(num)); nn = num[nm]; alt = ''.join(r.choice([ch, ch.upper()]) for ch in r.choice([nm, nm.replace('_', '-'), nm.replace('_', '')]))
            v = r.choice([str(nn), nm, alt])
            if k < .1: args += spell(r, 'Wall'); on |= has
            elif k < .2: args += spell(r, 'Wnone'); on = set()
            elif k < .6: args += spell(r, 'W', v) if not v[0].lower() == 'n' else [f'/W:{v}']; on.add(nn)
            else: args += spell(r, r.choice(['Wno', 'Wno', 'wd']), v); on.discard(nn)
        cmd = ' '.join(args); o = wrun(cmd, f'{i}'); want = {x for x in allw if x[3] in on}; got = diags(o); c.case(('warnings', cmd)); c.count('warning_sets_checked')
        if o.code != 0: c.violation(f'warnings-{i}-{base & 0xffff:x}', f'hlc w.c {cmd}: {o.report}\n{o.text[:500]}', {'w.c': text})
        elif got != want: c.violation(f'warnings-{i}-{base & 0xffff:x}', f'hlc w.c {cmd}\nmissing {sorted(want - got)[:5]}\nunwanted {sorted(got - want)[:5]}\n{o.text[:300]}', {'w.c': text})
    c.map(warn, range(c.n(1000, 8000)))

    # --- bad and unknown options, limits, preprocessing only
    d1 = hv.newdir()
    mk(d1, {'e.c': 'int _start(void){ return 1; }\n', 'err.c': ''.join(f'int e{k} = nope{k};\n' for k in range(40)), 'm.c': '#define A(x) x + 1\nint v = A( 2 );\n#include "m.h"\n#ifdef X\nint x = X;\n#endif\n', 'm.h': 'int fromh;\n', 'other.c': 'int oth;\n'})
    BADS = ['/dll /c', '/c /dll', '/thread_count:0', '/thread_count 100000', '/thread_count:2 /MP', '/image_base:xyz', '/image_base', '/out', '/entry', '/subsystem:moon', '/thread_count:-1', '/MD /MT', '/MTd /MDd', '/D =1', '/entry:_start /no_entry', '/warning_limit:x', '/std:c42', '/D', '/subsystem', 'missing.c', 'some.dll', '@missing.rsp', '/I', '/error_limit']
    def badopt(b):
        dd = hv.newdir()
        try:
            shutil.copy(f'{d1}/e.c', dd); o = h(f'e.c /no_stdlib /quiet {b}', dd, tag='b'); c.case(('bad', b)); c.count('bad_options')
            if o.crashed or o.timeout or not o.code: c.violation(f'bad {b}', f'hlc e.c /no_stdlib /quiet {b}: {o.report}\n{o.text[:300]}')
            elif ls(dd) != {'e.c'}: c.violation(f'bad {b}', f'failed but made {sorted(ls(dd))}')
            elif not o.text.strip(): c.violation(f'bad {b}', 'failed without a message')
        finally: shutil.rmtree(dd, ignore_errors=True)
    c.map(badopt, BADS)
    UNK = ['/nonsense', '-fno-such', '--unknown_option', '/Zi', '/Od', '-O2', '/GS-', '/Zc:wchar_t', '/permissive-', '/nodefaultlib', '-march=native', '/link', '/I missing_dir', '-Imissing_dir', '/LIBPATH:missing_dir', '/W 9999', '/W nonsense', '/Wno nonsense', '/wd9999', 'a.res']
    def unknown(u):
        dd = hv.newdir()
        try:
            shutil.copy(f'{d1}/e.c', dd); o = h(f'e.c /no_stdlib /quiet {u}', dd, tag='u'); c.case(('unknown', u)); c.count('unknown_options')
            if o.code != 0: c.violation(f'unknown {u}', f'hlc e.c /no_stdlib /quiet {u}: {o.report}\n{o.text[:300]}')
            elif ls(dd) != {'e.c', 'e.exe', 'e.pdb'}: c.violation(f'unknown {u}', f'made {sorted(ls(dd))}')
            elif u != '/link' and 'Warning' not in o.text: c.violation(f'unknown {u}', f'not reported: {o.text[:200]!r}')
        finally: shutil.rmtree(dd, ignore_errors=True)
    c.map(unknown, UNK)
    def limit(n):
        o = h(f'err.c /c /out:l{n}.obj /quiet /error_limit:{n}', d1, tag=f'l{n}'); k = len(re.findall(r'^[^\n(]*\(\d+,\d+\): [^\n]*[Ee]rror', o.text, re.M)); c.case(('error limit', n)); c.count('limits')
        if o.code != 1: c.violation(f'error_limit {n}', f'{o.report}\n{o.text[:300]}')
        elif k > n or k < min(n, 40) and n: c.violation(f'error_limit {n}', f'{k} errors reported with /error_limit {n} and 40 errors\n{o.text[:300]}')
    c.map(limit, [1, 2, 3, 7, 20, 39, 40, 41, 100, 1000])
    def prep(i):
        r = random.Random(base + 555 + i); dd = hv.newdir()
        try:
            for f in ('m.c', 'm.h', 'other.c'): shutil.copy(f'{d1}/{f}', dd)
            x = r.choice([None, '5', '(1+2)']); opts = [spell(r, 'D', f'X={x}')] if x else []; want = 'int v = 2 + 1;\nint fromh;\n' + (f'int x = {x};' if x else ''); P = r.random() < .5; two = r.random() < .3
            if P: opts += [spell(r, 'P'), spell(r, 'Fi', r.choice(['pp.i', 'dd.txt']))]
            else: opts.append(spell(r, 'EP'))
            if r.random() < .3: opts.append(spell(r, 'no_debug'))
            if r.random() < .2: opts.append(spell(r, 'thread_count', '3'))
            opts.append(['m.c']); cmd = ' '.join(shuffle(r, opts)); o = h(cmd, dd, tag='p'); c.case(('preprocess', cmd)); c.count('preprocessed_only')
            new = sorted(ls(dd) - {'m.c', 'm.h', 'other.c'}); key = f'preprocess-{i}-{base & 0xffff:x}'
            t = (open(f'{dd}/{new[0]}').read() if new else '') if P else o.text
            if o.code != 0: c.violation(key, f'hlc {cmd}: {o.report}\n{o.text[:300]}')
            elif new != ([[a for y in opts for a in y if 'pp.i' in a or 'dd.txt' in a][0].split(':')[-1].split('=')[-1].removeprefix('/Fi').removeprefix('--Fi').removeprefix('-Fi')] if P else []): c.violation(key, f'hlc {cmd} made {new}')
            elif re.findall(r'\w+|[^\s\w]', re.sub(r'(?m)^(#|[A-Z]:/\S*/m\.c\r?$).*', '', t)) != re.findall(r'\w+|[^\s\w]', want): c.violation(key, f'hlc {cmd} printed\n{t[:400]}\ninstead of\n{want}')
        finally: shutil.rmtree(dd, ignore_errors=True)
    c.map(prep, range(c.n(120, 600)))
    c.map(image, range(c.n(6000, 60000)))
    shutil.rmtree(d0, ignore_errors=True); shutil.rmtree(d1, ignore_errors=True)
