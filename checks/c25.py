"""Constraint violations: every entry of the catalogue (violation, smallest valid neighbour) placed in random surroundings; the rejected program must name the line, the neighbour must be accepted."""
import os, random, re, shutil
import hv, constraints as C

CONST = {'6.5.2.4#46', '6.5.3.1#56', '6.5.16#144', '6.5.16#149', '6.5.16#150', '6.5.16#151', '6.5.16.2#170'}  # README: the const keyword is ignored
WARN = {'6.7#209': 7, '6.7#210': 7, '6.7#211': 7, '6.7#213': 7, '6.7#214': 7, '6.7#215': 7, '6.10#432': 35, '6.7.5#291': 29, '6.10#445': 16}  # diagnosed by a warning
FILL = ['/* a\n comment {0}\n over lines */', '// line comment {0} \\\n continued {0}', '', '\n\n', '#if 0\nint broken {0} ( ;\n#endif', '#define M{0}(x) \\\n  ((x) + \\\n   {0})', '#ifdef M{0}\n#error no\n#else\n#endif',
        'static int v{0}[3] = {{ 1, 2,\n  3 }};', 'struct fs{0} {{ int a;\n int b; }};', 'int ff{0}(int x){{\n  return x\n   + {0};\n}}', 'extern int ex{0};', 'enum fe{0} {{ FE{0}, \n FEB{0} }};', 'typedef int ft{0};', 'char *str{0} = "a"\n "b";', '#pragma pack(push, 8)\n#pragma pack(pop)', '#undef NOTHING{0}', '_Static_assert(1, "x\\\ny");', '#if 1\n#endif']
FFILL = ['/* a\n comment {0} */', '// c {0} \\\n d', '', '#if 0\n ) + +\n#endif', 'i = i\n + {0};', 'if(i)\n  j = {0};', 'flb{0}: ;\n', 'for(int k{0} = 0; k{0} < 2;\n k{0}++) j++;', '{{ int in{0} = 1;\n j += in{0}; }}', 'q = "x"\n  "y";', 'do i--;\nwhile(i > 3);', 'switch(i){{ case {0}:\n break; default: ; }}', '(void)sizeof(int[\n{0} + 1]);']
ERR = re.compile(r'^(.*?)\((\d+),(\d+)\): ([^\n]*)$', re.M)
WOPT = ['/Wall', '/Wnone', '/W{n}', '/Wno{n}', '-W{n}', '-Wno{n}', '/Wno7', '/Wno35', '/Wshadowing_local', '/W missing-return']


def place(r, e, text, n, uid):
    """one entry -> (text, line offset of the entry's text inside)"""
    if e[1] != 'f': return text, 0
    pre = [C.LOCALS]; 
    for _ in range(r.randint(0, 3) if 'else' not in e[2] else 0): uid[0] += 1; pre.append(r.choice(FFILL).format(uid[0]))
    post = []
    for _ in range(r.randint(0, 2) if not re.search('else|break|continue', e[2]) else 0):
        k = r.randrange(8)
        if k == 0: pre.append('{'); post.append('}')
        elif k == 1: pre.append('if(i){'); post.append('}')
        elif k == 2: pre.append('while(i < 3){ i++;'); post.append('}')
        elif k == 3: pre.append('if(j) ; else {\n'); post.append('}')
        elif k == 4: pre.append('do {'); post.append('} while(0);')
        elif k == 5: pre.append('for(;;){ if(i) break;'); post.append('}')
        elif k == 6: pre.append('{ {'); post.append('} }')
        else: pre.append('if(i) return 3;')
    head = '\n'.join([f'int fun{n}(void){{'] + pre) + '\n'
    return head + text + '\n' + '\n'.join(post[::-1]) + '\nreturn i;\n}', head.count('\n')


def run(c):
    ents = [e for e in C.ENTRIES if e]
    c.rule = 'an entry of the catalogue of violations, in random surroundings (other declarations, comments, splices, conditional sections, nested statements, included files, several sources, warning options, object/DLL/checking only); distinct = (entry, surroundings)'
    c.assume = ['clang -pedantic-errors agreed about every entry of the catalogue (violation and neighbour), checked when the catalogue was written', 'const is ignored by hlc (README): its constraints are not part of the property']
    def write(d, fs):
        for n, t in fs.items(): os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True); open(f'{d}/{n}', 'w').write(t)
    h = hv.Hlc('plain'); base = c.rng.getrandbits(48); rounds = c.n(10, 100)
    items = [(k, q) for q in range(rounds) for k in range(len(ents))]
    def one(it):
        k, q = it; e = ents[k]; r = random.Random(base * 1000003 + k * 7919 + q); d = hv.newdir()
        if e[0] in CONST: return
        try:
            b, g, l = C.split(e[2]); uid = [0]; nf = r.choice([1, 1, 1, 2, 3]); at = r.randrange(nf); inc = r.random() < .25
            others = [o for o in r.sample(ents, r.randint(0, 4)) if o[1] == 'f' and o is not e and o[0] not in CONST]
            lay = r.getrandbits(60)
            for bad in (1, 0):
                files = {}; r2 = random.Random(lay); uid[0] = 0; line = where = None; mode = r2.choice(['obj', 'obj', 'dll' if e[1] == 'f' and not any('extern' in x[2] for x in [e] + others) else 'obj'])
                for f in range(nf):
                    body = []
                    if f == 0:
                        for n, o in enumerate(others): body.append((place(r2, o, C.split(o[2])[1], n, uid)[0], None))
                    if f == at: t, off = place(r2, e, b if bad else g, 'main', uid); body.append((t, off + l))
                    for _ in range(r2.randint(0, 5)): uid[0] += 1; body.append((r2.choice(FILL).format(uid[0]), None))
                    r2.shuffle(body); text = C.GLOBALS if f == 0 else C.GLOBALS_AGAIN
                    name = f's{f}.c'
                    if f == at and inc:
                        cut = next(i for i, x in enumerate(body) if x[1] is not None); hn = r2.choice(['inc.h', 'sub/inc.h', 'in c.h'])
                        files[hn] = '\n'.join(x[0] for x in body[:cut + 1]) + '\n'; line = sum(x[0].count('\n') + 1 for x in body[:cut]) + body[cut][1] + 1; where = hn.split('/')[-1]
                        text += f'#include "{hn}"\n' + '\n'.join(x[0] for x in body[cut + 1:]) + '\n'
                    else:
                        n = text.count('\n') + 1
                        for x, o in body:
                            if o is not None: line = n + o; where = name
                            text += x + '\n'; n += x.count('\n') + 1
                    files[name] = text
                write(d, files)
                args = ' '.join(f's{f}.c' for f in range(nf)); opts = [{'obj': '/c /out:o.obj', 'dll': '/dll /no_entry /no_stdlib /out:o.dll', 'zs': '/Zs'}[mode], '/quiet' if r2.random() < .5 else '']
                wopt = [r2.choice(WOPT).format(n=r2.randint(1, 36)) for _ in range(r2.choice([0, 0, 0, 1, 2]))] if e[0] not in WARN else []
                if e[0] in WARN: opts[1] = ''
                if mode == 'dll': args += ' reach.c'; write(d, {'reach.c': reach(files)})
                o = h(f'{args} {" ".join(opts + wopt)}', d, tag=f'x{bad}'); key = e[0]
                cmd = f'hlc {args} {" ".join(opts + wopt)}'
                if o.crashed or o.timeout or o.code not in (0, 1): c.case(); c.violation(key, f'{cmd}: {o.report}\n{(o.text or "")[:600]}', files); return
                if not bad:
                    c.case((e[0], 'valid', q)); c.count('accepted')
                    if o.code: c.violation(key + '-valid', f'{cmd}\nvalid program rejected:\n{(o.text or "")[:800]}', files); return
                    continue
                c.case((e[0], 'violation', mode, nf, inc, q)); c.count('violations_placed')
                ds = [(m[1].replace('\\', '/').split('/')[-1], int(m[2]), m[4]) for m in ERR.finditer(o.text or '')]
                if e[0] in WARN:
                    w = WARN[e[0]]
                    if o.code: c.violation(key, f'{cmd}\nrejected; it used to be diagnosed by a warning\n{o.text[:500]}', files)
                    elif not any(x[:2] == (where, line) and x[2].startswith(f'Warning {w} ') for x in ds): c.violation(key, f'{cmd}\nno warning {w} at {where} line {line} ({e[2]!r})\n{o.text[:800]}', files)
                    else: c.count('diagnosed_by_warning')
                    continue
                if o.code == 0: c.violation(key, f'{cmd}\naccepted, although {where} line {line} has a violation: {e[2]!r}', files); continue
                errs = [x for x in ds if not x[2].startswith('Warning') and 'Here is the' not in x[2] and 'error' in x[2].lower()]
                if not errs or errs[0][:2] != (where, line): c.violation(key, f'{cmd}\nthe first error is at {errs[:1]} instead of {where} line {line}: {e[2]!r}\n{o.text[:800]}', files); continue
                c.count('rejected_at_the_line')
            if q == 0 and k < 3: c.sample(f'{e[0]}: {e[2]} in {sorted(files)} {mode}')
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, items)
    c.count('catalogue_entries', len(ents))


def reach(files):
    """a source that makes every function definition of the files an export"""
    fs = sorted({m[1] for t in files.values() for m in re.finditer(r'^int (fun\w+)\(void\)\{', t, re.M)})
    return ''.join(f'int {x}(void);\n' for x in fs) + '__declspec(dllexport) int reach_all(void){ return 0' + ''.join(f' + {x}()' for x in fs) + '; }\n'
