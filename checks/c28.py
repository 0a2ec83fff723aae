"""Startup: programs with every form of main, their arguments, environment and exit code against a model of the Windows command line rules."""
import hashlib, os, random, shutil, subprocess
import hv

HEAD = r'''
#pragma comment(lib, "kernel32")
__declspec(dllimport) void *GetStdHandle(unsigned int);
__declspec(dllimport) int WriteFile(void *, const void *, unsigned int, unsigned int *, void *);
__declspec(dllimport) __declspec(noreturn) void ExitProcess(unsigned int);
static typedef unsigned short wch; static typedef struct HINSTANCE__ *HINSTANCE;
static void put(const char *s){ unsigned int n = 0, g; while(s[n]) n++; WriteFile(GetStdHandle((unsigned int)-11), s, n, &g, 0); }
static void hx(const char *tag, const void *p, int w){ char b[40000]; int o = 0; while(tag[o]) { b[o] = tag[o]; o++; } b[o++] = ' ';
  if(!p) { b[o++] = '0'; } else for(int i = 0; o < 39000; i++){ unsigned int v = w == 2 ? ((const unsigned short *)p)[i] : ((const unsigned char *)p)[i]; if(!v) break; if(v > 255) b[o++] = '?'; b[o++] = "0123456789abcdef"[(v >> 4) & 15]; b[o++] = "0123456789abcdef"[v & 15]; }
  b[o++] = '\n'; b[o] = 0; put(b); }
static void num(const char *tag, long long v){ char b[64]; int o = 0; while(tag[o]) { b[o] = tag[o]; o++; } b[o++] = ' '; if(v < 0){ b[o++] = '-'; v = -v; } char t[24]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while(v); while(k) b[o++] = t[--k]; b[o++] = '\n'; b[o] = 0; put(b); }
'''


def split(s, msvcrt=False):
    """argv of a command line by the rules of the UCRT"""
    out = []; i = 0; n = len(s); q = False; a = ''
    while i < n:
        ch = s[i]; i += 1
        if ch == '"': q = not q
        elif ch in ' \t' and not q: break
        else: a += ch
    out.append(a)
    while True:
        while i < n and s[i] in ' \t': i += 1
        if i >= n: return out
        a = ''; q = False
        while True:
            k = 0; copy = True
            while i < n and s[i] == '\\': i += 1; k += 1
            if i < n and s[i] == '"':
                if k % 2 == 0:
                    if q and i + 1 < n and s[i + 1] == '"': i += 1
                    else: copy = False; q = not q
                k //= 2
            a += '\\' * k
            if i >= n or (not q and s[i] in ' \t'): break
            if copy: a += s[i]
            i += 1
        out.append(a)


def rest(s):
    """the command line of WinMain: what follows the program name"""
    i = 0; q = False
    while i < len(s) and (q or s[i] not in ' \t'):
        if s[i] == '"': q = not q
        i += 1
    while i < len(s) and s[i] in ' \t': i += 1
    return s[i:]


def cmdline(r):
    def word():
        x = r.random()
        if x < .3: return ''.join(r.choice('abcxyz019._-/=:') for _ in range(r.randint(1, 12)))
        if x < .75: return ''.join(r.choice(['"', '"', '\\', '\\', '\\\\', '""', 'a', 'b', '-', "'", '^', '%x%', '*', '?', '\x0b', '\x0c', '\xe4', '\r', '=']) for _ in range(r.randint(1, 9)))
        if x < .85: return '"' + ''.join(r.choice(['a b', ' ', '\t', '\\', '\\"', 'c', '""', '\\\\']) for _ in range(r.randint(0, 6))) + '"'
        if x < .9: return '""'
        return r.choice(['\\' * r.randint(1, 9) + '"', 'x' * r.randint(50, 3000), '"abc" d e', 'a\\\\b d"e f"g h', 'a\\\\\\"b c d', 'a\\\\\\\\"b c" d e', 'a"b"" c d', '"a""b" c', '"a"""b c" d', '"""a', 'a"', '"'])
    prog = r.choice(['prog.exe', 'prog.exe', '"C:\\Program Files\\x y\\prog.exe"', 'C:\\dir\\prog.exe', '"prog.exe"', 'C:\\"a b"\\p.exe', '"C:\\dir\\"', 'p', 'a\\\\b.exe', '""', '"x\\\\"y', 'x"\ty"z'])
    s = prog
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12])): s += r.choice([' ', ' ', '\t', '  ', ' \t ']) + word()
    if r.random() < .1: s += r.choice([' ', '\t ', '   '])
    return s


def env(r):
    l = []
    for _ in range(r.choice([0, 1, 3, 10, 60])):
        l.append(r.choice(['PATH=C:\\x;C:\\y z', 'A=', 'B=1', '=::=::\\', '=C:=C:\\dir', 'X' + str(r.randint(0, 999)) + '=' + 'v' * r.randint(0, 40), '=ExitCode=00000001', 'e=a=b', 'u=\xe4\xf6']))
    return l


INIT = [('static int g%d = %d;', 'num("g%d", g%d);', 'g%d %d'), ('static short g%d[3] = {1, %d};', 'num("g%d", g%d[1] + g%d[2]);', 'g%d %d')]


def program(r):
    """source files, model of the run as a function (cmdline, env) -> (lines, exit code), the libraries it needs"""
    form = r.choice(['main', 'main', 'main', 'wmain', 'wmain', 'WinMain', 'wWinMain']); wide = form[0] == 'w'; w = 2 if wide else 1; ch = 'wch' if wide else 'char'
    nargs = 4 if 'Win' in form else r.choice([0, 0, 2, 2, 3, 3]); body = []; exp = []; glob = []; files = {}; after = []
    loc = {}
    for k in range(r.randint(0, 3)):
        v = r.randint(0, 30000); glob.append(f'int g{k} = {v}; int *pg{k} = &g{k}; static int z{k}; const char *sg{k} = "s{v}";'); body.append(f'num("g{k}", g{k} + *pg{k} + z{k}++); hx("s", sg{k}, 1);'); exp.append(lambda c, e, k=k, v=v: [f'g{k} {2 * v}', 's ' + f's{v}'.encode().hex()])
    body.append('static int calls; num("calls", ++calls);'); exp.append(lambda c, e: ['calls 1'])
    names = r.choice([('argc', 'argv', 'envp'), ('n', 'v', 'e'), ('c', 'a', 'x')])
    if nargs in (2, 3):
        if r.random() < .5: body.append(f'num("argc", {names[0]}); for(int i = 0; i < {names[0]}; i++) hx("arg", {names[1]}[i], {w}); hx("end", {names[1]}[{names[0]}], 1);')
        else: body.append(f'num("argc", {names[0]}); {ch} **p = {names[1]}; while(*p) hx("arg", *p++, {w}); num("count", p - {names[1]});')
        last = 'end 0' if 'end' in body[-1] else None
        def am(c, e):
            a = split(c); return [f'argc {len(a)}'] + ['arg ' + x.encode('latin1').hex() for x in a] + [last or f'count {len(a)}']
        exp.append(am)
    if nargs == 3:
        body.append(f'int k = 0; while({names[2]}[k]) hx("env", {names[2]}[k++], {w}); num("envs", k);')
        exp.append(lambda c, e: ['env ' + x.encode('latin1').hex() for x in e if x[:1] != '='] + [f'envs {sum(x[:1] != "=" for x in e)}'])
    if nargs == 0 and r.random() < .3 or nargs == 2 and r.random() < .2:                     # through the runtime library
        glob.append('__declspec(dllimport) int *__p___argc(void); __declspec(dllimport) char ***__p___argv(void); __declspec(dllimport) wch ***__p___wargv(void);')
        body.append('num("rargc", *__p___argc()); for(int i = 0; i < *__p___argc(); i++) { hx("ra", (*__p___argv())[i], 1); hx("rw", (*__p___wargv())[i], 2); }')
        def rm(c, e):
            a = split(c); return [f'rargc {len(a)}'] + sum(([t + x.encode('latin1').hex() for t in ('ra ', 'rw ')] for x in a), [])
        exp.append(rm)
    if nargs == 4:
        glob.append('extern char __ImageBase;' if 0 else ''); body.append(f'num("inst", inst != 0 && *(unsigned short *)inst == 0x5a4d); num("prev", prev != 0); hx("cmd", cmd, {w}); num("show", show);')
        exp.append(lambda c, e: ['inst 1', 'prev 0', 'cmd ' + rest(c).encode('latin1').hex(), 'show @'])
    x = r.random(); code = r.choice([0, 1, 2, 255, 256, 259, 1000, -1, -2147483648, 2147483647, r.randint(-2**31, 2**31 - 1)])
    if x < .55 or nargs == 4: ret = f'return {code};' if code != -2147483648 else 'return -2147483647 - 1;'
    elif x < .65 and form == 'main': ret = ''; code = 0
    elif x < .8: ret = f'ExitProcess((unsigned int){code}ll); put("no\\n"); return 5;'
    elif x < .9: glob.append('static int quit(int d){ if(d) return quit(d - 1) + 1; ExitProcess(' + f'(unsigned int){code}ll' + '); }'); ret = 'return quit(3);'
    else: glob.append(f'int value(int a){{ return a; }}'); ret = f'return value((int){code}ll);'
    argt = {0: r.choice(['void', 'void', '']), 2: f'int {names[0]}, {ch} ' + r.choice([f'**{names[1]}', f'*{names[1]}[]']), 3: f'int {names[0]}, {ch} **{names[1]}, {ch} ' + r.choice([f'**{names[2]}', f'*{names[2]}[]']), 4: f'HINSTANCE inst, HINSTANCE prev, {ch} *cmd, int show'}[nargs]
    fun = f'int {form}({argt}){{\n  ' + '\n  '.join(body) + f'\n  {ret}\n}}\n'
    if nargs == 4 and r.random() < .4: fun = fun.replace('int ' + form, r.choice(['int __stdcall ', 'int ']) + form, 1)
    src = HEAD + '\n'.join(glob) + '\n'; x = r.random()
    if x < .5: files['t.c'] = src + fun
    elif x < .7: files['t.c'] = HEAD + fun + '\n'.join(glob)                                    # globals declared after use
    else: files['t.c'] = HEAD + fun; files['u.c'] = 'static typedef unsigned short wch; __declspec(dllimport) __declspec(noreturn) void ExitProcess(unsigned int);\n' + '\n'.join(g for g in glob if not g.startswith('static')).replace('static int z', 'int z'); files['t.c'] = HEAD + '\n'.join(g for g in glob if g.startswith('static')) + '\n' + fun
    if len(files) == 2:
        files['u.c'] = files['u.c'].replace('const char *sg', 'const char *sg')
    return form, nargs, files, (lambda c, e, show: [l.replace('@', str(show)) for f in exp for l in f(c, e)]), code & 0xffffffff


def run(c):
    c.rule = 'one run of a program with a random form of main, command line, environment and exit: the arguments, environment, initialized data and exit code it reports equal the model; distinct = (form, number of arguments, features of the command line, exit)'
    c.assume = ['the rules of the UCRT for splitting a command line, as modelled in split()', 'the loader maps bytes of the command line to the wide one']
    h = hv.Hlc(); pool = hv.Pool(); base = c.rng.getrandbits(48)
    def one(i):
        r = random.Random(base * 1000003 + i); d = hv.newdir()
        try:
            form, nargs, files, model, code = program(r); key = f'{form}{nargs}-' + hashlib.md5(repr(files).encode('latin1', 'replace')).hexdigest()[:10]
            for n, t in files.items(): open(f'{d}/{n}', 'w', encoding='latin1').write(t)
            names = list(files); r.shuffle(names)
            q = h(' '.join(names) + ' /out:p.exe /quiet' + r.choice(['', ' /no_debug', ' /no_dynamic_base', ' /subsystem:windows' if 'Win' in form else ' /subsystem:console']), d, tag='c')
            if q.code != 0:
                c.case(); c.violation(key, f'program is not accepted: {q.report} ' + '\n'.join(x for x in (q.text or '').split('\n') if 'rror' in x)[:600], files); return
            c.count('programs')
            for k in range(r.choice([3, 6, 10])):
                cl = cmdline(r); e = env(r); show = r.randint(0, 11); fl = r.choice([0, 1, 4, 5]); open(d + '/env', 'w', encoding='latin1').write(''.join(x + '\0' for x in e) + '\0')
                rr = pool.run('run', f'{d}/p.exe', d, d + '/run.out', 20, 60, {'guard': 1, 'env': d + '/env', 'show': show, 'show_flags': fl}, cl)
                exp = model(cl, e, show if fl & 1 else 10); got = (rr.text or '').split('\n'); got = got[:-1] if got and not got[-1] else got
                feats = (('"' in cl), ('""' in cl), ('\\"' in cl), ('\\\\"' in cl), ('\t' in cl), cl.startswith('"'), cl.endswith(' '), cl.count('"') % 2)
                c.case((form, nargs, len(split(cl)), feats)); c.count('runs_' + form); c.case(('exit', form, nargs, code & 0xffff), 0)
                if rr.timeout: c.inconclusive += 1; continue
                if got != exp or rr.report != f'exit {code}':
                    b = next((f'got {g!r}, expected {x!r}' for g, x in zip(got + [''] * 99, exp + [''] * (len(got) - len(exp))) if g != x), '')
                    w = 'WinMain command line' if b.startswith("got 'cmd") else 'arguments'
                    c.violation(key, f'{form}/{nargs}: command line {cl!r}: {rr.report} (expected exit {code}); {b[:600]}', dict(files, cmdline=cl, env='\n'.join(e))); return
            if i < 3: c.sample(f'{form}/{nargs} exit {code}: {cl!r}')
        finally: shutil.rmtree(d, ignore_errors=True)
    c.map(one, range(c.n(1200, 40000)))
    # the same programs on Wine, where the runtime library is the real one
    for i in range(c.n(24, 400)):
        r = random.Random(base * 7 + i); d = hv.newdir()
        while True:
            form, nargs, files, model, code = program(r)
            if form in ('main', 'wmain') and nargs != 3: break
        for n, t in files.items(): open(f'{d}/{n}', 'w', encoding='latin1').write(t)
        q = h(' '.join(files) + ' /out:p.exe /quiet', d, tag='c')
        if q.code != 0: continue
        args = [''.join(r.choice('ab \\"\\\'=-') for _ in range(r.randint(0, 8))) for _ in range(r.randint(0, 4))]
        w = hv.wine(d + '/p.exe', args, d)
        if w is None: c.inconclusive += 1; c.count('wine_unavailable'); continue
        got = w[1].split('\n'); a = [x[4:] for x in got if x.startswith('arg ')][1:]
        c.case(('wine', form, nargs)); c.count('runs_wine')
        want = code & 0xff or bool(code)    # Wine does not turn a code other than zero into zero
        if w[0] != want and not (want == 1 and code & 0xff == 0 and w[0] == 0): c.violation(f'wine-{form}{nargs}-{i}', f'Wine: exit {w[0]}, expected {int(want)}', files)
        elif nargs == 2 and a != [x.encode().hex() for x in args]: c.violation(f'wine-{form}{nargs}-{i}', f'Wine: arguments {a}, expected {args!r}', files)
        shutil.rmtree(d, ignore_errors=True)
