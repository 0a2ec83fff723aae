"""Hostile inputs: mutations of real sources, truncations, nesting, binary junk, odd command lines."""
import glob, os, re
import hv

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d[\w.]*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|[^\sA-Za-z_0-9]|\n|[ \t]+', re.S)
DICT = ('int char short long unsigned signed float double void struct union enum typedef static extern inline const volatile _Bool _Alignas(16) _Alignof sizeof return if else for while do switch case default break continue goto '
        '_Generic( _Static_assert( _Noreturn _Thread_local __declspec(dllexport) __declspec(dllimport) __declspec(thread) __declspec(selectany) __declspec(align(8)) __asm asm { } ( ) [ ] ; , . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : = *= /= %= += -= <<= >>= &= ^= |= # ## ... '
        '0 1 -1 2 0x7fffffff 0x80000000 0xffffffff 0x7fffffffffffffff 0x8000000000000000 0xffffffffffffffff 18446744073709551616 1.0 0.0f 1e400 1e-400 0x1p3 "" "a" L"w" u"x" U"y" u8"z" \'a\' L\'b\' \'\\0\' "\\xff" a b x p main f s NULL '
        '__int64 __int128 __m128 __builtin_offsetof va_list __try __except(1) __finally __leave __LINE__ __FILE__ __COUNTER__ __VA_ARGS__ __func__ defined __has_include __pragma(pack(1)) _Atomic _Complex __stdcall __cdecl __inline __forceinline __restrict register auto mov eax rax xmm0 qword ptr').split(' ')
LINES = ['#define A(x) x', '#define B(x, ...) x ## __VA_ARGS__', '#define C #x', '#undef A', '#if 1', '#if A', '#elif 0', '#else', '#endif', '#ifdef A', '#ifndef B', '#include "t.c"', '#include <stdio.h>', '#include "nofile.h"', '#line 100 "x.c"', '#line 4294967296', '#error e', '#warning w', '#pragma once', '#pragma pack(push, 1)', '#pragma pack(pop)', '#pragma pack(3)', '#pragma comment(lib, "x")',
         '#pragma compilation_unit("t.c")', '#', '# 12', '#foo', '#define', '#if (', '#if 1/0', '#if 0x', '#define D(a,a) a', '#define E E', '#define F(x) G(x)', '#define G(x) F(x)', 'A(', 'B()', 'A(1', 'F(F(F(1)))', '\\', '//\\', '/*', '*/', '"', "'", '??=', '\x00', '\xff\xfe', '\xef\xbb\xbf', '\x1a', '\x0c', '\r', '#embed "t.c"', '#embed <t.c> limit(3)', '_Pragma("once")']


def corpus():
    out = []
    for g in ('/tests/*/*.c', '/tests/*/*.h', '/tests/*.c', '/examples/**/*.c', '/implicit/include/*.h', '/implicit/include/**/*.h', '/implicit/*.c', '/meta_programs/*.c'):
        for f in sorted(glob.glob(hv.REPO + g, recursive=True)):
            b = open(f, 'rb').read()
            if len(b) < 60000: out.append((os.path.basename(f), b.decode('latin1')))
    # one entry per file, in an order that does not depend on the file system
    return sorted(set(out))


def nest(r, cap=20000):
    n = min(cap, r.choice([10, 60, 120, 200, 256, 257, 300, 600, 1500, 5000, 20000]))
    k = r.choice(['(', '{', '[', 'struct', 'ptr', 'if', 'un', 'bin', 'rbin', 'init', 'macro', 'args', 'sub', 'call', 'tern', 'cond', 'cast', 'else', 'decl', 'incl', 'str', 'long', 'comma', 'sizeof', 'asg', 'land', 'fparm', 'switch', 'params', 'cases', 'concat', 'members'])
    m = {'(': f'int f(int a){{ return {"(" * n}a{")" * n}; }}', '{': f'int f(void){{ {"{" * n}{"}" * n} return 0; }}', '[': f'int a{"[1]" * n};', 'struct': 'struct s {' * n + 'int x;' + '} a;' * n, 'ptr': f'int {"*" * n} p;', 'if': f'#if 1\n' * n + 'int a;\n' + '#endif\n' * n,
         'un': f'int f(int a){{ return {r.choice(["-", "~", "!", "- ", "+ ", "(char)"]) * n}a; }}', 'bin': 'int f(int a){ return a' + ' + a' * n + '; }', 'rbin': 'int f(int a){ return ' + '(a + ' * n + 'a' + ')' * n + '; }', 'init': f'int a{"[1]" * min(n, 50)} = {"{" * n}1{"}" * n};', 'macro': ''.join(f'#define M{i} M{i+1} M{i+1}\n' for i in range(min(n, 14))) + f'int x = 0; char *s = "M0"; M{min(n, 14)}',
         'args': '#define I(x) x\nint a = ' + 'I(' * n + '1' + ')' * n + ';', 'sub': 'int f(int *a){ return ' + 'a[' * n + '0' + ']' * n + '; }', 'call': 'int f(int a){ return ' + 'f(' * n + '0' + ')' * n + '; }', 'tern': 'int f(int a){ return ' + 'a ? 1 : ' * n + '0; }', 'cond': 'int f(int a){ return ' + 'a ? ' * n + '0' + ' : 1' * n + '; }', 'cast': 'int f(int a){ return ' + '(long long)(char)' * n + 'a; }',
         'else': 'int f(int a){ ' + 'if(a) a++; else ' * n + 'a--; return a; }', 'decl': 'int ' + '(' * n + 'x' + ')' * n + ';', 'incl': '#include "t.c"\n' * min(n, 20), 'str': 'char *s = ' + '"abc" ' * n + ';', 'long': 'int ' + 'x' * n * 10 + ';', 'comma': 'int f(int a){ return ' + 'a, ' * n + '0; }', 'sizeof': 'int a = ' + 'sizeof ' * n + '1;', 'asg': 'int f(int a){ int b; b = ' + 'a = ' * n + '1; return b; }',
         'land': 'int f(int a){ return ' + '(a && ' * n + '1' + ')' * n + '; }', 'fparm': 'int f(' + 'int (*)(' * n + ')' * n + ');', 'switch': 'int f(int a){ ' + 'switch(a){ case 1: ' * n + ';' + '}' * n + ' return 0; }', 'params': 'int f(' + ', '.join(f'int a{i}' for i in range(n)) + '){ return f(' + ', '.join('1' for i in range(n)) + '); }', 'cases': 'int f(int a){ switch(a){ ' + ''.join(f'case {i * 3}: a++; ' for i in range(n)) + '} return a; }',
         'concat': '#define X(a) ' + 'a ## ' * n + 'b\nint X(q);', 'members': 'struct s {' + ''.join(f'int m{i};' for i in range(n)) + '} a = {' + '1,' * n + '};'}[k]
    return m + ('\nint main(void){ return 0; }\n' if r.random() < .7 else ''), k


def huge(r):
    """one token, line or run of equal characters of extreme length"""
    n = r.choice([70, 300, 1100, 4096, 5000, 33000, 61400 + r.randrange(100), 65480 + r.randrange(60), 66000, 300000, 1500000]); k = r.choice(HUGE)
    return hugesrc(n)[k](), k


def hugesrc(n):
    X = 'x' * n; P = '__declspec(printlike) int print(char *format, ...);\n'; F = lambda s: 'int f(int a){ ' + s + ' return a; }\n'
    D = '7' * n
    return {
        'str': lambda: f'char s[] = "{X}";',
        'wstr': lambda: f'unsigned short s[] = L"{X}";',
        'u8str': lambda: f'char s[] = u8"{X}";',
        'esc': lambda: 'char s[] = "' + '\\x41' * (n // 4) + '";',
        'hexesc': lambda: f'char s[] = "\\x{D}";',
        'ucn': lambda: 'char s[] = "' + '\\u00e9' * (n // 6) + '";',
        'badesc': lambda: 'char s[] = "' + '\\q' * (n // 2) + '";',
        'unterm': lambda: f'char *s = "{X}\n;',
        'untermchar': lambda: f"int a = '{X}\n;",
        'char': lambda: f"int a = '{X}';",
        'raw': lambda: f'char *s = R"d({X})d";',
        'rawdelim': lambda: f'char *s = R"{X}(a){X}";',
        'rawopen': lambda: f'char *s = R"d({X}',
        'ident': lambda: f'int {X}; int g(void){{ return {X}; }}',
        'undeclared': lambda: F(f'return {X};'),
        'member': lambda: F(f'struct s {{ int q; }} v; return v.{X};'),
        'tag': lambda: f'struct {X} {{ int a; }} v; enum {X}e {{ E{X} }};',
        'label': lambda: F(f'goto {X}; {X}:;'),
        'nolabel': lambda: F(f'goto {X};'),
        'typename': lambda: f'{X} v;',
        'func': lambda: f'int {X}(void); int g(void){{ return {X}(); }}',
        'export': lambda: f'__declspec(dllexport) int {X}(void){{ return 1; }}',
        'import': lambda: f'__declspec(dllimport) int {X}(void); int g(void){{ return {X}(); }}',
        'declspec': lambda: f'__declspec({X}) int a;',
        'declspec2': lambda: f'__declspec(dllimport("{X}")) int a(void);',
        'pragma': lambda: f'#pragma {X}\nint a;',
        'pragmacu': lambda: f'#pragma compilation_unit("{X}")\nint a;',
        'pragmalib': lambda: f'#pragma comment(lib, "{X}")\nint a;',
        'pragmamsg': lambda: f'#pragma message("{X}")\nint a;',
        'include': lambda: f'#include "{X}"\n',
        'includea': lambda: f'#include <{X}>\n',
        'error': lambda: f'#error {X}\n',
        'warning': lambda: f'#warning {X}\n',
        'line': lambda: f'#line 3 "{X}"\nint a = b;',
        'lineno': lambda: f'#line {D}\nint a = b;',
        'define': lambda: f'#define {X} 1\nint a = {X};',
        'body': lambda: f'#define M {X}\nint a = M;',
        'stringify': lambda: f'#define S(x) #x\nchar s[] = S({X});',
        'paste': lambda: f'#define J(a, b) a ## b\nint J({X}, {X});',
        'argspace': lambda: '#define S(x) #x\nchar s[] = S(' + 'a ' * (n // 2) + ');',
        'ifnum': lambda: f'#if {D}\n#endif\n',
        'ifid': lambda: f'#if {X}\n#endif\n',
        'defined': lambda: f'#if defined({X})\n#endif\n',
        'unknown': lambda: f'#{X}\n',
        'ifspace': lambda: '#if' + ' ' * n + '1\n#endif\n',
        'int': lambda: f'int a = {D};',
        'hex': lambda: f'int a = 0x{D};',
        'oct': lambda: f'int a = 0{D};',
        'bin': lambda: f'int a = 0b{"1" * n};',
        'sep': lambda: f"int a = 1{chr(39) + '1'}" * 1 + ';',
        'float': lambda: f'double a = {D}.5;',
        'floatf': lambda: f'double a = 0.{D};',
        'exp': lambda: f'double a = 1e{D};',
        'zeros': lambda: f'double a = 0.{"0" * n}1;',
        'hexf': lambda: f'double a = 0x{D}.8p3;',
        'suffix': lambda: f'int a = 1{X};',
        'ppnum': lambda: f'int a = 1.{X}.5e+;',
        'comment': lambda: f'/*{X}*/ int a;',
        'uncomment': lambda: f'/*{X}',
        'linecomment': lambda: f'//{X}\nint a;',
        'contcomment': lambda: '//' + 'xx\\\n' * (n // 4) + '\nint a;',
        'cont': lambda: 'int a' + '\\\n' * (n // 2) + ';',
        'contid': lambda: 'int ' + 'x\\\n' * (n // 3) + ';',
        'spaces': lambda: 'int a' + ' ' * n + '= b;',
        'newlines': lambda: 'int a' + '\n' * n + '= b;',
        'tabs': lambda: '\t' * n + 'int a = b;',
        'cr': lambda: '\r' * n + 'int a = b;',
        'nul': lambda: 'int a' + '\0' * n + ';',
        'ff': lambda: 'int a;' + '\xff' * n,
        'at': lambda: '@' * n,
        'semi': lambda: ';' * n,
        'hash': lambda: '#' * n,
        'hashes': lambda: '#\n' * (n // 2),
        'quote': lambda: '"' * n,
        'bslash': lambda: '\\' * n,
        'fmtbrace': lambda: P + F(f'print("{X}{{:+5", a);'),
        'fmtok': lambda: P + F(f'print("{X}{{}}", a);'),
        'fmtpct': lambda: P + F(f'print("{X}%d{X}", a);'),
        'fmtwidth': lambda: P + F(f'print("%{D}d", a);'),
        'fmtprec': lambda: P + F(f'print("%.{D}f", a);'),
        'fmtbad': lambda: P + F(f'print("%{X}", a);'),
        'fmtspec': lambda: P + F(f'print("{{:{X}}}", a);'),
        'fmtmany': lambda: P + F('print("' + '%d' * (n // 2) + '", a);'),
        'fmtmissing': lambda: P + F(f'print("{{}}{X}{{}}", a);'),
        'fmtflags': lambda: P + F('print("{:' + '+ -#0' * (n // 5) + '}", a);'),
        'fmtopen': lambda: P + F('print("' + '{' * n + '", a);'),
        'asmid': lambda: F(f'__asm__{{ {X} eax, 1 }}'),
        'asmop': lambda: F(f'__asm__{{ mov eax, {X} }}'),
        'asmnum': lambda: F(f'__asm__{{ mov eax, {D} }}'),
        'assert': lambda: f'_Static_assert(0, "{X}");',
        'generic': lambda: F(f'return _Generic(a, char: {X});'),
        'typedef': lambda: f'typedef int {X}; {X} v; char *w = v;',
        'enumv': lambda: f'enum e {{ {X} = {D} }};',
        'param': lambda: f'int g(int {X}){{ return {X}; }}',
        'static': lambda: f'int g(void){{ static int {X} = 3; return {X}++; }}',
        'deprecated': lambda: f'__declspec(deprecated("{X}")) int g(void); ' + F('return g();'),
        'seh': lambda: F(f'__try{{ a = {X}(); }}__except(1){{ }}'),
    }


HUGE = sorted(hugesrc(1))


def mutate(r, src, pool):
    m = r.random()
    if m < .12:                                        # bytes
        b = bytearray(src.encode('latin1', 'replace')) or bytearray(b' ')
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            i = r.randrange(len(b)); x = r.random()
            if x < .4: b[i] = r.choice([0, 10, 13, 34, 35, 39, 40, 41, 92, 123, 125, 255, 128, 194, 240, r.randrange(256)])
            elif x < .7: del b[i:i + r.choice([1, 2, 10, 100])]
            else: b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 3])))
            if not b: b = bytearray(b'\n')
        return b.decode('latin1'), 'bytes'
    if m < .2: return src[:r.randrange(len(src) + 1)], 'truncated'
    t = TOK.findall(src)
    if not t: return src + r.choice(LINES), 'tiny'
    if m < .24:
        L = src.split('\n'); 
        for _ in range(r.randint(1, 4)): L.insert(r.randrange(len(L) + 1), r.choice(LINES))
        return '\n'.join(L), 'directives'
    if m < .32:                                         # splice two files
        o = TOK.findall(r.choice(pool)[1]) or ['x']; i = r.randrange(len(o)); return ''.join(t[:r.randrange(len(t))] + o[i:i + 400]), 'spliced'
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        x = r.random(); i = r.randrange(len(t))
        if x < .3: del t[i:i + r.choice([1, 1, 2, 4])]
        elif x < .55: t[i] = r.choice(DICT)
        elif x < .75: t.insert(i, ' ' + r.choice(DICT) + ' ')
        elif x < .87: j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        else: t[i:i] = t[i:i + r.choice([1, 3, 10])]
        if not t: t = ['x']
    return ''.join(t), 'tokens'
