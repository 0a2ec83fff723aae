"""A compound assignment, or an increment, next to a call which changes the same object: with respect to the call the operation is a single
evaluation (C11 6.5.16.2p3, 6.5.2.4p2), so the outcome is that of one of the two orders. The program itself computes both, with the two
operations in statements of their own, and logs whether what it got is one of them."""
PRE = '''typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64; typedef float f32; typedef double f64;
#define LOG(x) (o_[n_++] = (u64)(x))
__declspec(dllexport) u64 t_0(u64 *o_, u64 n_, u64 q_, u64 w_);
static int one = 1, two = 2; static double half = 0.5;
'''
T = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', '_Bool', 'pi', 'b5', 'bu9', 'bl40']


def source(r):
    top = ['typedef int *pi; static int arr[64];', 'struct s { i32 pad; i32 b5 : 5; u32 bu9 : 9; u64 bl40 : 40; i8 i8; u8 u8; i16 i16; u16 u16; i32 i32; u32 u32; i64 i64; u64 u64; f32 f32; f64 f64; _Bool _Bool; pi pi; };']
    top[1] = 'struct s { i32 pad; i32 m_b5 : 5; u32 m_bu9 : 9; u64 m_bl40 : 40; ' + ' '.join(f'{t} m_{t};' for t in T[:12]) + ' };'
    body = []
    for k in range(r.randint(5, 12)):
        t = r.choice(T); bit = t[0] == 'b'; ct = {'b5': 'i32', 'bu9': 'u32', 'bl40': 'u64'}.get(t, t); fl = t in ('f32', 'f64'); ptr = t == 'pi'; vt = 'f64' if fl else 'i64'
        pl = r.choice(['member', 'arrow', 'element'] if bit else ['global', 'member', 'arrow', 'element', 'pointer', 'array'])
        if pl == 'global': top.append(f'static {ct} g{k};'); X = f'g{k}'
        elif pl == 'pointer': top.append(f'static {ct} g{k}, *p{k} = &g{k};'); X = f'*p{k}'
        elif pl == 'array': top.append(f'static {ct} g{k}[4];'); X = f'g{k}[{r.choice(["two", "2", "one"])}]'
        else: top.append(f'static struct s g{k}[3], *p{k} = &g{k}[1];'); X = {'member': f'g{k}[0].m_{t}', 'arrow': f'p{k}->m_{t}', 'element': f'g{k}[two].m_{t}'}[pl]
        init = f'&arr[{r.randint(16, 30)}]' if ptr else r.choice(['1', '0']) if t == '_Bool' else str(r.randint(1, 14))
        ops = [f'++{X}', f'--{X}', f'({X})++', f'({X})--']
        v = r.choice(['1', '2', '3', 'one', 'two'])
        if ptr: ops += [f'{X} += {v}', f'{X} -= {v}']
        elif fl: ops += [f'{X} {o} {w}' for o in ('+=', '-=', '*=', '/=') for w in (v, 'half')]
        else: ops += [f'{X} {o} {v}' for o in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=') if t != '_Bool' or o in ('&=', '|=', '^=')]
        op = r.choice(ops)
        if ptr: h = r.choice([f'{X} = &arr[{r.randrange(5)}]', f'{X} += 4', f'{X}++'])
        else: h = r.choice([f'{X} = {r.randrange(15)}', f'{X} {"|" if t == "_Bool" else "+"}= 1', f'{X} ^= 5' if not fl else f'{X} *= 4', f'{X}++'])
        hr = r.choice(['4', f'({vt})({X}{" - arr" if ptr else ""})', 'one', 'two'])
        top.append(f'static {vt} h{k}(void){{ {h}; return {hr}; }}')
        A = f'({op})' if not ptr else f'(({op}) - arr)'; H = f'h{k}()'; q = r.choice(['+', '-', '*'])
        w = f'static {vt} sink{k}({vt} a, {vt} b, {vt} c){{ return a * 16 + b * 4 + c; }}'
        f = r.randrange(6)
        if f == 0: e, c = f'{A} {q} {H}', lambda a, b: f'{a} {q} {b}'; at = ct if not ptr else 'i64'
        elif f == 1: e, c = f'{H} {q} {A}', lambda a, b: f'{b} {q} {a}'; at = ct if not ptr else 'i64'
        elif f == 2: top.append(w); e, c = f'sink{k}({A}, {H}, 3)', lambda a, b: f'sink{k}({a}, {b}, 3)'; at = ct if not ptr else 'i64'
        elif f == 3: top.append(w); e, c = f'sink{k}({H}, 2, {A})', lambda a, b: f'sink{k}({b}, 2, {a})'; at = ct if not ptr else 'i64'
        elif f == 4: e, c = f'({A} < {H}) + ({vt})two * 8', lambda a, b: f'({a} < {b}) + ({vt})two * 8'; at = ct if not ptr else 'i64'
        else: e, c = f'({vt}){A} - ({vt})two * {H}', lambda a, b: f'({vt}){a} - ({vt})two * {b}'; at = ct if not ptr else 'i64'
        body.append(f'''  {{ {vt} v, v1, v2, b; {ct} x, x1, x2; {at} a;
    {X} = {init}; v = {e}; x = {X};
    {X} = {init}; a = {A}; b = {H}; v1 = {c("a", "b")}; x1 = {X};
    {X} = {init}; b = {H}; a = {A}; v2 = {c("a", "b")}; x2 = {X};
    LOG(v == v1 && x == x1 || v == v2 && x == x2); }}''')
    return PRE + '\n'.join(top) + '\nu64 t_0(u64 *o_, u64 n_, u64 q_, u64 w_){ n_ = 0;\n' + '\n'.join(body) + '\n  return n_; }\n'


def aggregates(r):
    """assignments of structures whose new value is made of the old one, directly and through calls, returns and pointers"""
    o = []; n = r.randint(1, 3); S = []
    for k in range(n):
        m = []
        for j in range(r.choice([1, 2, 2, 3, 3, 4, 6])):
            t = r.choice(['i8', 'u8', 'i16', 'i32', 'i32', 'u32', 'i64', 'i64', 'u64', 'f32', 'f64', 'pi'] + ([f'struct a{r.randrange(k)}'] if k else [])); c = r.choice([0, 0, 0, 0, 2, 3, 5, 9]) if not t.startswith('struct') else r.choice([0, 0, 2])
            m.append((f'm{j}', t, c))
        S.append(m); un = 'struct'
        o.append(f'{un} a{k} {{ ' + ' '.join(f'{t} {f}{f"[{c}]" if c else ""};' for f, t, c in m) + ' };')
    def leaves(k, e):
        for f, t, c in S[k]:
            for x in ([f'{e}.{f}[{i}]' for i in range(c)] if c else [f'{e}.{f}']):
                if t.startswith('struct'): yield from leaves(int(t[8:]), x)
                else: yield x, t
    def conv(e, t, to): # a value of type t as one of type to
        if t == to: return e
        if t == 'pi': e = f'({e} - arr)'
        if to == 'pi': return f'arr + ((i32){e} & 31)'
        return f'({to})({e})' if t not in ('f32', 'f64') else f'({to})(i32)({e})'
    def lit(k, src): # an initializer from the leaves in src
        def ini(k):
            q = []
            for f, t, c in S[k]:
                def one():
                    if t.startswith('struct'): return ini(int(t[8:]))
                    e, st = r.choice(src); return conv(e, st, t)
                q.append('{ ' + ', '.join(one() for _ in range(c)) + ' }' if c else one())
            return '{ ' + ', '.join(q) + ' }'
        return f'(struct a{k}){ini(k)}'
    small = lambda t: f'&arr[{r.randrange(30)}]' if t == 'pi' else str(r.randint(0, 100))
    o.append('static i32 arr[64]; static i32 side;')
    fn = []; body = []
    for i in range(r.randint(6, 14)):
        k = r.randrange(n); T = f'struct a{k}'; g = f'g{i}'; o.append(f'static {T} {g}, *p{i} = &{g}; static {T} v{i}[3];'); G = list(leaves(k, g)); P = list(leaves(k, f'(*p{i})')); V = list(leaves(k, f'v{i}[1]'))
        for L in (G, V):
            for e, t in L: body.append(f'  {e} = {small(t)};')
        one = r.choice(G); w = r.randrange(10); dst = r.choice([g, f'*p{i}', f'p{i}[0]'])
        if w == 0: body.append(f'  {dst} = {lit(k, G + P)};')
        elif w == 1: fn.append(f'static {T} f{i}(void){{ return {lit(k, G)}; }}'); body.append(f'  {dst} = f{i}();')
        elif w == 2: fn.append(f'static {T} f{i}(void){{ {T} r_ = {g}; {one[0]} = {small(one[1])}; ' + ' '.join(f'{e.replace(g, "r_", 1)} = {conv(*r.choice(G), t)};' for e, t in G[:4]) + ' return r_; }'); body.append(f'  {dst} = f{i}();')
        elif w == 3: fn.append(f'static {T} f{i}({T} x_, {T} y_){{ {one[0]} = {small(one[1])}; return {lit(k, list(leaves(k, "x_")) + G + list(leaves(k, "y_")))}; }}'); body.append(f'  {dst} = f{i}({g}, *p{i});')
        elif w == 4: fn.append(f'static {T} f{i}({T} *q_){{ {conv_first(r, leaves(k, "(*q_)"), small)} return {lit(k, list(leaves(k, "(*q_)")))}; }}'); body.append(f'  {dst} = f{i}(&{g});')
        elif w == 5: fn.append(f'static {T} f{i}(i32 n_){{ if(!n_) return {g}; {one[0]} = {small(one[1])}; {g} = f{i}(n_ - 1); {T} t_ = {lit(k, G)}; {g} = t_; return {r.choice([g, "t_", f"*p{i}"])}; }}'); body.append(f'  {dst} = f{i}({r.randint(1, 4)});')
        elif w == 6: body.append(f'  {T} l{i} = {g}; l{i} = {lit(k, list(leaves(k, f"l{i}")))}; {g} = l{i}; l{i} = l{i};')
        elif w == 7: body.append(f'  side = {r.randrange(2)}; {dst} = side ? {r.choice([g, lit(k, G)])} : {r.choice([f"v{i}[1]", lit(k, V + G)])};')
        elif w == 8: body.append(f'  v{i}[0] = v{i}[2] = {g} = v{i}[1]; v{i}[side++ & 1] = {lit(k, V + G)}; side = 0;'); G += list(leaves(k, f'v{i}[0]')) + list(leaves(k, f'v{i}[2]'))
        else: body.append(f'  {dst} = ({g}, side = 1, {r.choice([lit(k, V + G), f"v{i}[1]", g])});')
        for e, t in G: body.append(f'  LOG({e}{" - arr" if t == "pi" else ""});' if t not in ('f32', 'f64') else f'  LOG((i64){e});')
    return PRE + 'typedef int *pi;\n' + '\n'.join(o + fn) + '\nu64 t_0(u64 *o_, u64 n_, u64 q_, u64 w_){ n_ = 0;\n' + '\n'.join(body) + '\n  return n_; }\n'


def conv_first(r, leaves, small):
    e, t = next(iter(leaves)); return f'{e} = {small(t)};'
