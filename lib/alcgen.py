"""Dynamic stack allocation: functions which use _alloca in loops, conditions and arguments between calls with many arguments; every block is filled, and verified
after the calls; return addresses read through the intrinsics are compared with each other."""
PRE = '''typedef unsigned char u8; typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
#define EXPORT __declspec(dllexport)
#define LOG(x) (out[++out[0]] = (u64)(x))
void *_alloca(u64); void *_ReturnAddress(void); void *_AddressOfReturnAddress(void);
typedef struct { u64 a, b, c; } S24; typedef struct { i32 x[40]; } S160;
static u8 *fill(u8 *p, u64 n, u64 k){ for(u64 i = 0; i < n; i++) p[i] = (u8)(i * 7 + k * 13 + 1); return p; }
static u64 bad(u8 *p, u64 n, u64 k){ u64 b = ((u64)p & 15) != 0; for(u64 i = 0; i < n; i++) b += p[i] != (u8)(i * 7 + k * 13 + 1); return b; }
static u64 use(u8 *p, u64 n, u64 k, u64 r){ fill(p, n, k); return r + bad(p, n, k); }
'''
T = ['i64', 'u8', 'double', 'S24', 'i32', 'float', 'S160']


def source(r):
    o = [PRE]; n = r.randint(2, 5); F = []; keys = set()
    for i in range(n):
        ps = [r.choice(T[:6] if r.random() < .9 else T) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]))]; rt = r.choice(['i64', 'i64', 'S24', 'double', 'u8'])
        F.append((rt, ps)); o.append(f'{rt} f{i}(u64 *out, i64 k{"".join(f", {t} a{j}" for j, t in enumerate(ps))});')
    def lit(t, k): return {'S24': 's24', 'S160': 's160', 'double': f'({k} + {r.randint(1, 9)}.5)', 'float': f'({k} + 0.25f)'}.get(t, f'({t})({k} * {r.randint(1, 9)} + {r.randint(1, 60)})')
    def val(t, e): return {'S24': f'(i64)({e}.a + {e}.c)', 'S160': f'{e}.x[39]'}.get(t, f'(i64){e}')
    def call(i, k):
        rt, ps = F[i]; return val(rt, f'f{i}(out, {k}{"".join(", " + lit(t, "k") for t in ps)})')
    def size(): return r.choice([str(r.choice([1, 7, 8, 15, 16, 17, 24, 31, 32, 33, 64, 100, 128, 256, 1000, 4000, 5000])), f'(u64)(k + {r.randint(3, 90)})', f'((k & 3) * {r.randint(1, 50)} + 1)', 'sizeof(S160)', f'n{r.randint(0, 1)}', f'(n0 + {r.randint(1, 20)})', f'(u8)(k * 37 + 5)', 'a_[k & 3]'])
    for i in range(n):
        rt, ps = F[i]; b = [f'  S24 s24 = {{ k + 1, 2, 3 }}; S160 s160 = {{ {{ 1, 2 }} }}; s160.x[39] = 11; i64 acc = k; u64 n0 = {r.randint(1, 300)}; u32 n1 = (u32)k + {r.randint(9, 80)}; u64 a_[4] = {{ 5, 66, 17, {r.randint(1, 400)} }}; u64 hits = 0;']
        blocks = []
        for j, t in enumerate(ps): b.append(f'  acc += {val(t, f"a{j}")};')
        for s in range(r.randint(2, 6)):
            m = r.random(); p = f'p{s}'; z = size()
            if m < .35: b.append(f'  u64 z{s} = {z}; u8 *{p} = _alloca(z{s}); fill({p}, z{s}, {s});'); blocks.append(s); keys.add('block')
            elif m < .5: b.append(f'  u64 z{s} = 0; u8 *{p} = 0; if((k & {r.choice([1, 2, 3])}) {r.choice(["==", "!="])} 1){{ z{s} = {z}; {p} = fill(_alloca(z{s}), z{s}, {s}); }}'); blocks.append(s); keys.add('conditional')
            elif m < .65:
                q = r.randint(1, 6); b.append(f'  u8 *l{s}[{q}]; u64 m{s}[{q}]; for(int i = 0; i < {q}; i++){{ m{s}[i] = {z} + i; l{s}[i] = _alloca(m{s}[i]); fill(l{s}[i], m{s}[i], i); }}'); keys.add('loop'); blocks.append((s, q))
            elif m < .75: b.append(f'  acc += use(_alloca({r.choice(["48", "160", "n0 + 1"])}), 40 < n0 ? 40 : n0, {s}, {call(r.randrange(n), "k - 2") if 0 else "acc"});'); keys.add('argument')
            elif m < .85: b.append(f'  {{ u64 y = {z}; void *q = _ReturnAddress(); u8 *p = (k & 1) ? _alloca(y) : fill(_alloca(y), y, 3); fill(p, y, 9); hits += bad(p, y, 9); hits += *(void **)_AddressOfReturnAddress() != q; }}'); keys.add('return address')
            else: b.append(f'  {{ u64 y = {z}; struct node {{ struct node *next; u64 v; u8 pad[8]; }} *first = 0; for(u64 i = 0; i < 5; i++){{ struct node *e = _alloca(sizeof(*e)); e->next = first; e->v = i * y; first = e; }} u64 t = 0; for(struct node *e = first; e; e = e->next) t = t * 3 + e->v; LOG(t); }}'); keys.add('list')
            if r.random() < .6: keys.add(f'call between'); b.append(f'  if(k > 0) acc ^= {call(r.randrange(n), "k - 1" if r.random() < .4 else "k - 2")};')
        if r.random() < .5 : b.append(f'  LOG(*(void **)_AddressOfReturnAddress() == _ReturnAddress()); hits += _ReturnAddress() == 0;')
        for x in blocks:
            if isinstance(x, tuple): b.append(f'  for(int i = 0; i < {x[1]}; i++) hits += bad(l{x[0]}[i], m{x[0]}[i], i);')
            else: b.append(f'  if(p{x}) hits += bad(p{x}, z{x}, {x});')
        b.append(f'  LOG(acc); LOG(hits); LOG(s24.a + s160.x[39] + n0 + n1);')
        b.append('  return ' + {'S24': 's24', 'double': '(double)(acc & 0xffff)', 'u8': '(u8)acc'}.get(rt, 'acc & 0xffffff') + ';')
        o.append(f'{rt} f{i}(u64 *out, i64 k{"".join(f", {t} a{j}" for j, t in enumerate(ps))}){{\n' + '\n'.join(b) + '\n}')
    m = ['EXPORT u64 t_0(u64 *out, u64 n, u64 q, u64 w){ out[0] = 0; i64 k = 0; S24 s24 = { 1, 2, 3 }; S160 s160 = { { 8 } }; s160.x[39] = 4;']
    for i in range(n): m.append(f'  k = {r.randint(0, 3)}; {{ i64 v = {call(i, "k")}; LOG(v); }}')
    o.append('\n'.join(m) + '\n  return out[0];\n}\n'); return '\n'.join(o), sorted(keys)


if __name__ == '__main__':
    import random, sys
    print(source(random.Random(int(sys.argv[1])))[0])
