"""Register pressure: many operands of mixed register classes are live across calls, short circuits, conditional operators and compound operators."""
from cgen import PRELUDE

HEAD = PRELUDE + '''
#define LOGD(x) do { union { double d; u64 u; } l_; l_.d = (x); LOG(l_.d != l_.d ? 0x7ff8ull : l_.u); } while(0)
static double F[16] = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}; static float H[16] = {3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3};
static i64 I[16] = {7,3,9,1,8,2,6,4,5,11,13,12,17,19,10,14}; static i32 K[16] = {2,7,1,8,2,8,1,8,2,8,4,5,9,0,4,5}; static u8 B[16] = {200,3,250,7,9,11,130,17,19,23,29,31,37,41,43,47};
static i32 Z, ONE = 1; static i64 cnt; static struct sb { u32 a : 5; i32 b : 9; u64 c : 40; } SB = {17, -99, 0x1234567890ull}; static struct big { i64 x[5]; } BG = {{1,2,3,4,5}};
static double hvd(double *p, i64 q){ return ((p[0]+1)*((p[1]+2)*((p[2]+3)*((p[3]+4)*((p[4]+5)*((p[5]+6)*(p[6]+q))))))) - 1; }
static i64 hvi(i64 *p, i64 q){ return (p[0]+1)*((p[1]+2)*((p[2]+3)^((p[3]+4)*((p[4]+5)|((p[5]+6)*((p[6]+q)-((p[7]^p[8])+(p[9]&(p[10]+3))))))))); }
static i64 cli(i64 a){ cnt++; return hvi(I, a) ? a : 0; }
static double cld(double a){ cnt++; return hvd(F, 1) > 0 ? a : 0; }
static float clf(float a, i64 b){ cnt++; return hvi(I, b) ? a + (float)b : (float)hvd(F, 2); }
static struct big clb(i64 a){ struct big r = BG; r.x[a & 3] += hvi(I, a) & 15; return r; }
'''


class P:
    def __init__(self, r): self.r = r; self.keys = set(); self.w = 0
    def leaf(self, c):
        r = self.r; i = r.randrange(12); j = r.choice([str(i), f'k{r.randrange(3)}', f'K[{i}]', f'(k0 + {r.randrange(4)})'])
        if c == 'd': return r.choice([f'p[{j}]', f'F[{j}]', f'(p[{j}] + F[{i}])', f'd{r.randrange(3)}', f'{i}.0', f'(d1 * {i}.0)', f'h[{j}]', f'(double)k{r.randrange(3)}', f'(h[{j}] + f0)', f'(double)q[{j}]'])
        return r.choice([f'q[{j}]', f'I[{j}]', f'(q[{j}] + I[{i}])', f'k{r.randrange(3)}', str(i), f'(k1 * {i})', f'B[{j}]', f'b[{j}]', f'(i64)d{r.randrange(3)}', f's->a', f's->b', f'SB.c', f'K[{j}]', f'(u16)q[{j}]', f'(i8)B[{j}]', f'(q[{j}] / 3)', f'(K[{j}] % 5)', f'(q[{j}] << (K[{i}] & 7))', f'g.x[{i & 3}]'])
    def v(self): self.w += 1; return self.w % 96
    def core(self, c, lv):
        r = self.r; k = r.random(); n = r.randint(3, 9)
        if lv <= 0: return self.leaf(c)
        if k < .22: self.keys.add('call'); return r.choice([f'cld({self.chain("d", r.randint(0, 4), lv-1)})', f'clf((float)({self.leaf("d")}), {self.chain("i", r.randint(0, 3), lv-1)})', f'hvd(p, {self.leaf("i")})']) if c == 'd' else r.choice([f'cli({self.chain("i", r.randint(0, 5), lv-1)})', f'(i64)clf(f0, {self.leaf("i")})', f'clb({self.leaf("i")}).x[{r.randrange(4)}]', f'hvi(q, {self.leaf("i")})'])
        cond = r.choice(['Z', 'ONE', 'Z == 0', f'k0 > {r.randint(-2, 9)}', 'd0 < d1', f'(cnt++, {r.choice(["Z", "ONE"])})', f'cli({r.choice([0, 3])})', f'({self.leaf("i")}) & 1', f'(Z && cli(1))', f'(ONE || {self.leaf("i")})', '!d2'])
        if k < .5: self.keys.add('?:'); return f'({cond} ? {self.chain(c, n, lv-1)} : {self.chain(c, r.randint(0, 6), lv-1)})'
        if k < .68: self.keys.add('&&||'); x = f'({cond} {r.choice(["&&", "||"])} {self.chain(r.choice("di"), r.randint(0, 7), lv-1)})'; return x if c == 'i' else f'(double){x}'
        if k < .76: self.keys.add(','); return f'(cnt += 3, {self.chain(c, r.randint(0, 4), lv-1)})'
        if k < .88: self.keys.add('asg'); return r.choice([f'(w[{self.v()}] = {self.chain("i", r.randint(0, 5), lv-1)})', f'(u[{self.v()}] += {self.chain("i", r.randint(0, 5), lv-1)})', f'(t[{self.v()}].b = {self.leaf("i")})', f'(u[{self.v()}] /= (K[{r.randrange(12)}] | 1))', f'(w[{self.v()}] <<= ({self.leaf("i")}) & 7)', f'u[{self.v()}]++']) if c == 'i' else r.choice([f'(e[{self.v()}] = {self.chain("d", r.randint(0, 5), lv-1)})', f'(e[{self.v()}] += {self.leaf("d")})', f'e[{self.v()}]--'])
        self.keys.add('cmp'); x = f'({self.chain("d", r.randint(0, 6), lv-1)} {r.choice(["<", ">", "==", "!=", "<=", ">="])} {self.chain("d", r.randint(0, 4), lv-1)})'
        return x if c == 'i' else f'(double){x}'
    def chain(self, c, n, lv):
        r = self.r; e = self.core(c, lv)
        for _ in range(n):
            op = r.choice(['+', '-', '*', '-']) if c == 'd' else r.choice(['+', '-', '*', '^', '|', '&', '-'])
            m = r.random()
            if c == 'd' and m < .2: e = f'({self.leaf("i")} {op} {e})'
            else: e = f'({self.leaf(c)} {op} {e})' if m < .9 else f'({e} {op} {self.leaf(c)})'
        return e
    def func(self, k):
        r = self.r; s = ''; self.keys = self.keys
        for x in range(r.randint(4, 8)):
            if r.random() < .4: s += r.choice(['d2 = d2 + 1;', 'f0 = f0 + h[1];', 'k1 = (k1 + 1) & 7;', 'd1 = d1 + d0;', 'f0 = f0 * 0.5f;']) * r.randint(1, 5)
            c = r.choice('di'); e = self.chain(c, r.randint(2, 9), r.randint(1, 3))
            s += f'\n  LOG{"D" if c == "d" else ""}({e});'
            if r.random() < .3: s += f'\n  if({self.chain(r.choice("di"), r.randint(0, 6), 2)}) LOG({x}); else LOG(-{x + 1});'
        return f'EXPORT u64 t_{k}(u64 *out, u64 a_, u64 b_, u64 c_){{ double *p = F, d0 = 2, d1 = 3, d2 = -1, e[96]; float *h = H, f0 = 1.5f; i64 *q = I, k0 = 1, k1 = 2, k2 = 3, w[96]; i32 u[96]; u8 *b = B; struct sb *s = &SB, t[96]; struct big g = BG; out[0] = 0; cnt = 0; for(int x = 0; x < 96; x++){{ e[x] = x; w[x] = x * 3; u[x] = x * 7; t[x] = SB; }}{s}\n  LOG(cnt); for(int x = 0; x < 96; x++){{ LOG(w[x] + u[x] * 1000003ll); LOGD(e[x]); LOG(t[x].b); }} return out[0]; }}'


def source(r):
    g = P(r); t = [g.func(k) for k in range(r.randint(2, 3))]
    return HEAD + '\n'.join(t) + '\n', [('pressure', k) for k in g.keys]
