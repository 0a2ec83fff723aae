"""C11 constraint and syntax violations. Each entry: (section, scope, text); {{bad||good}} marks the violation and the smallest change that makes the text valid.
scope: g = file scope, f = inside of a function (variables i j u l d f p q s t a c e fp vp of usual types are declared), x = file scope and needs nothing else."""
G = []
def g(sec, *texts):
    for t in texts: G.append((sec, 'g', t))
def f(sec, *texts):
    for t in texts: G.append((sec, 'f', t))

# 6.4 lexical / 6.5 expressions
f('6.4.4', 'i = {{08||07}};', 'i = {{0x||0x1}};', 'i = {{1z||1u}};', 'i = {{1lul||1lu}};', 'd = {{1.0e||1.0e1}};', 'd = {{0x1.0||0x1.0p0}};', 'i = {{0xfg||0xf}};', 'i = {{123abc||123}};', 'd = {{1.5u||1.5f}};')
f('6.4.4.4', "i = {{''||'a'}};", "i = '\\x{{||41}}';", "i = {{'a||'a'}};", "i = '\\{{q||n}}';")
f('6.4.5', 'q = {{"abc||"abc"}};', 'q = "\\x{{||41}}";')
f('6.5.1', 'i = {{undeclared_name||j}};', '{{undeclared_name = 5||i = 5}};', 'i = {{_Generic(i, char *: 1)||_Generic(i, int: 1)}};', 'i = _Generic(i, int: 1, {{int||long}}: 2);', 'i = _Generic(i, int: 1, default: 2{{, default: 3||}});')
f('6.5.2.1', 'i = {{i[j]||a[j]}};', 'i = a[{{p||j}}];', 'i = a[{{1.5||1}}];', 'i = a[{{s||j}}];')
f('6.5.2.2', '{{i(3)||fn1(3)}};', 'fn1({{||3}});', 'fn1(3{{, 4||}});', 'fn1({{s||3}});', 'fn0({{1||}});', 'fnp({{i||&i}});' if 0 else 'fnp({{s||&i}});', 'fns({{i||s}});', 'i = {{fnv(1)||fn1(1)}};', '{{s.a(1)||fn1(1)}};', 'fnvar({{||1}});')
f('6.5.2.3', 'i = s.{{nope||a}};', 'i = {{i.a||s.a}};', 'i = ps->{{nope||a}};', 'i = {{s->a||s.a}};', 'i = {{ps.a||ps->a}};', 'i = {{i->a||ps->a}};', 'i = {{pinc->x||ps->a}};', 'i = {{un.zz||un.x}};', 'i = s.{{5||a}};', 'i = s.{{||a}};')
f('6.5.2.4', '{{5++||i++}};', '{{s++||i++}};', '{{ci++||i++}};', '{{(i + j)++||i++}};', '{{a++||i++}};', '{{fn1(1)--||i--}};', '{{fn0++||i++}};')
f('6.5.2.5', 'ps = &(struct inc {{{ 1 }||S { 1 }}};' if 0 else 'i = ((int){ 1{{, 2||}} });', 'i = ((int[2]){ 1, 2{{, 3||}} })[0];', 'i = {{(void){ 1 }||(int){ 1 }}};')
f('6.5.3.1', '{{++5||++i}};', '{{++s||++i}};', '{{--ci||--i}};', '{{++a||++i}};', '{{++(i + 1)||++i}};')
f('6.5.3.2', 'p = {{&5||&i}};', 'p = {{&(i + j)||&i}};', 'i = {{*i||*p}};', 'i = {{*s||*p}};', 'i = {{*d||*p}};', 'vp = {{&s.bf||&s.a}};', 'vp = {{&fn1(1)||&i}};', 'vp = {{&rg||&i}};', 'i = {{*vp||*p}};', 'vp = {{&i++||&i}};')
f('6.5.3.3', 'i = {{-s||-i}};', 'i = {{+s||+i}};', 'i = {{~d||~i}};', 'i = {{!s||!i}};', 'vp = {{-p||p}};', 'vp = {{~p||p}};', 'vp = {{+p||p}};', 'i = {{~f||~i}};')
f('6.5.3.4', 'i = (int)sizeof({{struct inc||struct S}});', 'i = (int)sizeof({{*pinc||*ps}});', 'i = (int)sizeof({{s.bf||s.a}});', 'i = (int)_Alignof({{struct inc||struct S}});', 'i = (int)sizeof({{fn1||i}});', 'i = (int)sizeof({{fn1||fn1(1)}});', 'i = (int)sizeof({{void||int}});' if 0 else 'i = (int)_Alignof({{int(void)||int}});')
f('6.5.4', 'i = (int){{s||i}};', 's = {{(struct S)i||s}};', 'd = (double){{p||i}};', 'p = (int *){{d||i}};' , 'i = {{(int[3])i||(int)i}};', 'i = {{(int(void))i||(int)i}};', 'f = (float){{s||d}};', 'vp = (void *){{1.5||0}};')
f('6.5.5', 'i = {{s * 2||i * 2}};', 'd = d {{%||*}} 2;', 'i = {{p * 2||i * 2}};', 'i = i % {{2.0||2}};', 'i = i / {{s||j}};', 'f = f {{%||/}} f;', 'i = {{vp * 3||3}};')
f('6.5.6', 'vp = {{p + q||p + i}};', 'i = {{s + 1||i + 1}};', 'vp = p + {{1.5||1}};', 'vp = {{1 - p||p - 1}};', 'i = (int)({{p - ps||p - p}});', 'vp = {{pinc + 1||ps + 1}};', 'vp = {{d - p||p}};', 'i = {{s - s||i - i}};', 'i = (int)({{pinc - pinc||ps - ps}});')
f('6.5.7', 'i = {{d << 1||i << 1}};', 'i = i >> {{2.0||2}};', 'i = {{p << 1||i << 1}};', 'i = i << {{s||j}};', 'i = {{s >> 1||i >> 1}};')
f('6.5.8', 'i = {{s < s||i < j}};', 'i = {{p < d||p < p}};', 'i = {{s > 1||i > 1}};', 'i = 1.0 <= {{p||d}};', 'i = {{s >= s||i >= i}};')
f('6.5.9', 'i = {{s == s||i == i}};', 'i = {{d == p||d == d}};', 'i = {{s != 0||i != 0}};', 'i = {{p == 1.5||p == 0}};', 'i = {{un == un||i == i}};')
f('6.5.10', 'i = {{d & 1||i & 1}};', 'i = {{p & 1||i & 1}};', 'i = 1 & {{1.0||1}};', 'i = {{s & s||i & i}};')
f('6.5.11', 'i = {{d ^ 1||i ^ 1}};', 'i = i ^ {{p||j}};', 'i = {{s ^ 1||i ^ 1}};')
f('6.5.12', 'i = {{f | 1||i | 1}};', 'i = i | {{p||j}};', 'i = {{s | 1||i | 1}};')
f('6.5.13', 'i = {{s && 1||i && 1}};', 'i = i && {{s||j}};', 'i = {{un && i||i && i}};')
f('6.5.14', 'i = {{s || 1||i || 1}};'.replace('s || 1||i', 's |\x00 1||i'), )
f('6.5.15', 'i = {{s||i}} ? 1 : 2;', 'i = i ? {{s||1}} : 2;', 'vp = i ? {{s||p}} : p;', 'i = i {{? 1||? 1 : 2}};', 'i = (i ? {{s||i}} : d) > 0;')
f('6.5.16', '{{5 = i||i = 5}};', '{{i + 1 = j||i = j + 1}};', '{{ci = 5||i = 5}};', '{{a = 0||p = 0}};', '{{s = 5||i = 5}};', 'i = {{s||5}};', '{{fn0 = 0||p = 0}};', '{{*cp = 5||*p = 5}};', '{{sc.k = 5||s.a = 5}};', '{{sc = sc2||s = s2}};', 'd = {{p||1}};', 'p = {{d||0}};', 's = {{t||s2}};', '{{fn1(1) = 5||i = 5}};', '{{i++ = 5||i = 5}};', '{{"abc"[0]||q[0]}} += {{p||1}};' if 0 else '{{(char)i = 5||i = 5}};', '{{en1 = 3||i = 3}};', '{{fns(s) = s||s = s}};', '{{(i ? i : j) = 2||i = 2}};', '{{fns(s).a = 3||s.a = 3}};')
f('6.5.16.2', '{{s += 1||i += 1}};', 'd {{%=||*=}} 2;', 'd {{<<=||*=}} 1;', 'i += {{s||1}};', '{{5 += 1||i += 1}};', 'p {{*=||+=}} 2;', 'p += {{1.5||1}};', 'd {{&=||+=}} 1;', '{{ci += 1||i += 1}};', 'f {{|=||+=}} 1;', 'p {{-= p||-= 1}};', 'i {{^= 1.0||^= 1}};')
f('6.5.17', 'i = (s{{, ||, 1}});')
# 6.6 constants
g('6.6', 'int k1 = {{gi||3}};', 'int k2[{{gi||3}}];', 'enum e1 { E1 = {{gi||3}} };', 'int k3 = {{gf(1)||3}};', 'struct k4 { int b : {{gi||3}}; };', 'int k5 = {{gi + 1||4}};', '_Static_assert({{gi||1}}, "x");', 'int k6[1 / {{0||1}}];', 'enum e3 { E3 = {{1.5||1}} };', 'enum e4 { E4 = {{"a"||1}} };', 'int k7 = {{gi++||1}};', 'int *k8 = {{&gi + gi||&gi + 1}};', 'double k9 = {{gd * 2||2}};', 'int k10[{{1.5||2}}];')
f('6.6', 'static int st = {{i||1}};', 'switch(i){ case {{j||1}}: break; }', 'static int st2 = {{fn1(1)||1}};', 'switch(i){ case {{1.5||1}}: break; }', 'static int *st3 = {{p||0}};')
# 6.7 declarations
g('6.7', 'int r1; {{double||int}} r1;', 'int r2(void); {{double||int}} r2(void);', 'typedef int r3; typedef {{double||int}} r3;', 'int r4 = 1; int r4{{ = 2||}};', 'int r5(void){ return 1; } {{int r5(void){ return 2; }||int r5(void);}}', 'int r6; {{typedef int r6;||typedef int r6b;}}', 'enum r7 { R7 }; {{int R7;||int R7b;}}', 'int r8(int); int r8({{double||int}});', 'int r9[3]; int r9[{{4||3}}];', '{{unknown_t||int}} r10;', 'int r11(int a, int b); int r11(int a{{||, int b}});', 'extern int r12; static double r12b; extern {{float||int}} r12;', 'int *r13; int {{||*}}r13;', 'typedef int r14; {{int r14;||int r14b;}}', 'int r15(void); int r15{{;||(void);}}')
f('6.7', 'int z1; {{int z1;||int z2;}}', 'int z3 = 1; { int z3 = 2; } {{double z3;||double z4;}}', 'typedef int z5; {{int z5;||int z6;}}', '{{unknown_t||int}} z7;', 'int z8; {{typedef int z8;||typedef int z9;}}', 'enum { Z10 }; {{enum { Z10 };||enum { Z11 };}}', 'extern int z12b; int z12; {{extern int z12;||}}')
g('6.7.1', '{{static extern||static}} int sc1;', '{{typedef static||typedef}} int sc2;', '{{register||static}} int sc3;', '{{auto||static}} int sc4;', 'int sc5({{static||}} int a);', 'int sc6({{extern||}} int a){ return a; }', 'int sc7(int a){ return a; } {{typedef int sc8(int a){ return a; }||}}', 'typedef int sc9{{ = 1||}};')
f('6.7.1', '{{static register||static}} int y1 = 0;', 'for({{static||}} int y2 = 0; y2 < 1; y2++) ;', '{{_Thread_local||static}} int y3 = 0;', '{{static int y4(void);||extern int y4(void);}}', '{{extern int y5 = 3;||int y5 = 3;}}', '{{typedef int y6 = 3;||int y6 = 3;}}')
g('6.7.2', '{{int double||int}} ts1;', '{{short double||double}} ts2;', '{{unsigned float||float}} ts3;', '{{signed unsigned||unsigned}} int ts4;', '{{long long long||long long}} ts5;', '{{char long||long}} ts6;', '{{void||int}} ts7;', '{{long float||float}} ts8;', '{{short long||long}} int ts9;', '{{unsigned _Bool||_Bool}} ts10;', '{{struct S int||struct S}} ts11;', '{{int int||int}} ts12;')
f('6.7.2', '{{void||int}} ty1;', '{{int char||int}} ty2;')
g('6.7.2.1', 'struct m1 { int a; {{int a;||int b;}} };', 'struct m2 { {{void||int}} a; };', 'struct m3 { struct {{m3||S}} a; };', 'struct m4 { int a({{void||*b}}); };' if 0 else 'struct m4 { int {{a(void)||(*a)(void)}}; };', 'struct m5 { int b : {{33||32}}; };', 'struct m6 { int b : {{-1||1}}; };', 'struct m7 { int {{b||}} : 0; };', 'struct m8 { {{double||int}} b : 3; };', 'struct m9 { {{int *||int}} b : 3; };', 'struct m10 { int a; }; struct m10 {{{ int a; }||}} m10v;'.replace('{{{ int a; }||}}', '{{\x01 int a; }||}}'), 'struct m11 { int n; int a[]{{; int b||}}; };', 'struct m12 { {{static||}} int a; };', 'struct m13 { struct inc {{a||*a}}; };', 'union m14 { int a; }; {{struct||union}} m14 m14v;', 'struct m15 { struct { int a; }; int {{a||b}}; };', 'struct m16 { int a{{||;}} };', 'struct m17 { _Bool b : {{2||1}}; };', 'struct m18 { char c : {{9||8}}; };', 'struct m19 { {{typedef||}} int a; };', 'struct m20 { int a{{ = 3||}}; };', 'struct m21 { {{extern||}} int a; };', 'struct m22 { struct S s; int x : {{s||3}}; };', 'struct m23 { long long b : {{65||64}}; };')
f('6.7.2.1', 'struct n1 { int a; {{int a;||int b;}} } n1v; n1v.a = 1;')
g('6.7.2.2', 'enum n1 { N1, {{N1||N2}} };', 'enum n3 { N3 = {{gi||3}} };', 'enum n4 { N4 }; enum n4 {{{ N5 }||}} n4v;'.replace('{{{ N5 }||}}', '{{\x01 N5 }||}}'), 'enum n6 { {{||N6}} };', 'enum n7 { {{5||N7}} };', 'enum n8 { N8 }; {{struct||enum}} n8 n8v;')
g('6.7.2.3', '{{struct undef1||struct S}} tg1;', 'struct tg2; {{union||struct}} tg2 *tg2p;', '{{union undef3||union U}} tg3[2];', '{{struct undef4 f4(void){ }||int f4(void){ return 1; }}}'.replace('}}}', '\x02}}'))
f('6.7.2.3', '{{struct undef5||struct S}} tq1;', 'struct undef6 {{tq2||*tq2}};')
g('6.7.3', 'int *{{restrict||}} q1; {{||}}' if 0 else '{{restrict||const}} int q2 = 1;', 'int {{restrict||const}} q3 = 1;')
g('6.7.4', '{{inline||}} int il1;', 'struct il2 { {{inline||}} int a; };', '{{_Noreturn||}} int il3;')
f('6.7.4', '{{inline||}} int il4 = 0;', '{{_Noreturn||}} int il5 = 0;')
g('6.7.5', 'typedef {{_Alignas(8)||}} int al1;', 'int al2({{_Alignas(8)||}} int a);', '_Alignas({{3||4}}) int al3;', '_Alignas({{gi||4}}) int al4;', '{{_Alignas(8)||}} int al5(void);', 'struct al6 { {{_Alignas(8)||}} int b : 3; };', '_Alignas({{-8||8}}) int al7;', '_Alignas({{1.5||8}}) int al8;', '_Alignas({{1||8}}) long long al9;', '_Alignas({{struct inc||struct S}}) char al10;')
f('6.7.5', '{{_Alignas(8) register||_Alignas(8)}} int am1 = 0;', '_Alignas({{3||4}}) int am2 = 0;')
g('6.7.6.2', 'int ar1[{{-1||1}}];', 'int ar2[{{"a"||1}}];', '{{void||int}} ar3[3];', 'struct inc {{ar4[3]||*ar4[3]}};', 'int ar5[2]{{[]||[2]}};', 'int {{ar6[3](void)||(*ar6[3])(void)}};', 'int ar7[{{struct S||3}}];', 'int ar8[{{||3}}][{{||3}}];' if 0 else 'extern int ar8[3][{{||3}}];')
f('6.7.6.2', 'int as1[{{-2||2}}]; as1[0] = 1;', '{{void||int}} as2[3];', 'int as3[{{i||3}}]; as3[0] = 1;', 'int as4[{{||3}}]; as4[0] = 1;', 'static int as5[{{i||3}}];')
g('6.7.6.3', 'int {{fu1(void)[3]||*fu1(void)}};', 'int {{fu2(void)(void)||(*fu2(void))(void)}};', 'int fu3(int a, {{int a||int b}}){ return a; }', 'int fu4({{void a||int a}});', 'int fu5({{void, int||int}});', 'int fu6({{...||int, ...}});', 'int fu8(struct inc {{a||*a}}){ return 1; }', 'struct inc {{fu9(void){ struct inc *x = 0; return *x; }||*fu9(void){ return 0; }}}'.replace('}}}', '\x02}}'), 'int fu10({{int a||int a, int b}}); int fu10(int a, int b);', 'int fu11(int a{{,||}});', 'int fu12(int a, ...{{, int b||}});', 'int fu13({{a||int a}}){ return a; }', 'int fu14({{int||char}} a); int fu14(char a);')
g('6.7.7', 'typedef int {{ty1 = 3||ty1}};')
g('6.7.9', 'int in1[2] = { 1, 2{{, 3||}} };', 'int in2 = { 1{{, 2||}} };', 'struct S in3 = { .{{nope||a}} = 1 };', 'int in4[2] = { [{{2||1}}] = 1 };', 'int in5[2] = { [{{-1||1}}] = 1 };', 'int in6[2] = { [{{gi||1}}] = 1 };', 'struct S in7 = {{1||{ 1 }}};'.replace('{ 1 }}}', '{ 1 \x02}}'), 'char in8[2] = {{"abc"||"ab"}};', 'int in9[2] = {{1||{ 1 }}};'.replace('{ 1 }}}', '{ 1 \x02}}'), 'struct inc in10 = {{{ 0 }||}};' if 0 else 'int in11 = { {{.a||}}{{ = ||}}1 };' if 0 else 'int in11 = { {{.a = 1||1}} };', 'int in12[2] = { {{.a||[1]}} = 1 };', 'struct S in13 = { {{[0]||.a}} = 1 };', 'int in14 = {{||1}};', 'int in15(void){{ = 3||}};', 'extern int in16[]; int in17[{{||2}}]{{||}};' if 0 else 'struct S in18 = { 1, 2, 3, 4, 5, 6, 7, 8, 9{{, 10||}} };' if 0 else 'char in18[] = {{5||"5"}};', 'struct S *in19 = {{1.5||0}};', 'int in20[2] = {{"ab"||{ 1 }}};'.replace('{ 1 }}}', '{ 1 \x02}}'))
f('6.7.9', 'int iu1[2] = { 1, 2{{, 3||}} };', 'struct S iu2 = { .{{nope||a}} = 1 };', 'struct S iu3 = {{i||s}};', 'int iu4 = {{s||i}};', 'int iu5[2] = {{a||{ 1 }}};'.replace('{ 1 }}}', '{ 1 \x02}}'), 'char iu6[3] = {{"abcd"||"abc"}};', 'int *iu7 = {{d||0}};', 'double iu8 = {{p||1}};', 'extern int iu9{{ = 3||}};')
g('6.7.10', '_Static_assert({{0||1}}, "m");', '_Static_assert(sizeof(int) == {{8||4}}, "m");', '_Static_assert(1{{||, "m"}});' if 0 else '_Static_assert(1, {{5||"m"}});')
f('6.7.10', '_Static_assert({{0||1}}, "m");', '_Static_assert({{i||1}}, "m");')
# 6.8 statements
f('6.8.1', '{{case 1: i = 1;||switch(i){ case 1: i = 1; }}}'.replace('}}}', '\x02}}'), '{{default: i = 1;||switch(i){ default: i = 1; }}}'.replace('}}}', '\x02}}'), 'lab1: i = 1; {{lab1||lab2}}: i = 2; goto lab1;', 'switch(i){ case 1: break; case {{1||2}}: break; }', 'switch(i){ default: break; {{default: break;||case 1: break;}} }', "switch(i){ case 'a': break; case {{97||98}}: break; }", 'switch((unsigned char)i){ case 1: break; case 2 - 1{{||+ 4}}: break; }')
f('6.8.3', 'i = 1{{||;}} j = 2;', 'i = (1 + 2{{||)}};', 'i = a[1{{||]}};', '{{)||}};', 'i = {{||1}};', 'i = 1 {{+||}};', 'i = {{* / 2||2}};', 'if(i){{)||}} i = 1;', '{{else i = 1;||if(i) ; else i = 1;}}', 'i = (int{{||)}} 1;')
f('6.8.4', 'if({{s||i}}) i = 1;', 'switch({{d||i}}){ case 1: break; }', 'switch({{p||i}}){ case 1: break; }', 'switch({{s||i}}){ default: break; }', 'if{{ i)||(i)}} i = 1;', 'if({{||i}}) i = 1;', 'if({{fnv(1)||i}}) i = 1;')
f('6.8.5', 'while({{s||i < 0}}) i = 1;', 'do i = 1; while({{s||0}});', 'for(; {{s||i < 0}}; ) i = 1;', 'do i = 1; while(0){{||;}} j = 1;', 'for(i = 0; i < 1{{||;}} i++) ;' if 0 else 'while({{||0}}) ;', 'for(i = 0{{, i < 0; i++||; i < 0; i++}}) ;', 'while({{fnv(1)||0}}) ;', 'do i = 1; {{||while(0)}};')
f('6.8.6', '{{break;||}}', '{{continue;||}}', 'goto {{nolabel||lab3}}; lab3: i = 1;', 'switch(i){ case 1: {{continue;||break;}} }', 'if(i){ {{break;||}} }', 'goto {{5||lab4}}; lab4: i = 1;')
g('6.8.6.4', 'void rt1(void){ return{{ 1||}}; }', 'int rt2(void){ return {{gs||1}}; }', 'struct S rt3(void){ return {{1||gs}}; }', 'int *rt4(void){ return {{1.5||0}}; }', 'double rt5(void){ return {{&gi||1}}; }', 'int rt6(void){ return{{||1}} {{||}}; }' if 0 else 'void rt6(int k){ if(k) return {{k||}}; }')
g('6.9', '{{int fd1(void){ return 1; } ;;{||int fd1(void){ return 1; }}}'.replace('}}}', '\x02}}') if 0 else 'int fd2(void){ {{int inner(void){ return 1; }||}} return 1; }', '{{static||}} int fd3(void); {{||}}' if 0 else '{{5||int fd4}};', '{{}||}} int fd5;', '{{gi = 5;||int fd6 = 5;}}', '{{if(1) ;||int fd7;}}', '{{return 1;||int fd8;}}', 'int fd9(void) {{return 1;||{ return 1; }}}'.replace('}}}', '\x02}}'), '{{int||int fd10}} fd11{{||}};' if 0 else 'int {{||fd12}} = 5;')
# 6.10 preprocessor (whole lines)
for t in ['{{#if||#if 1}}\n#endif', '{{#endif||}}', '{{#else||}}', '{{#elif 1||}}', '{{#include "does_not_exist.h"||}}', '{{#error stop||}}', '{{#define||#define PPA}}', '{{#define 5||#define PPB 5}}', '{{#undef||#undef PPC}}', '{{#nonsense||}}', '{{#ifdef||#ifdef PPD}}\n#endif', '#if 1\n#else\n{{#else||}}\n#endif', '{{#define PPE(a, a) a||#define PPE(a, b) a}}', '{{#define PPF(a||#define PPF(a) a}}', '#define PPG(a) a\nint ppg = {{PPG(1, 2)||PPG(1)}};', '#define PPH(a, b) a\nint pph = {{PPH(1)||PPH(1, 2)}};', '{{#define PPI(a) #b||#define PPI(a) #a}}', '{{#define PPJ ## x||#define PPJ x}}', '{{#define PPK(x) x ##||#define PPK(x) x}}', '{{#if 1 +||#if 1}}\n#endif', '{{#if (1||#if (1)}}\n#endif', '{{#if 1.5||#if 1}}\n#endif', '{{#if "a"||#if 1}}\n#endif', '#define PPL 1\n{{#define PPL 2||#define PPL 1}}', '{{#if 1 / 0||#if 1 / 1}}\n#endif', '{{#define defined||#define definedx}}', '{{#undef __FILE__||#undef PPM}}', '{{#define __VA_ARGS__||#define PPN}}', '{{#define PPO __VA_ARGS__||#define PPO 1}}', '#if 1\n#else\n{{#elif 1||}}\n#endif', '{{#include||}}', '{{#include nope||}}', '{{#ifndef||#ifndef PPQ}}\n#endif', '{{#if 1 ? 2||#if 1 ? 2 : 3}}\n#endif', '{{#if 08||#if 07}}\n#endif', '{{#if 1 = 1||#if 1 == 1}}\n#endif', '{{#line abc||}}', '#define PPR(a) a\nint ppr = {{PPR(1||PPR(1)}};\n']:
    G.append(('6.10', 'x', t))

FIX = lambda t: t.replace('\x00', '|').replace('\x01', '{').replace('\x02', '}')
ENTRIES = [(f'{s}#{k}', sc, t) for k, (s, sc, t) in enumerate(G)]
GLOBALS = '''struct S { int a; int bf : 3; long long c; }; union U { int x; float y; }; struct inc; struct T { double z; }; struct SC { const int k; int m; };
int gi; double gd; struct S gs; int gf(int x){ return x; } enum en0 { en1 = 7 };
int fn0(void){ return 1; } int fn1(int x){ return x + 1; } void fnv(int x){ gi = x; } int fnp(int *x){ return *x; } struct S fns(struct S x){ return x; } int fnvar(int x, ...){ return x; }
'''
GLOBALS_AGAIN = '''struct S { int a; int bf : 3; long long c; }; union U { int x; float y; }; struct inc; struct T { double z; }; struct SC { const int k; int m; };
extern int gi; extern double gd; extern struct S gs; int gf(int x);
int fn0(void); int fn1(int x); void fnv(int x); int fnp(int *x); struct S fns(struct S x); int fnvar(int x, ...);
'''
LOCALS = 'int i = 1, j = 2; unsigned u = 3; long long l = 4; double d = 5; float f = 6; int *p = &i; char *q = "q"; struct S s = { 1 }, s2 = { 2 }; struct T t = { 1 }; int a[4] = { 1, 2, 3, 4 }; const int ci = 5; struct S *ps = &s; struct inc *pinc = 0; void *vp = 0; const int *cp = &i; union U un = { 1 }; struct SC sc = { 1, 2 }, sc2 = { 3, 4 }; register int rg = 1; (void)u, (void)l, (void)vp, (void)d, (void)f, (void)q, (void)cp, (void)rg; i = ci + sc.m + sc2.m + un.x + a[0] + (ps == 0) + (pinc == 0) + s2.a + (int)t.z;'


def split(t):
    """-> (bad text, good text, line of the violation)"""
    bad = good = ''; line = None; i = 0
    while 1:
        k = t.find('{{', i)
        if k < 0: bad += t[i:]; good += t[i:]; break
        bad += t[i:k]; good += t[i:k]; e = t.index('}}', k)
        # a text may end in }: take the last of the closing braces
        m = t.index('||', k); b, g_ = t[k + 2:m], t[m + 2:e]
        if line is None: line = bad.count('\n')
        bad += b; good += g_; i = e + 2
    return FIX(bad), FIX(good), line
