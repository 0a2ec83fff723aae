// Address sanitizer for the stack and the globals of the instrumented image (its heap is made of arenas between guard pages).
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64;
__declspec(dllimport) void v_report(const char *what, u64 a, u64 b, u64 c); __declspec(dllimport) u8 *v_shadow(void); __declspec(dllimport) void v_count(u64 n);
u64 __asan_shadow_memory_dynamic_address;
int __asan_option_detect_stack_use_after_return = 0;
struct g { u64 beg, size, size_rz; char *name, *mod; u64 dyn; void *loc; u64 odr; };
#pragma section(".ASAN$GA", read, write)
#pragma section(".ASAN$GZ", read, write)
__declspec(allocate(".ASAN$GA")) struct g asan_ga = {0};
__declspec(allocate(".ASAN$GZ")) struct g asan_gz = {0};
#define SH(a) ((u8 *)(((u64)(a) >> 3) + __asan_shadow_memory_dynamic_address))
static void die(const char *w, u64 a, u64 n, u64 pc){ v_report(w, a, n, pc); __builtin_trap(); }
#define R(n, s) void __asan_report_load##n(u64 a){ die("load", a, s, (u64)__builtin_return_address(0)); } void __asan_report_store##n(u64 a){ die("store", a, s, (u64)__builtin_return_address(0)); }
R(1, 1) R(2, 2) R(4, 4) R(8, 8) R(16, 16)
void __asan_report_load_n(u64 a, u64 n){ die("load", a, n, (u64)__builtin_return_address(0)); }
void __asan_report_store_n(u64 a, u64 n){ die("store", a, n, (u64)__builtin_return_address(0)); }
static int bad(u64 a){ signed char s = *SH(a); return s && (signed char)((a & 7) + 1) > s; }
static void range(const char *w, u64 a, u64 n, u64 pc){
    if(!n) return; if(a + n < a || a < 0x1000){ die(w, a, n, pc); }
    if(bad(a) || bad(a + n - 1)) die(w, a, n, pc);
    for(u64 p = (a + 8) & ~7ull; p + 8 <= a + n; p += 8) if(*SH(p)){ if(bad(p) || *SH(p)) die(w, p, n, pc); }
}
void *memcpy(void *, const void *, u64); void *memmove(void *, const void *, u64); void *memset(void *, int, u64);
void *__asan_memcpy(void *d, const void *s, u64 n){ range("memcpy-read", (u64)s, n, (u64)__builtin_return_address(0)); range("memcpy-write", (u64)d, n, (u64)__builtin_return_address(0)); return memmove(d, s, n); }
void *__asan_memmove(void *d, const void *s, u64 n){ range("memmove-read", (u64)s, n, (u64)__builtin_return_address(0)); range("memmove-write", (u64)d, n, (u64)__builtin_return_address(0)); return memmove(d, s, n); }
void *__asan_memset(void *d, int c, u64 n){ range("memset", (u64)d, n, (u64)__builtin_return_address(0)); return memset(d, c, n); }
void __asan_init(void){} void __asan_version_mismatch_check_v8(void){} void __asan_handle_no_return(void){}
#define S(x) void __asan_set_shadow_##x(u8 *p, u64 n){ for(u64 i = 0; i < n; i++) p[i] = 0x##x; }
S(00) S(01) S(02) S(03) S(04) S(05) S(06) S(07) S(f1) S(f2) S(f3) S(f5) S(f8)
void __asan_poison_stack_memory(u64 a, u64 n){} void __asan_unpoison_stack_memory(u64 a, u64 n){}
void __asan_alloca_poison(u64 a, u64 n){} void __asan_allocas_unpoison(u64 a, u64 n){}
void __asan_register_globals(void *p, u64 n){} void __asan_unregister_globals(void *p, u64 n){}
void _start(void);
void vrt_start(void){
    __asan_shadow_memory_dynamic_address = (u64)v_shadow(); u64 n = 0;
    for(struct g *p = &asan_ga + 1; p < &asan_gz; p++){
        if(!p->beg){ p = (struct g *)((char *)p - sizeof *p + 8); continue; }
        for(u64 a = (p->beg + p->size + 7) & ~7ull; a < p->beg + p->size_rz; a += 8) *SH(a) = 0xf9;
        if(p->size & 7) *SH(p->beg + p->size) = p->size & 7;
        n++;
    }
    v_count(n); _start();
}
