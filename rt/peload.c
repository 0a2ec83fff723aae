// peload - a small native loader for x86-64 PE images: maps an image, applies its relocations, binds its imports to
// ms_abi stand-ins of the few Win32/UCRT functions it uses, and runs it as a Linux process while monitors watch.
//
// Usage:  peload server IMAGE|-      jobs on stdin (fields separated by \x1f), one answer line per job on stdout.
//         peload run IMAGE args...   run one program.
//
// Job:    kind \x1f image \x1f cwd \x1f stdout-file \x1f cpu-seconds \x1f wall-seconds \x1f options \x1f command-line
// kind is "run" (entry point of an exe) or "call" (exports of a dll, monitored).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <pthread.h>
#include <math.h>
#include <time.h>
#include <ucontext.h>
#include <fnmatch.h>
#include <sched.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <asm/prctl.h>

#define MS __attribute__((ms_abi))
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64; typedef int32_t s32;

// ---------------------------------------------------------------------------------------------------------- shared
struct shared{
    volatile u32 reported; char report[1024];
    volatile u64 va_reserve, va_commit, waits, wakes, threads, perturbs, steps, unwind_checks, calls, files_read, files_written, bytes_written, faults, san_reports, asan_checks;
    volatile u64 alloc_events;
    volatile u64 order_hash;                        // hash over the order of cross-thread events (which thread, which event)
    volatile u32 n_guards; u8 guards[1<<19];        // coverage (trace-pc-guard), cumulative over jobs of this server
} *S;

static void report(const char *fmt, ...){
    u32 zero = 0;
    if(!__atomic_compare_exchange_n(&S->reported, &zero, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return;
    va_list va; va_start(va, fmt); vsnprintf(S->report, sizeof S->report, fmt, va); va_end(va);
    for(char *p = S->report; *p; p++) if(*p == '\n' || *p == '\x1f') *p = ' ';
}
static void die(const char *fmt, ...){
    va_list va; va_start(va, fmt); char b[900]; vsnprintf(b, sizeof b, fmt, va); va_end(va);
    report("%s", b); _exit(99);
}

// ---------------------------------------------------------------------------------------------------------- options
static char opts_buf[4096];
static const char *opt(const char *key){
    static __thread char val[4096]; size_t kl = strlen(key);
    for(char *p = opts_buf; *p;){
        char *e = strchrnul(p, ';'); 
        if((size_t)(e-p) > kl && !strncmp(p, key, kl) && p[kl] == '='){ size_t n = e-p-kl-1; if(n > 4095) n = 4095; memcpy(val, p+kl+1, n); val[n] = 0; return val; }
        p = *e ? e+1 : e;
    }
    return 0;
}
static u64 opt_u64(const char *key, u64 dflt){ const char *v = opt(key); return v ? strtoull(v, 0, 0) : dflt; }

// ---------------------------------------------------------------------------------------------------------- image
struct image{ char path[512]; u8 *base; u64 size; u64 pref; u32 entry, nsec; u8 *hdr; u32 dir_rva[16], dir_size[16]; u64 stack; int is_dll; u32 tls_index; s64 delta; };
static struct image images[24]; static int n_images;
static char main_path_win[600], *cmdline_a; static u16 *cmdline_w;

static void *resolve_import(const char *dll, const char *name);
static __attribute__((noreturn)) void bad_image(const char *path, const char *why){ die("badimage %s: %s", path, why); __builtin_unreachable(); }

static struct image *load_image(const char *path, u64 want_base){
    int fd = open(path, O_RDONLY); struct stat st;
    if(fd < 0 || fstat(fd, &st)) die("cannot open image %s", path);
    u8 *f = mmap(0, st.st_size ? st.st_size : 1, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    u64 fs = st.st_size;
    if(fs < 0x200 || f[0] != 'M' || f[1] != 'Z') bad_image(path, "no MZ");
    u32 pe = *(u32 *)(f + 0x3c);
    if(pe + 0x108 > fs || memcmp(f+pe, "PE\0\0", 4)) bad_image(path, "no PE");
    u8 *opth = f + pe + 24; u32 nsec = *(u16 *)(f+pe+6), optsz = *(u16 *)(f+pe+20);
    if(*(u16 *)(f+pe+4) != 0x8664 || *(u16 *)opth != 0x20b) bad_image(path, "not PE32+ x64");
    struct image *im = &images[n_images++]; memset(im, 0, sizeof *im);
    snprintf(im->path, sizeof im->path, "%s", path);
    im->pref = *(u64 *)(opth+24); im->size = *(u32 *)(opth+56); im->entry = *(u32 *)(opth+16); im->stack = *(u64 *)(opth+72); im->nsec = nsec;
    u16 dllchar = *(u16 *)(opth+70);
    im->is_dll = (*(u16 *)(f+pe+22) & 0x2000) != 0;
    u32 nd = *(u32 *)(opth+108); for(u32 i = 0; i < nd && i < 16; i++){ im->dir_rva[i] = *(u32 *)(opth+112+8*i); im->dir_size[i] = *(u32 *)(opth+116+8*i); }
    u64 at = want_base ? want_base : im->pref;
    int relocatable = !(*(u16 *)(f+pe+22) & 1); // without a relocation directory there is nothing to relocate
    if(want_base && want_base != im->pref && !(dllchar & 0x40) ) { at = im->pref; }
    u8 *m = mmap((void *)at, im->size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
    if(m == MAP_FAILED || (u64)m != at){
        if(m != MAP_FAILED) munmap(m, im->size);
        if(!relocatable) bad_image(path, "preferred base taken and no relocations");
        for(u64 a = 0x7ff000000000; ; a += 0x10000000){ m = mmap((void *)a, im->size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0); if(m != MAP_FAILED) break; }
    }
    im->base = m; im->hdr = m; 
    u32 hs = *(u32 *)(opth+60); if(hs > fs || hs > im->size) bad_image(path, "SizeOfHeaders");
    memcpy(m, f, hs);
    u8 *sec = opth + optsz;
    for(u32 i = 0; i < nsec; i++, sec += 40){
        u32 vs = *(u32 *)(sec+8), va = *(u32 *)(sec+12), rs = *(u32 *)(sec+16), rp = *(u32 *)(sec+20);
        u32 n = rs; if(vs && vs < n) n = vs;
        if((u64)rp + n > fs || (u64)va + n > im->size || (u64)va + vs > im->size) bad_image(path, "section out of file/image");
        memcpy(m + va, f + rp, n);
    }
    s64 delta = (s64)((u64)m - im->pref); im->delta = delta;
    if(delta && im->dir_rva[5]){
        u8 *r = m + im->dir_rva[5], *re = r + im->dir_size[5];
        while(r + 8 <= re){
            u32 page = *(u32 *)r, sz = *(u32 *)(r+4); if(sz < 8 || r + sz > re) bad_image(path, "reloc block");
            for(u32 i = 8; i + 2 <= sz; i += 2){ u16 e = *(u16 *)(r+i); u32 t = e >> 12, a = page + (e & 0xfff);
                if(t == 0) continue; if(t != 10 || a + 8 > im->size) bad_image(path, "reloc entry");
                *(u64 *)(m + a) += delta; }
            r += sz;
        }
    }
    if(im->dir_rva[1]) for(u8 *d = m + im->dir_rva[1]; *(u32 *)(d+12); d += 20){
        char *dll = (char *)m + *(u32 *)(d+12);
        u64 *ilt = (u64 *)(m + (*(u32 *)d ? *(u32 *)d : *(u32 *)(d+16))), *iat = (u64 *)(m + *(u32 *)(d+16));
        for(; *ilt; ilt++, iat++){
            if(*ilt >> 63){ char b[32]; snprintf(b, 32, "#%u", (u32)(*ilt & 0xffff)); *iat = (u64)resolve_import(dll, b); }
            else *iat = (u64)resolve_import(dll, (char *)m + (u32)*ilt + 2);
        }
    }
    // protections
    sec = opth + optsz;
    for(u32 i = 0; i < nsec; i++, sec += 40){
        u32 vs = *(u32 *)(sec+8), va = *(u32 *)(sec+12), rs = *(u32 *)(sec+16), ch = *(u32 *)(sec+36);
        int p = 0; if(ch & 0x40000000) p |= PROT_READ; if(ch & 0x80000000) p |= PROT_WRITE; if(ch & 0x20000000) p |= PROT_EXEC;
        u64 n = vs ? vs : rs; if(n) mprotect(m + (va & ~0xfffu), (n + (va & 0xfff) + 0xfff) & ~0xfffull, p);
    }
    mprotect(m, 0x1000, PROT_READ);
    munmap(f, st.st_size);
    return im;
}
static void *find_export(struct image *im, const char *name){
    if(!im->dir_rva[0]) return 0;
    u8 *m = im->base, *e = m + im->dir_rva[0];
    u32 nn = *(u32 *)(e+24), *names = (u32 *)(m + *(u32 *)(e+32)), *funs = (u32 *)(m + *(u32 *)(e+28)); u16 *ords = (u16 *)(m + *(u32 *)(e+36));
    u32 nf = *(u32 *)(e+20), ob = *(u32 *)(e+16);
    if(*name == '#'){ u32 k = atoi(name + 1) - ob; return k < nf && funs[k] ? m + funs[k] : 0; }
    u32 l = 0, h = nn; while(l < h){ u32 q = (l + h)/2; int c = strcmp(name, (char *)m + names[q]); if(!c) return m + funs[ords[q]]; if(c < 0) h = q; else l = q + 1; } // binary, as Windows does
    return 0;
}
static struct image *image_of(u64 a){ for(int i = 0; i < n_images; i++) if(a >= (u64)images[i].base && a < (u64)images[i].base + images[i].size) return &images[i]; return 0; }

// ---------------------------------------------------------------------------------------------------------- threads
struct thread{ u8 teb[0x2000]; void *tls[64]; u64 id; u64 fn, arg; u32 exit_code; pthread_t pt; volatile int done; struct thread *next; u32 last_error; u64 rng; };
static __thread struct thread *T;
static struct thread *main_thread;
static volatile int n_threads = 1; static volatile u64 next_tid = 1;

static void setup_teb(struct thread *t, void *stack_base, void *stack_limit){
    *(void **)(t->teb + 0x08) = stack_base; *(void **)(t->teb + 0x10) = stack_limit; *(void **)(t->teb + 0x30) = t->teb;
    *(u64 *)(t->teb + 0x40) = getpid(); *(u64 *)(t->teb + 0x48) = 0x100 + 4*t->id; *(void **)(t->teb + 0x58) = t->tls;
    static u8 peb[0x1000]; *(void **)(t->teb + 0x60) = peb;
    for(int i = 0; i < n_images; i++){
        struct image *im = &images[i]; if(!im->dir_rva[9]) continue;
        u64 *d = (u64 *)(im->base + im->dir_rva[9]); // start end index callbacks zerofill,char
        u64 n = d[1] - d[0]; u32 zf = *(u32 *)(d+4);
        u32 slot = (i + opt_u64("tls_base", 0)) & 63;
        im->tls_index = slot; *(u32 *)d[2] = slot;
        u8 *blk = 0; if(posix_memalign((void **)&blk, 0x8000, n + zf + 0x8000)) _exit(98);
        if(opt_u64("tls_min", 0)){ u32 al = *(u32 *)((u8 *)d + 36) >> 20 & 15; u64 m = al ? 1u << (al - 1) : 16; blk += m < 0x4000 ? m : 0; }   // aligned as the directory asks for, and not more
        memcpy(blk, (void *)d[0], n); memset(blk + n, 0, zf); t->tls[slot] = blk;
    }
    syscall(SYS_arch_prctl, ARCH_SET_GS, t->teb);
    T = t;
}
static void order_event(u32 what){ u64 h = S->order_hash; h = (h ^ ((T ? T->id : 0) << 8 | what)) * 0x100000001b3ull; S->order_hash = h; }

// schedule perturbation: a deterministic-per-seed stream of delays at the points the monitors see
static u64 perturb_seed; static u32 perturb_rate, perturb_hot, hot_mod; // out of 65536, at coverage points; at coverage points next to an interlocked instruction
static volatile u32 perturb_mode;
static void perturb(int at_sync){
    if(!perturb_seed || !T) return;
    u64 x = T->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; T->rng = x;
    u32 r = (x >> 20) & 0xffff;
    if(at_sync == 1 ? (r & 1) : r < (at_sync ? perturb_hot : perturb_rate)){
        S->perturbs++;
        // with few active places the delays are long compared to everything that the other threads do
        if(at_sync == 2 && hot_mod > 1){ struct timespec ts = {0, 1000 * (50 + ((x >> 44) & 2047))}; nanosleep(&ts, 0); return; }
        switch((x >> 40) & 3){
            case 0: case 1: sched_yield(); break;
            case 2: { struct timespec ts = {0, 1000 * ((x >> 44) & 63)}; nanosleep(&ts, 0); } break;
            default: { struct timespec ts = {0, 1000 * ((x >> 44) & 511)}; nanosleep(&ts, 0); } break;
        }
    }
}
static void seed_thread(struct thread *t){ t->rng = (perturb_seed * 0x9e3779b97f4a7c15ull) ^ ((t->id+1) * 0xd1342543de82ef95ull); if(!t->rng) t->rng = 1; }

// ---------------------------------------------------------------------------------------------------------- signals
static int crash_code(int sig){ return 100 + sig; }
static u64 step_handler(ucontext_t *uc); static int interfere_step(u64 rip);
static void on_signal(int sig, siginfo_t *si, void *ucv){
    ucontext_t *uc = ucv; u64 rip = uc->uc_mcontext.gregs[REG_RIP];
    if(sig == SIGTRAP && (interfere_step(rip) || step_handler(uc))) return;
    struct image *im = image_of(rip); u64 sp = uc->uc_mcontext.gregs[REG_RSP];
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : sig == SIGTRAP ? "SIGTRAP(int3/assert)" : sig == SIGXCPU ? "CPULIMIT" : "SIG";
    int so = 0; if(T && sig == SIGSEGV){ u64 a = (u64)si->si_addr, lim = *(u64 *)(T->teb+0x10); so = a < lim + 0x1000 && a + 0x200000 > lim; }
    // innermost frames: scan the stack for return addresses into the image (best effort, for the report only)
    char tr[400]; int o = 0; tr[0] = 0;
    if(im){ u64 *p = (u64 *)(sp & ~7ull), hi = T ? *(u64 *)(T->teb+8) : 0; for(int i = 0; i < 400 && (u64)(p+i) + 8 <= hi && o < 300; i++) if(image_of(p[i]) == im) o += snprintf(tr+o, sizeof tr-o, " %llx", (unsigned long long)(p[i]-(u64)im->base)); }
    report("%s%s addr=%llx rva=%llx stack:%s", so ? "STACKOVERFLOW " : "", n, (unsigned long long)si->si_addr, (unsigned long long)(im ? rip - (u64)im->base : rip), tr);
    _exit(crash_code(sig));
}
static void install_signals(void){
    struct sigaction sa = {0}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
    int s[] = {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP, SIGXCPU}; for(int i = 0; i < 6; i++) sigaction(s[i], &sa, 0);
}
static void alt_stack(void){ stack_t ss = {.ss_size = 65536}; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, 0); }

// ---------------------------------------------------------------------------------------------------------- paths
static int fix_case(char *p){
    if(!access(p, F_OK)) return 1;
    char out[4096] = ""; size_t o = 0; char *q = p; if(*q == '/'){ out[o++] = '/'; q++; }
    out[o] = 0;
    for(;;){
        char *e = strchrnul(q, '/'); char c[512]; size_t n = e - q; if(n >= sizeof c) return 0; memcpy(c, q, n); c[n] = 0;
        size_t save = o; if(o + n + 2 > sizeof out) return 0;
        strcpy(out + o, c);
        if(n && access(out, F_OK)){
            out[save] = 0; DIR *d = opendir(save ? out : "."); int ok = 0; if(d){ struct dirent *de; while((de = readdir(d))) if(!strcasecmp(de->d_name, c)){ strcpy(out + save, de->d_name); ok = 1; break; } closedir(d); }
            if(!ok) return 0;
        }
        o = strlen(out); if(!*e) break; out[o++] = '/'; out[o] = 0; q = e + 1;
    }
    strcpy(p, out); return 1;
}
static void to_host(const char *w, char *h, size_t cap){
    if((w[0]|32) == 'z' && w[1] == ':') w += 2; else if(((w[0]|32) >= 'a' && (w[0]|32) <= 'y') && w[1] == ':') { snprintf(h, cap, "/nonexistent-drive-%c/%s", w[0], w+2); return; }
    size_t i = 0; for(; w[i] && i + 1 < cap; i++) h[i] = w[i] == '\\' ? '/' : w[i]; h[i] = 0;
}

// ---------------------------------------------------------------------------------------------------------- handles
struct handle{ int kind; int fd; pthread_cond_t cv; int set, manual; u64 gen; struct thread *th; };  // 1 file, 2 event, 3 thread, 4 find
enum{ERROR_FILE_NOT_FOUND = 2, ERROR_PATH_NOT_FOUND = 3, ERROR_ACCESS_DENIED = 5, ERROR_NO_MORE_FILES = 18, ERROR_MORE_DATA = 234, ERROR_INVALID_HANDLE = 6, ERROR_INVALID_ADDRESS = 487};
#define INVALID ((void *)-1)
static void set_err(u32 e){ if(T){ T->last_error = e; *(u32 *)(T->teb + 0x68) = e; } }
static struct handle std_h[3] = {{.kind = 1, .fd = 0}, {.kind = 1, .fd = 1}, {.kind = 1, .fd = 2}};

MS static void *k_GetStdHandle(u32 n){ return n == (u32)-10 ? &std_h[0] : n == (u32)-11 ? &std_h[1] : n == (u32)-12 ? &std_h[2] : INVALID; }
// fault injection: fail the Nth call of a class
static u64 fi_write, fi_create, fi_read, fi_commit, fi_open, fi_short, fi_full; static volatile u64 fc_open, fc_short; static volatile u64 fc_write, fc_create, fc_read, fc_commit;
static void init_fi(void){ fi_write = opt_u64("fail_write", 0); fi_create = opt_u64("fail_create", 0); fi_read = opt_u64("fail_read", 0); fi_commit = opt_u64("fail_commit", 0); fi_open = opt_u64("fail_open", 0); fi_short = opt_u64("short_write", 0); fi_full = opt_u64("disk_full", 0); }
MS static void *k_CreateFileA(const char *name, u32 access_, u32 share, void *sa, u32 disp, u32 flags, void *tmpl){
    char p[4096]; to_host(name, p, sizeof p); perturb(1);
    int fl = (access_ & 0x40000000) ? ((access_ & 0x80000000) ? O_RDWR : O_WRONLY) : O_RDONLY;
    int ex = fix_case(p); struct stat st;
    if(disp == 3 && !ex){ char *sl = strrchr(p, '/'); set_err(ERROR_FILE_NOT_FOUND); if(sl && sl != p){ *sl = 0; if(!fix_case(p)) set_err(ERROR_PATH_NOT_FOUND); } return INVALID; }
    if(ex && !stat(p, &st) && S_ISDIR(st.st_mode) && !(flags & 0x02000000)){ set_err(ERROR_ACCESS_DENIED); return INVALID; }
    if(disp == 2) fl |= O_CREAT|O_TRUNC; else if(disp == 1) fl |= O_CREAT|O_EXCL; else if(disp == 4) fl |= O_CREAT; else if(disp == 5) fl |= O_TRUNC;
    if(fl & (O_WRONLY|O_RDWR)){ if(fi_create && ++fc_create == fi_create){ S->faults++; set_err(ERROR_ACCESS_DENIED); return INVALID; } }
    else if(fi_open && __sync_add_and_fetch(&fc_open, 1) == fi_open){ S->faults++; set_err(ERROR_ACCESS_DENIED); return INVALID; }
    int fd = open(p, fl|O_CLOEXEC, 0644);
    if(fd < 0){ set_err(errno == ENOENT ? ERROR_FILE_NOT_FOUND : errno == ENOTDIR ? ERROR_PATH_NOT_FOUND : ERROR_ACCESS_DENIED); return INVALID; }
    struct handle *h = calloc(1, sizeof *h); h->kind = 1; h->fd = fd; set_err(0); return h;
}
MS static s32 k_ReadFile(struct handle *h, void *buf, u32 n, u32 *got, void *ov){
    perturb(1); S->files_read++;
    if(fi_read && ++fc_read == fi_read){ S->faults++; if(got) *got = 0; set_err(5); return 0; }
    u64 t = 0; while(t < n){ ssize_t r = read(h->fd, (u8 *)buf + t, n - t); if(r < 0){ if(errno == EINTR) continue; set_err(errno == EFAULT ? 998 : ERROR_ACCESS_DENIED); if(got) *got = t; return 0; } if(!r) break; t += r; }
    if(got) *got = t; return 1;
}
MS static s32 k_WriteFile(struct handle *h, const void *buf, u32 n, u32 *got, void *ov){
    perturb(1);
    if((void *)h == INVALID || !h){ set_err(ERROR_INVALID_HANDLE); return 0; }
    if(h->fd > 2){ S->files_written++; S->bytes_written += n; if(fi_write && ++fc_write == fi_write){ S->faults++; if(got) *got = 0; set_err(112); return 0; }
        if(fi_short && ++fc_short == fi_short && n > 1){ n = n / 2; S->faults++; } // fewer bytes than asked for, without an error
        if(fi_full && S->bytes_written > fi_full){ S->faults++; u64 over = S->bytes_written - fi_full; n = over >= n ? 0 : n - (u32)over; u32 w_ = 0; while(w_ < n){ ssize_t r_ = write(h->fd, (u8 *)buf + w_, n - w_); if(r_ < 0) break; w_ += r_; } if(got) *got = w_; set_err(112); return 0; } }
    u64 t = 0; while(t < n){ ssize_t r = write(h->fd, (u8 *)buf + t, n - t); if(r < 0){ if(errno == EINTR) continue; if(got) *got = t; set_err(errno == EFAULT ? 998 : 112); return 0; } t += r; }
    if(got) *got = t; return 1;
}
MS static s32 k_CloseHandle(struct handle *h){ if((void *)h == INVALID || !h || h->kind < 1 || h->kind > 4){ set_err(ERROR_INVALID_HANDLE); return 0; } if(h->kind == 1 && h->fd > 2){ close(h->fd); h->fd = -1; } return 1; }
MS static u32 k_GetFileAttributesA(const char *n){ char p[4096]; to_host(n, p, sizeof p); struct stat st; if(!fix_case(p) || stat(p, &st)){ char *sl = strrchr(p, '/'); set_err(ERROR_FILE_NOT_FOUND); if(sl && sl != p){ *sl = 0; if(!fix_case(p)) set_err(ERROR_PATH_NOT_FOUND); } return -1; } return S_ISDIR(st.st_mode) ? 0x10 : 0x20; }
static u64 filetime(time_t t){ return ((u64)t + 11644473600ull) * 10000000ull; }
MS static s32 k_GetFileInformationByHandle(struct handle *h, u32 *o){ struct stat st; if(fstat(h->fd, &st)){ set_err(6); return 0; } memset(o, 0, 52); o[0] = S_ISDIR(st.st_mode) ? 0x10 : 0x20; u64 t = filetime(st.st_mtime); memcpy(o+1, &t, 8); memcpy(o+3, &t, 8); memcpy(o+5, &t, 8); o[7] = st.st_dev; o[8] = (u64)st.st_size >> 32; o[9] = st.st_size; o[10] = st.st_nlink; o[11] = (u64)st.st_ino >> 32; o[12] = st.st_ino; return 1; }
MS static s32 k_GetFileSizeEx(struct handle *h, u64 *o){ struct stat st; if(fstat(h->fd, &st)) return 0; *o = st.st_size; return 1; }
struct find{ struct handle h; DIR *d; char dir[4096], pat[512]; int n; };
static int find_next(struct find *f, u8 *o){
    struct dirent *de; while((de = readdir(f->d))){
        if(fnmatch(f->pat, de->d_name, FNM_CASEFOLD|FNM_NOESCAPE)) continue;
        char p[4096+300]; snprintf(p, sizeof p, "%s/%s", f->dir, de->d_name); struct stat st; if(stat(p, &st)) continue;
        memset(o, 0, 320); *(u32 *)o = S_ISDIR(st.st_mode) ? 0x10 : 0x20; u64 t = filetime(st.st_mtime); memcpy(o+4, &t, 8); memcpy(o+12, &t, 8); memcpy(o+20, &t, 8);
        *(u32 *)(o+28) = (u64)st.st_size >> 32; *(u32 *)(o+32) = st.st_size; snprintf((char *)o+44, 260, "%s", de->d_name); return 1; }
    return 0;
}
MS static void *k_FindFirstFileA(const char *n, u8 *o){
    char p[4096]; to_host(n, p, sizeof p); struct find *f = calloc(1, sizeof *f); f->h.kind = 4; char *sl = strrchr(p, '/');
    if(sl){ snprintf(f->pat, sizeof f->pat, "%s", sl+1); *sl = 0; snprintf(f->dir, sizeof f->dir, "%s", *p ? p : "/"); } else { snprintf(f->pat, sizeof f->pat, "%s", p); strcpy(f->dir, "."); }
    if(!strcmp(f->pat, "*.*")) strcpy(f->pat, "*");
    for(char *c = f->pat; *c; c++) if(*c == '[') *c = '?';
    fix_case(f->dir); f->d = opendir(f->dir); if(!f->d){ set_err(ERROR_PATH_NOT_FOUND); free(f); return INVALID; }
    if(!find_next(f, o)){ closedir(f->d); free(f); set_err(ERROR_FILE_NOT_FOUND); return INVALID; }
    return f;
}
MS static s32 k_FindNextFileA(struct find *f, u8 *o){ if(find_next(f, o)) return 1; set_err(ERROR_NO_MORE_FILES); return 0; }
MS static s32 k_FindClose(struct find *f){ if((void *)f != INVALID && f->d){ closedir(f->d); f->d = 0; } return 1; }

// ---------------------------------------------------------------------------------------------------------- memory
#define MAXR 4096
static struct{ u64 a, n; } regions[MAXR]; static int nregions; static pthread_mutex_t rmu = PTHREAD_MUTEX_INITIALIZER;
static u64 va_junk;
MS static void *k_VirtualAlloc(void *addr, u64 size, u32 type, u32 prot){
    perturb(0); S->alloc_events++;
    int pr = prot == 0x40 ? PROT_READ|PROT_WRITE|PROT_EXEC : prot == 1 ? PROT_NONE : PROT_READ|PROT_WRITE;
    if(type & 0x2000 || !addr){
        S->va_reserve++;
        u64 n = (size + 0xffff) & ~0xffffull; static u64 hint = 0x100000000000; 
        u8 *m;
        if(addr) m = mmap(addr, n, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
        else { u64 h = __atomic_fetch_add(&hint, n + 0x10000, __ATOMIC_SEQ_CST); m = mmap((void *)h, n, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); }
        if(m == MAP_FAILED){ set_err(addr ? ERROR_INVALID_ADDRESS : 8); return 0; }
        pthread_mutex_lock(&rmu); if(nregions < MAXR){ regions[nregions].a = (u64)m; regions[nregions++].n = n; } pthread_mutex_unlock(&rmu);
        if(type & 0x1000){ mprotect(m, (size + 0xfff) & ~0xfffull, pr); S->va_commit++; }
        return m;
    }
    S->va_commit++; if(fi_commit && ++fc_commit == fi_commit){ set_err(8); return 0; }
    u64 a = (u64)addr & ~0xfffull, e = ((u64)addr + size + 0xfff) & ~0xfffull;
    if(mprotect((void *)a, e - a, pr)){ set_err(ERROR_INVALID_ADDRESS); return 0; }
    return (void *)a;
}
MS static s32 k_VirtualFree(void *addr, u64 size, u32 type){
    if(type & 0x8000){ pthread_mutex_lock(&rmu); u64 n = 0; for(int i = 0; i < nregions; i++) if(regions[i].a == (u64)addr){ n = regions[i].n; regions[i] = regions[--nregions]; break; } pthread_mutex_unlock(&rmu); if(!n){ set_err(ERROR_INVALID_ADDRESS); return 0; } munmap(addr, n); return 1; }
    madvise(addr, size, MADV_DONTNEED); mprotect(addr, size, PROT_NONE); return 1;
}
MS static s32 k_VirtualProtect(void *a, u64 n, u32 p, u32 *old){ if(old) *old = 4; u64 s = (u64)a & ~0xfffull, e = ((u64)a + n + 0xfff) & ~0xfffull; return !mprotect((void *)s, e - s, p == 0x40 || p == 0x20 ? 7 : 3); }
MS static void *k_GlobalAlloc(u32 f, u64 n){
    if(!opt_u64("guard", 0)) return calloc(1, n ? n : 1);
    // the block ends at an inaccessible page and, unless zeroed memory was asked for, is full of garbage
    u64 z = (n + 4095) & ~4095ull; u8 *p = mmap(0, z + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(p, 4096, PROT_NONE); mprotect(p + 4096 + z, 4096, PROT_NONE); if(!(f & 0x40)) memset(p + 4096, 0xdb, z); return p + 4096 + z - n;
}
MS static void *k_GlobalFree(void *p){ free(p); return 0; }
MS static void *k_GetProcessHeap(void){ return (void *)0x1230000; }
MS static void *k_HeapAlloc(void *h, u32 f, u64 n){ return f & 8 ? calloc(1, n) : malloc(n); }
MS static s32 k_HeapFree(void *h, u32 f, void *p){ free(p); return 1; }

// ---------------------------------------------------------------------------------------------------------- sync
// One lock for all events: the wait-for state is exact, so "every live thread waits for an event nobody set" is decided, not guessed.
static pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER; static struct handle *waiting[4096]; static u64 waiting_gen[4096]; static int nwaiting;
static void check_deadlock_locked(void){
    if(nwaiting < n_threads) return;
    for(int i = 0; i < nwaiting; i++){ struct handle *h = waiting[i]; if(h->kind == 3 ? h->th->done : (h->set || h->gen != waiting_gen[i])) return; }
    report("DEADLOCK all %d threads wait for events nobody can set", n_threads); _exit(97);
}
static void wait_push(struct handle *h){ if(nwaiting < 4096){ waiting_gen[nwaiting] = h->gen; waiting[nwaiting++] = h; } }
static void wait_pop(struct handle *h, u64 gen){ for(int i = 0; i < nwaiting; i++) if(waiting[i] == h && waiting_gen[i] == gen){ --nwaiting; waiting[i] = waiting[nwaiting]; waiting_gen[i] = waiting_gen[nwaiting]; return; } }
MS static void *k_CreateEventA(void *sa, s32 manual, s32 init, const char *n){ struct handle *h = calloc(1, sizeof *h); h->kind = 2; h->manual = manual; h->set = init; pthread_cond_init(&h->cv, 0); return h; }
MS static s32 k_SetEvent(struct handle *h){ perturb(1); pthread_mutex_lock(&gm); S->wakes++; order_event(1); h->set = 1; if(h->manual) h->gen++; pthread_cond_broadcast(&h->cv); pthread_mutex_unlock(&gm); perturb(1); return 1; }
MS static s32 k_ResetEvent(struct handle *h){ perturb(1); pthread_mutex_lock(&gm); h->set = 0; pthread_mutex_unlock(&gm); perturb(1); return 1; }
MS static u32 k_WaitForSingleObject(struct handle *h, u32 ms){
    perturb(1); u32 ret = 0; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += (u64)ms % 1000 * 1000000; ts.tv_sec += ms/1000 + ts.tv_nsec/1000000000; ts.tv_nsec %= 1000000000;
    if(h->kind != 2 && h->kind != 3){ set_err(6); return -1; }
    pthread_mutex_lock(&gm); S->waits++; order_event(2);
    u64 gen = h->gen; // setting a manual reset event releases everybody who waits at that time, even if it is reset right away
    #define SIGNALED (h->kind == 3 ? h->th->done : (h->set || h->gen != gen))
    if(!SIGNALED && ms){
        if(ms == (u32)-1){ wait_push(h); check_deadlock_locked(); }
        while(!SIGNALED){ if(ms == (u32)-1) pthread_cond_wait(&h->cv, &gm); else if(pthread_cond_timedwait(&h->cv, &gm, &ts)) break; }
        if(ms == (u32)-1) wait_pop(h, gen);
    }
    if(SIGNALED){ if(h->kind == 2 && !h->manual) h->set = 0; } else ret = 0x102;
    order_event(4); pthread_mutex_unlock(&gm); perturb(1); return ret;
}
static void *thread_main(void *p){
    struct handle *h = p; struct thread *t = h->th; alt_stack();
    pthread_attr_t a; void *sa; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &sa, &sz); pthread_attr_destroy(&a);
    setup_teb(t, (u8 *)sa + sz, sa); seed_thread(t); perturb(1); order_event(3);
    u32 r = ((MS u32 (*)(u64))t->fn)(t->arg);
    pthread_mutex_lock(&gm); t->exit_code = r; t->done = 1; n_threads--; pthread_cond_broadcast(&h->cv); check_deadlock_locked(); pthread_mutex_unlock(&gm);
    return 0;
}
static u64 thread_stack(void){ u64 v = opt_u64("stack", 0); if(!v) v = images[0].stack; if(v < 0x10000) v = 0x100000; return v; }
MS static void *k_CreateThread(void *sa, u64 stack, u64 fn, u64 arg, u32 flags, u32 *tid){
    perturb(1); struct handle *h = calloc(1, sizeof *h); h->kind = 3; pthread_cond_init(&h->cv, 0);
    struct thread *t = calloc(1, sizeof *t); h->th = t; t->fn = fn; t->arg = arg; t->id = __atomic_fetch_add(&next_tid, 1, __ATOMIC_SEQ_CST); S->threads++;
    pthread_attr_t a; pthread_attr_init(&a); u64 st = thread_stack(); if(stack > st) st = stack; pthread_attr_setstacksize(&a, st); pthread_attr_setguardsize(&a, 0x100000);
    pthread_mutex_lock(&gm); n_threads++; pthread_mutex_unlock(&gm);
    if(pthread_create(&t->pt, &a, thread_main, h)){ pthread_mutex_lock(&gm); n_threads--; pthread_mutex_unlock(&gm); return 0; }
    if(tid) *tid = 0x100 + 4*t->id; return h;
}
MS static void k_ExitProcess(u32 c){ fflush(0); S->order_hash ^= 0; report("exit %u", c); _exit(c & 0xff); }
MS static void k_Sleep(u32 ms){ usleep(ms * 1000); }

// ---------------------------------------------------------------------------------------------------------- misc
static u64 fake_time;
MS static const char *k_GetCommandLineA(void){ return cmdline_a; }
MS static const u16 *k_GetCommandLineW(void){ return cmdline_w; }
MS static u32 k_GetCurrentDirectoryA(u32 n, char *b){ char c[4096]; if(!getcwd(c, sizeof c)) return 0; char w[4200]; snprintf(w, sizeof w, "Z:%s", c); for(char *p = w; *p; p++) if(*p == '/') *p = '\\'; u32 l = strlen(w); if(l + 1 > n) return l + 1; strcpy(b, w); return l; }
MS static u32 k_GetModuleFileNameA(void *m, char *b, u32 n){ u32 l = strlen(main_path_win); if(l >= n){ memcpy(b, main_path_win, n); set_err(122); return n; } strcpy(b, main_path_win); return l; }
MS static void *k_GetModuleHandleA(const char *n){ return n ? 0 : images[0].base; }
MS static void *k_GetModuleHandleW(const u16 *n){ return n ? 0 : images[n_images-1].base; }
// the environment block is the file named by env=; a startup structure with flags show_flags= and window show=
static u8 *env_block(int wide){
    static u8 *b[2]; if(b[wide]) return b[wide]; static char buf[1<<18]; const char *f = opt("env"); int n = 0, fd = f ? open(f, O_RDONLY) : -1; if(fd >= 0){ n = read(fd, buf, sizeof buf - 2); close(fd); } if(n < 0) n = 0; n += 2;
    u8 *p = mmap(0, (1<<19) + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(p + (1<<19), 4096, PROT_NONE); p += (1<<19) - n*(1+wide); for(int i = 0; i < n; i++) if(wide) ((u16 *)p)[i] = (u8)buf[i]; else p[i] = buf[i]; return b[wide] = p;
}
MS static void *k_GetEnvironmentStringsA(void){ return env_block(0); }
MS static void *k_GetEnvironmentStringsW(void){ return env_block(1); }
MS static void k_GetStartupInfoA(u8 *o){ memset(o, 0, 104); *(u32 *)o = 104; *(u32 *)(o+60) = opt_u64("show_flags", 0); *(u16 *)(o+64) = opt_u64("show", 0); }
MS static u32 k_GetLastError(void){ return T ? T->last_error : 0; }
MS static void k_SetLastError(u32 e){ set_err(e); }
static void systime(u16 *o){ time_t t = fake_time; struct tm m; gmtime_r(&t, &m); o[0] = m.tm_year+1900; o[1] = m.tm_mon+1; o[2] = m.tm_wday; o[3] = m.tm_mday; o[4] = m.tm_hour; o[5] = m.tm_min; o[6] = m.tm_sec; o[7] = 0; }
MS static void k_GetLocalTime(u16 *o){ systime(o); }
MS static void k_GetSystemTime(u16 *o){ systime(o); }
MS static s32 k_SystemTimeToFileTime(const u16 *s, u64 *o){ struct tm m = {.tm_year = s[0]-1900, .tm_mon = s[1]-1, .tm_mday = s[3], .tm_hour = s[4], .tm_min = s[5], .tm_sec = s[6]}; *o = filetime(timegm(&m)); return 1; }
MS static void k_GetSystemTimeAsFileTime(u64 *o){ *o = filetime(fake_time); }
MS static u64 k_GetTickCount64(void){ return fake_time * 1000; }
MS static u32 k_GetTickCount(void){ return (u32)fake_time * 1000; }
MS static u32 k_GetCurrentThreadId(void){ return 0x100 + 4*T->id; }
MS static u32 k_GetCurrentProcessId(void){ return 4242; }
MS static void *k_GetCurrentProcess(void){ return (void *)-1; }
MS static void *k_GetCurrentThread(void){ return (void *)-2; }
MS static void k_GetSystemInfo(u8 *o){ memset(o, 0, 48); *(u16 *)o = 9; *(u32 *)(o+4) = 0x1000; *(u64 *)(o+8) = 0x10000; *(u64 *)(o+16) = 0x7ffffffeffff; *(u64 *)(o+24) = 0xff; *(u32 *)(o+32) = opt_u64("cpus", 8); *(u32 *)(o+36) = 8664; *(u32 *)(o+40) = 0x10000; }
MS static s32 k_IsDebuggerPresent(void){ return opt_u64("debugger", 0); }
MS static s32 k_QueryPerformanceCounter(u64 *o){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); *o = ts.tv_sec * 10000000ull + ts.tv_nsec/100; return 1; }
MS static s32 k_QueryPerformanceFrequency(u64 *o){ *o = 10000000; return 1; }
MS static void k_OutputDebugStringA(const char *s){}
MS static s32 k_ret0(void){ return 0; }
MS static s32 k_ret1(void){ return 1; }
// registry: just what a Windows 10 SDK installation looks like, unless the job says there is none
MS static u32 k_RegOpenKeyExA(void *root, const char *name, u32 o, u32 sam, void **out){
    if(opt_u64("nosdk", 0)) return 2;
    if(!strcasecmp(name, "SOFTWARE\\Microsoft\\Windows Kits\\Installed Roots")){ *out = (void *)0x51; return 0; }
    if(root == (void *)0x51 && strcasestr(name, "10.0.1.0") && strcasestr(name, "Installed Options")){ *out = (void *)0x53; return 0; }
    if(root == (void *)0x51 && !strcasecmp(name, "10.0.1.0")){ *out = (void *)0x52; return 0; }
    if(root == (void *)0x52 && !strcasecmp(name, "Installed Options")){ *out = (void *)0x53; return 0; }
    if(strcasestr(name, "Installed Roots\\10.0.1.0\\Installed Options")){ *out = (void *)0x53; return 0; }
    return 2;
}
MS static u32 k_RegQueryValueExA(void *k, const char *name, u32 *res, u32 *type, u8 *data, u32 *n){
    u8 buf[512]; u32 l, t;
    if(k == (void *)0x51 && !strcasecmp(name, "KitsRoot10")){ const char *r = "Z:\\opt\\hlc\\sdk\\"; strcpy((char *)buf, r); l = strlen(r) + 1; t = 1; }
    else if(k == (void *)0x53){ if(strcasecmp(name, "OptionId.DesktopCPPx64")) return 2; strcpy((char *)buf, "1"); l = 2; t = 1; }
    else return 2;
    if(type) *type = t; u32 cap = n ? *n : 0; if(n) *n = l; if(!data) return 0; if(cap < l) return ERROR_MORE_DATA; memcpy(data, buf, l); return 0;
}
MS static u32 k_RegEnumKeyExA(void *k, u32 idx, char *name, u32 *n, void *r, void *c, void *cn, void *ft){ if(k != (void *)0x51 || idx > 0) return 259; if(*n < 9) return ERROR_MORE_DATA; strcpy(name, "10.0.1.0"); *n = 8; return 0; }
MS static u32 k_RegCloseKey(void *k){ return 0; }

// ---------------------------------------------------------------------------------------------------------- ucrt
static int pf(char **outp, FILE *f, char *buf, size_t cap, const char *fmt, u64 *a){
    char tmp[65536]; size_t o = 0; int total = 0;
    #define PUT(s, n) do{ size_t n_ = (n); if(f) fwrite(s, 1, n_, f); else for(size_t i_ = 0; i_ < n_; i_++) if(o + total + i_ + 1 <= cap) buf[total + i_] = (s)[i_]; total += n_; }while(0)
    for(; *fmt; fmt++){
        if(*fmt != '%'){ PUT(fmt, 1); continue; }
        char spec[64]; int k = 0; spec[k++] = *fmt++; 
        while(*fmt && strchr("-+ #0", *fmt)) spec[k++] = *fmt++;
        if(*fmt == '*'){ k += sprintf(spec+k, "%d", (int)*a++); fmt++; } while(*fmt >= '0' && *fmt <= '9') spec[k++] = *fmt++;
        if(*fmt == '.'){ spec[k++] = *fmt++; if(*fmt == '*'){ k += sprintf(spec+k, "%d", (int)*a++); fmt++; } while(*fmt >= '0' && *fmt <= '9') spec[k++] = *fmt++; }
        int sz = 4;
        for(;;){ if(*fmt == 'l'){ if(fmt[1] == 'l'){ sz = 8; fmt += 2; } else fmt++; } else if(*fmt == 'h'){ if(fmt[1] == 'h'){ sz = 1; fmt += 2; } else { sz = 2; fmt++; } } else if(*fmt == 'z' || *fmt == 'j' || *fmt == 't'){ sz = 8; fmt++; } else if(*fmt == 'I' && fmt[1] == '6'){ sz = 8; fmt += 3; } else if(*fmt == 'I' && fmt[1] == '3'){ fmt += 3; } else if(*fmt == 'L') fmt++; else break; }
        char c = *fmt; int n = 0;
        switch(c){
            case 'd': case 'i': { long long v = sz == 8 ? (s64)*a : sz == 4 ? (s32)*a : sz == 2 ? (int16_t)*a : (int8_t)*a; a++; strcpy(spec+k, "lld"); n = snprintf(tmp, sizeof tmp, spec, v); } break;
            case 'u': case 'x': case 'X': case 'o': { unsigned long long v = sz == 8 ? *a : sz == 4 ? (u32)*a : sz == 2 ? (u16)*a : (u8)*a; a++; sprintf(spec+k, "ll%c", c); n = snprintf(tmp, sizeof tmp, spec, v); } break;
            case 'p': { u64 v = *a++; n = snprintf(tmp, sizeof tmp, "%016llX", (unsigned long long)v); } break;
            case 'c': { sprintf(spec+k, "c"); n = snprintf(tmp, sizeof tmp, spec, (int)(u8)*a++); } break;
            case 's': { const char *s = (char *)*a++; if(!s) s = "(null)"; sprintf(spec+k, "s"); n = snprintf(tmp, sizeof tmp, spec, s); if(n >= (int)sizeof tmp) n = sizeof tmp - 1; } break;
            case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': { double d; memcpy(&d, a, 8); a++; sprintf(spec+k, "%c", c); n = snprintf(tmp, sizeof tmp, spec, d); } break;
            case '%': tmp[0] = '%'; n = 1; break;
            case 0: fmt--; break;
            default: tmp[0] = c; n = 1;
        }
        PUT(tmp, (size_t)n);
    }
    if(!f && cap) buf[(size_t)total < cap ? (size_t)total : cap-1] = 0;
    return total;
}
MS static s32 u_vfprintf(u64 o, FILE *f, const char *fmt, void *loc, u64 *va){ return pf(0, f, 0, 0, fmt, va); }
MS static s32 u_vsprintf(u64 o, char *b, u64 n, const char *fmt, void *loc, u64 *va){ int t = pf(0, 0, b, n == (u64)-1 ? 1u<<30 : n, fmt, va); return t; }
MS static FILE *u_iob(u32 i){ return i == 0 ? stdin : i == 1 ? stdout : stderr; }
static int g_argc; static char **g_argv; static u16 **g_wargv;
MS static int *u_argc(void){ return &g_argc; }
MS static char ***u_argv(void){ return &g_argv; }
MS static u16 ***u_wargv(void){ return &g_wargv; }
MS static void *u_malloc(u64 n){ return malloc(n); }
MS static void *u_calloc(u64 a, u64 b){ return calloc(a, b); }
MS static void *u_realloc(void *p, u64 n){ return realloc(p, n); }
MS static void u_free(void *p){ free(p); }
MS static void u_exit(s32 c){ k_ExitProcess(c); }
MS static void u_abort(void){ report("abort()"); _exit(96); }
MS static double u_strtod(const char *s, char **e){ return strtod(s, e); }
MS static u64 u_strtoull(const char *s, char **e, s32 b){ return strtoull(s, e, b); }
MS static s64 u_strtoll(const char *s, char **e, s32 b){ return strtoll(s, e, b); }
MS static s32 u_system(const char *s){ report("system() called: %.200s", s ? s : "(null)"); return -1; }
MS static void *u_memcpy(void *a, const void *b, u64 n){ return memmove(a, b, n); }
MS static void *u_memset(void *a, s32 c, u64 n){ return memset(a, c, n); }
MS static s32 u_memcmp(const void *a, const void *b, u64 n){ int r = memcmp(a, b, n); return r < 0 ? -1 : r > 0; }
MS static u64 u_strlen(const char *a){ return strlen(a); }
MS static s32 u_strcmp(const char *a, const char *b){ int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }
MS static s32 u_strncmp(const char *a, const char *b, u64 n){ int r = strncmp(a, b, n); return r < 0 ? -1 : r > 0; }
MS static char *u_strcpy(char *a, const char *b){ return strcpy(a, b); }
MS static char *u_strcat(char *a, const char *b){ return strcat(a, b); }
MS static char *u_strchr(const char *a, s32 b){ return strchr(a, b); }
MS static char *u_strrchr(const char *a, s32 b){ return strrchr(a, b); }
MS static char *u_strstr(const char *a, const char *b){ return strstr(a, b); }
MS static s32 u_atoi(const char *a){ return atoi(a); }
MS static s32 u_puts(const char *s){ return puts(s); }
MS static s32 u_putchar(s32 c){ return putchar(c); }
MS static s32 u_fflush(FILE *f){ return fflush(f); }
MS static u64 u_fwrite(const void *p, u64 a, u64 b, FILE *f){ return fwrite(p, a, b, f); }
MS static s32 u_fputs(const char *s, FILE *f){ return fputs(s, f); }
MS static s32 u_fputc(s32 c, FILE *f){ return fputc(c, f); }
MS static double u_sqrt(double x){ return sqrt(x); } MS static double u_floor(double x){ return floor(x); } MS static double u_ceil(double x){ return ceil(x); } MS static double u_fabs(double x){ return fabs(x); }
MS static double u_sin(double x){ return sin(x); } MS static double u_cos(double x){ return cos(x); } MS static double u_pow(double x, double y){ return pow(x, y); } MS static double u_fmod(double x, double y){ return fmod(x, y); }
// monitored test programs log through these ("vrt.dll")
static FILE *vlog;
static __thread u64 cur_pc_hint;
MS static void v_log(u64 v){ if(vlog) fwrite(&v, 8, 1, vlog); }
MS static u64 v_opaque(u64 v){ return v; }
// where a call came from and where an object lives: id, return address, pointer (both relative to their image when they are in one), pointer relative to the caller's rbp
static FILE *vmark;
void v_mark_c(u64 id, u64 p, u64 ret, u64 rbp){
    if(!vmark){ const char *f = opt("mark"); if(!f || !(vmark = fopen(f, "w"))) return; setvbuf(vmark, 0, _IOLBF, 0); }
    struct image *a = image_of(ret), *b = image_of(p);
    fprintf(vmark, "%llx %llx %d %llx %lld", (unsigned long long)id, (unsigned long long)(a ? ret - (u64)a->base : 0), b ? 1 : 0, (unsigned long long)(b ? p - (u64)b->base : p), (long long)(p - rbp));
    for(int k = -0x40; k < 0x200; k += 8) if(p && *(u64 *)(rbp + k) == p) fprintf(vmark, " %d", k); // where a pointer to it lies (arguments passed by reference)
    fprintf(vmark, "\n");
}
void v_mark(void);
__asm__(".globl v_mark\nv_mark: push %rbp; mov %rsp,%rax; mov 8(%rsp),%r8; mov %rbp,%r9; push %rdi; push %rsi; sub $0xa8,%rsp; movups %xmm6,(%rsp); movups %xmm7,16(%rsp); movups %xmm8,32(%rsp); movups %xmm9,48(%rsp); movups %xmm10,64(%rsp); movups %xmm11,80(%rsp); movups %xmm12,96(%rsp); movups %xmm13,112(%rsp); movups %xmm14,128(%rsp); movups %xmm15,144(%rsp); mov %rsp,%rbp; and $-16,%rsp; mov %rcx,%rdi; mov %rdx,%rsi; mov %r8,%rdx; mov %r9,%rcx; call v_mark_c; mov %rbp,%rsp; movups (%rsp),%xmm6; movups 16(%rsp),%xmm7; movups 32(%rsp),%xmm8; movups 48(%rsp),%xmm9; movups 64(%rsp),%xmm10; movups 80(%rsp),%xmm11; movups 96(%rsp),%xmm12; movups 112(%rsp),%xmm13; movups 128(%rsp),%xmm14; movups 144(%rsp),%xmm15; add $0xa8,%rsp; pop %rsi; pop %rdi; pop %rbp; ret\n");
MS static void v_report(const char *what, u64 a, u64 b, u64 c){ S->san_reports++; struct image *im = image_of(c); report("SAN %s addr=%llx size=%llu rva=%llx", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)(im ? c - (u64)im->base : c)); _exit(95); }
MS static void v_note(const char *what, u64 a, u64 b, u64 c){ S->san_reports++; struct image *im = image_of(c); static int n; if(n++ > 50) return; dprintf(2, "SANNOTE %s a=%llx b=%llx rva=%llx\n", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)(im ? c - (u64)im->base : c)); }
MS static void *v_shadow(void){ static u8 *sh; if(!sh){ u64 n = 1ull << 44; sh = mmap((void *)0x200000000000, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0); if(sh == MAP_FAILED) die("no shadow"); madvise(sh, n, MADV_NOHUGEPAGE); } return sh; }
// v_interfere: runs f instruction by instruction; in front of its k-th instruction "another thread" changes the object at addr. -> whether f got that far
static struct { volatile int on; int fired; u8 *addr; u64 size, left, op, operand; } itf;
void v_interfere_run(u64 f);
__asm__(".globl v_interfere_run\nv_interfere_run: push %rbx; mov %rdi,%rax; sub $32,%rsp; pushfq; orq $0x100,(%rsp); popfq; call *%rax; pushfq; andq $~0x100,(%rsp); popfq; add $32,%rsp; pop %rbx; ret\n");
static int interfere_step(u64 rip){
    if(!itf.on) return 0;
    if(image_of(rip) && !itf.fired && itf.left-- == 0){
        u64 v = 0; memcpy(&v, itf.addr, itf.size); v = itf.op == 0 ? v ^ itf.operand : itf.op == 1 ? v + itf.operand : itf.operand; memcpy(itf.addr, &v, itf.size); itf.fired = 1; S->steps++;
    }
    return 1;
}
MS static u64 v_interfere(void *f, void *addr, u64 size, u64 k, u64 op, u64 operand){
    itf.addr = addr; itf.size = size; itf.left = k; itf.op = op; itf.operand = operand; itf.fired = 0; itf.on = 1; v_interfere_run((u64)f); itf.on = 0; return itf.fired;
}
MS static void v_count(u64 n){ S->asan_checks += n; }
// coverage: guards get numbered once, hits land in the shared page
MS static void v_guard_init(u32 *a, u32 *b){ if(a == b || *a) return; u32 n = 0; for(u32 *p = a; p < b; p++) *p = ++n; S->n_guards = n; }
// A coverage point is 'hot' if there is an interlocked instruction right after it: these are the places where the order of threads matters.
static int near_lock(u8 *p){ for(u8 *q = p; q < p + 72; q++) if(*q == 0xf0){ u8 *o = q + 1; if((*o & 0xf0) == 0x40) o++; if(*o == 0x0f ? (o[1] == 0xb0 || o[1] == 0xb1 || o[1] == 0xc0 || o[1] == 0xc1 || o[1] == 0xc7) : (*o == 0x01 || *o == 0x81 || *o == 0x83 || *o == 0xff || *o == 0x09 || *o == 0x29)) return 1; } return 0; }
static u8 hot_guard[1 << 20];
MS static void v_guard(u32 *g){
    u32 n = *g; if(n < sizeof S->guards) S->guards[n] = 1;
    if(perturb_hot && n < sizeof hot_guard){ if(!hot_guard[n]) hot_guard[n] = near_lock(__builtin_return_address(0)) ? 2 + ((n * 0x9e3779b97f4a7c15ull ^ perturb_seed * 0xd1342543de82ef95ull) >> 32) % hot_mod : 1; if(hot_guard[n] == 2){ perturb(2); return; } }
    if(perturb_rate) perturb(0);
}

extern void k_chkstk(void); __asm__(".globl k_chkstk\nk_chkstk: ret\n");
MS static void missing(const char *n){ die("missing import %s", n); }
static struct{ const char *n; void *f; } table[] = {
#define K(x) {#x, (void *)k_##x},
K(GetStdHandle) K(CreateFileA) K(ReadFile) K(WriteFile) K(CloseHandle) K(GetFileAttributesA) K(GetFileInformationByHandle) K(GetFileSizeEx) K(FindFirstFileA) K(FindNextFileA) K(FindClose) K(VirtualAlloc) K(VirtualFree) K(VirtualProtect) K(GlobalAlloc) K(GlobalFree) K(GetProcessHeap) K(HeapAlloc) K(HeapFree)
K(CreateEventA) K(SetEvent) K(ResetEvent) K(WaitForSingleObject) K(CreateThread) K(ExitProcess) K(Sleep) K(GetCommandLineA) K(GetCommandLineW) K(GetCurrentDirectoryA) K(GetModuleFileNameA) K(GetModuleHandleA) K(GetModuleHandleW) K(GetEnvironmentStringsA) K(GetEnvironmentStringsW) {"GetEnvironmentStrings", (void *)k_GetEnvironmentStringsA}, K(GetStartupInfoA) {"GetStartupInfoW", (void *)k_GetStartupInfoA}, K(GetLastError) K(SetLastError) K(GetLocalTime) K(GetSystemTime) K(SystemTimeToFileTime) K(GetSystemTimeAsFileTime) K(GetTickCount64) K(GetTickCount)
K(GetCurrentThreadId) K(GetCurrentProcessId) K(GetCurrentProcess) K(GetCurrentThread) K(GetSystemInfo) K(IsDebuggerPresent) K(QueryPerformanceCounter) K(QueryPerformanceFrequency) K(OutputDebugStringA) K(RegOpenKeyExA) K(RegQueryValueExA) K(RegEnumKeyExA) K(RegCloseKey)
{"__chkstk", (void *)k_chkstk}, {"__stdio_common_vfprintf", (void *)u_vfprintf}, {"__stdio_common_vsprintf", (void *)u_vsprintf}, {"__acrt_iob_func", (void *)u_iob}, {"__p___argc", (void *)u_argc}, {"__p___argv", (void *)u_argv}, {"__p___wargv", (void *)u_wargv},
#define U(x) {#x, (void *)u_##x},
U(malloc) U(calloc) U(realloc) U(free) U(exit) U(abort) U(strtod) U(strtoull) U(strtoll) U(system) U(memcpy) {"memmove", (void *)u_memcpy}, U(memset) U(memcmp) U(strlen) U(strcmp) U(strncmp) U(strcpy) U(strcat) U(strchr) U(strrchr) U(strstr) U(atoi) U(puts) U(putchar) U(fflush) U(fwrite) U(fputs) U(fputc) U(sqrt) U(floor) U(ceil) U(fabs) U(sin) U(cos) U(pow) U(fmod)
#define V(x) {"v_" #x, (void *)v_##x},
V(log) V(mark) V(opaque) V(report) V(note) V(shadow) V(count) V(interfere) V(guard_init) V(guard)
};
static void *resolve_import(const char *dll, const char *name){
    for(int i = 0; i < n_images; i++) if(images[i].is_dll){ const char *b = strrchr(images[i].path, '/'); b = b ? b + 1 : images[i].path;
        if(!strcasecmp(b, dll)){ void *p = find_export(&images[i], name); if(p) return p; die("%s does not export %s", dll, name); } }
    if(opt_u64("strict", 0)) die("import of %s from %s, which is not loaded", name, dll);
    for(unsigned i = 0; i < sizeof table/sizeof *table; i++) if(!strcmp(table[i].n, name)) return table[i].f;
    for(int i = 0; i < n_images; i++) if(images[i].is_dll){ void *p = find_export(&images[i], name); if(p) return p; }
    // a thunk that names itself when called: mov rcx, name; mov rax, missing; jmp rax
    static u8 *pg; static u32 used; if(!pg || used > 0x10000-64) { pg = mmap(0, 0x10000, 7, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); used = 0; }
    u8 *t = pg + used; used += 32; char *nm = strdup(name); u64 f = (u64)missing; u64 q = (u64)nm;
    t[0] = 0x48; t[1] = 0xb9; memcpy(t+2, &q, 8); t[10] = 0x48; t[11] = 0xb8; memcpy(t+12, &f, 8); t[20] = 0xff; t[21] = 0xe0; return t;
}

#include "unwind.h"

// ---------------------------------------------------------------------------------------------------------- running
static void split_args(const char *s){ // the UCRT's own argv, for programs that ask it (main's argc/argv in the default startup)
    static char buf[1<<16]; static char *av[4096]; char *o = buf; g_argv = av; g_argc = 0; int first = 1;
    while(*s){ while(*s == ' ' || *s == '\t') s++; if(!*s) break; av[g_argc++] = o; int q = 0;
        for(;;){ if(!*s || (!q && (*s == ' ' || *s == '\t'))) break; int nb = 0; if(!first) while(*s == '\\'){ nb++; s++; }
            if(*s == '"' ){ for(int i = 0; i < nb/2; i++) *o++ = '\\'; if(nb & 1){ *o++ = '"'; s++; } else { if(!first && q && s[1] == '"'){ *o++ = '"'; s += 2; } else { q = !q; s++; } } }
            else { for(int i = 0; i < nb; i++) *o++ = '\\'; if(nb && (!*s || (!q && (*s == ' ' || *s == '\t')))) break; if(*s) *o++ = *s++; else break; } }
        *o++ = 0; first = 0; }
    av[g_argc] = 0; static u16 *wv[4096]; g_wargv = wv; for(int i = 0; i < g_argc; i++){ wv[i] = calloc(2, strlen(av[i])+1); for(int j = 0; av[i][j]; j++) wv[i][j] = (u8)av[i][j]; }
}
struct runctx{ int call; char *arg; const char *cmd; };
static void *stack_main(void *p){
    struct runctx *r = p; alt_stack(); pthread_attr_t a; void *sa; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &sa, &sz);
    struct thread *t = main_thread = calloc(1, sizeof *t); setup_teb(t, (u8 *)sa + sz, sa); seed_thread(t);
    if(!r->call){
        struct image *im = &images[n_images-1]; u32 v = ((MS u32 (*)(void))(im->base + im->entry))();
        k_ExitProcess(v);
    }
    run_calls(opt("only") ? opt("only") : "");
    fflush(0); report("exit 0"); _exit(0);
}
static void run_job(int call, const char *cmd){
    fake_time = opt_u64("time", 1700000000); perturb_seed = opt_u64("perturb", 0); perturb_rate = perturb_seed ? opt_u64("rate", 20) : 0; perturb_hot = perturb_seed ? opt_u64("hot", 0) : 0; hot_mod = opt_u64("hotmod", 1); if(hot_mod < 1 || hot_mod > 200) hot_mod = 1; init_fi();
    cmdline_a = strdup(cmd); size_t n = strlen(cmd); cmdline_w = calloc(2, n+1); for(size_t i = 0; i <= n; i++) cmdline_w[i] = (u8)cmd[i]; split_args(cmd);
    snprintf(main_path_win, sizeof main_path_win, "Z:%s", images[n_images-1].path); const char *mp = opt("module"); if(mp) snprintf(main_path_win, sizeof main_path_win, "Z:%s", mp); for(char *c = main_path_win; *c; c++) if(*c == '/') *c = '\\';
    install_signals();
    struct runctx r = {call, 0, cmd}; pthread_t pt; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, thread_stack()); pthread_attr_setguardsize(&a, 0x200000);
    if(pthread_create(&pt, &a, stack_main, &r)) die("pthread_create");
    pthread_join(pt, 0); _exit(94);
}
static double now(void){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec*1e-9; }

int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN); prctl(PR_SET_PDEATHSIG, SIGKILL);
    S = mmap(0, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if(argc >= 3 && !strcmp(argv[1], "run")){
        char cmd[1<<16] = ""; for(int i = 2; i < argc; i++){ if(i > 2) strcat(cmd, " "); int q = strpbrk(argv[i], " \t") || !*argv[i]; if(q) strcat(cmd, "\""); strcat(cmd, argv[i]); if(q) strcat(cmd, "\""); }
        const char *o = getenv("PELOAD_OPTS"); if(o) snprintf(opts_buf, sizeof opts_buf, "%s", o);
        pid_t pid = fork(); if(!pid){ char rp[4096]; if(!realpath(argv[2], rp)) die("no image"); load_image(rp, opt_u64("base", 0)); run_job(opt("call") != 0, cmd); }
        int st; waitpid(pid, &st, 0); if(strncmp(S->report, "exit", 4)) fprintf(stderr, "peload: %s (status %x)\n", S->report, st); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    }
    if(argc < 3 || strcmp(argv[1], "server")) return 2;
    if(strcmp(argv[2], "-")) load_image(argv[2], 0);
    char *line = 0; size_t cap = 0; ssize_t ln; int pre = n_images;
    while((ln = getline(&line, &cap, stdin)) > 0){
        while(ln && line[ln-1] == '\n') line[--ln] = 0;
        char *f[8]; int nf = 0; char *p = line; f[nf++] = p; while(nf < 8 && (p = strchr(p, '\x1f'))){ *p++ = 0; f[nf++] = p; }
        if(nf < 8){ if(!strcmp(line, "guards")){ u32 h = 0; for(u32 i = 1; i <= S->n_guards; i++) h += S->guards[i]; printf("%u %u\n", h, S->n_guards); fflush(stdout); } else if(!strncmp(line, "dumpguards ", 11)){ FILE *g = fopen(line+11, "wb"); fwrite(S->guards, 1, S->n_guards+1, g); fclose(g); printf("ok\n"); fflush(stdout); } else { printf("bad\n"); fflush(stdout); } continue; }
        S->reported = 0; S->report[0] = 0; memset((void *)&S->va_reserve, 0, (u8 *)&S->n_guards - (u8 *)&S->va_reserve); S->order_hash = 0xcbf29ce484222325ull;
        pid_t pid = fork();
        if(!pid){
            prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_DUMPABLE, 0); setpgid(0, 0);
            if(chdir(f[2])) die("chdir %s", f[2]);
            int o = open(f[3][0] ? f[3] : "/dev/null", O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644); int in = open("/dev/null", O_RDONLY); dup2(in, 0); dup2(o, 1); dup2(o, 2); close(o); close(in);
            snprintf(opts_buf, sizeof opts_buf, "%s", f[6]); double cpu = atof(f[4]); struct rlimit rl = {(rlim_t)ceil(cpu), (rlim_t)ceil(cpu) + 1}; setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = opt_u64("fsize", 1ull<<30); setrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            if(strcmp(f[1], "-")){ n_images = pre; 
                const char *dep = opt("dll"); if(dep){ char d[4096]; strcpy(d, dep); u64 db = opt_u64("dllbase", 0); for(char *z, *q = strtok_r(d, ",", &z); q; q = strtok_r(0, ",", &z)) load_image(q, db); }
                load_image(f[1], opt_u64("base", 0)); }
            run_job(!strcmp(f[0], "call"), f[7]);
        }
        double t0 = now(), wall = atof(f[5]); int st = 0; const char *to = 0; struct rusage ru = {0};
        int pfd = syscall(SYS_pidfd_open, pid, 0);
        for(;;){ pid_t r = wait4(pid, &st, WNOHANG, &ru); if(r == pid) break; double left = wall - (now() - t0); if(left <= 0){ to = "WALLTIMEOUT"; kill(pid, SIGKILL); wait4(pid, &st, 0, &ru); break; }
            if(pfd >= 0){ struct pollfd q = {pfd, POLLIN, 0}; poll(&q, 1, (int)(left*1000) + 1); } else usleep(500); }
        if(pfd >= 0) close(pfd);
        double cpu = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1e-6*(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
        char rep[1100]; if(to) snprintf(rep, sizeof rep, "%s", to); else if(S->report[0]) snprintf(rep, sizeof rep, "%s", S->report); else if(WIFSIGNALED(st)) snprintf(rep, sizeof rep, "KILLED %d", WTERMSIG(st)); else snprintf(rep, sizeof rep, "STATUS %d", WEXITSTATUS(st));
        printf("%s\x1f%.3f\x1f%.3f\x1fmaxrss=%ld;reserve=%llu;commit=%llu;waits=%llu;wakes=%llu;threads=%llu;perturbs=%llu;steps=%llu;unwinds=%llu;calls=%llu;reads=%llu;writes=%llu;wbytes=%llu;faults=%llu;san=%llu;asan=%llu;order=%llx\n", rep, now()-t0, cpu, ru.ru_maxrss,
            (unsigned long long)S->va_reserve, (unsigned long long)S->va_commit, (unsigned long long)S->waits, (unsigned long long)S->wakes, (unsigned long long)S->threads, (unsigned long long)S->perturbs, (unsigned long long)S->steps, (unsigned long long)S->unwind_checks, (unsigned long long)S->calls, (unsigned long long)S->files_read, (unsigned long long)S->files_written, (unsigned long long)S->bytes_written, (unsigned long long)S->faults, (unsigned long long)S->san_reports, (unsigned long long)S->asan_checks, (unsigned long long)S->order_hash);
        fflush(stdout);
    }
    return 0;
}
