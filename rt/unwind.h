// Virtual unwinder over .pdata/.xdata (the algorithm of RtlVirtualUnwind, version 1 unwind info) and the monitored call.
struct moncall{
    u64 fn, args[4];            // 0, 8..
    u64 in_gpr[8];              // 40: rbx rbp rdi rsi r12 r13 r14 r15
    u64 out_gpr[8];             // 104
    u64 rax, rsp_before, rsp_after, flags_out; // 168 176 184 192
    u64 step, host_rsp;         // 200 208
    u32 mxcsr_in, mxcsr_out, fcw_out, pad; // 216 220 224
    u64 junk;                   // 232
    u64 host[6];                // 240..288
    u8 in_xmm[10][16] __attribute__((aligned(16)));
    u8 out_xmm[10][16] __attribute__((aligned(16)));
    u8 xmm0[16] __attribute__((aligned(16)));
} mc __attribute__((aligned(64), visibility("hidden")));
void mon_call(void); extern char mon_call_ret[];
_Static_assert(__builtin_offsetof(struct moncall, host) == 240, "layout");
#define XIN 544
#define STR_(x) #x
#define STR(x) STR_(x)
enum{ XMM_IN = __builtin_offsetof(struct moncall, in_xmm), XMM_OUT = __builtin_offsetof(struct moncall, out_xmm), XMM_0 = __builtin_offsetof(struct moncall, xmm0) };
__attribute__((naked)) void mon_call(void){
    __asm__ volatile(
    "push %%rbx; push %%rbp; push %%r12; push %%r13; push %%r14; push %%r15\n"
    "mov %%rsp, mc+208(%%rip)\n"
    "and $-64, %%rsp; sub $64, %%rsp\n"
    "mov mc+232(%%rip), %%rax\n"
    "lea -0x1800(%%rsp), %%rcx\n"
    "1: mov %%rax, (%%rcx); add $8, %%rcx; cmp %%rsp, %%rcx; jb 1b\n"
    "mov %%rax, 0(%%rsp); mov %%rax, 8(%%rsp); mov %%rax, 16(%%rsp); mov %%rax, 24(%%rsp)\n"
    "movq %%rax, %%xmm0; punpcklqdq %%xmm0,%%xmm0; movaps %%xmm0,%%xmm1; movaps %%xmm0,%%xmm2; movaps %%xmm0,%%xmm3; movaps %%xmm0,%%xmm4; movaps %%xmm0,%%xmm5\n"
    "mov mc+40(%%rip), %%rbx; mov mc+48(%%rip), %%rbp; mov mc+56(%%rip), %%rdi; mov mc+64(%%rip), %%rsi; mov mc+72(%%rip), %%r12; mov mc+80(%%rip), %%r13; mov mc+88(%%rip), %%r14; mov mc+96(%%rip), %%r15\n"
    "lea mc+%c0(%%rip), %%rcx\n"
    "movaps (%%rcx),%%xmm6; movaps 16(%%rcx),%%xmm7; movaps 32(%%rcx),%%xmm8; movaps 48(%%rcx),%%xmm9; movaps 64(%%rcx),%%xmm10; movaps 80(%%rcx),%%xmm11; movaps 96(%%rcx),%%xmm12; movaps 112(%%rcx),%%xmm13; movaps 128(%%rcx),%%xmm14; movaps 144(%%rcx),%%xmm15\n"
    "stmxcsr mc+216(%%rip)\n"
    "mov %%rsp, mc+176(%%rip)\n"
    "mov mc+8(%%rip), %%rcx; mov mc+16(%%rip), %%rdx; mov mc+24(%%rip), %%r8; mov mc+32(%%rip), %%r9; mov %%rax, %%r10; mov %%rax, %%r11\n"
    "cmpq $0, mc+200(%%rip); je 2f\n"
    "pushfq; orl $0x100, (%%rsp); popfq\n"
    "2: callq *mc(%%rip)\n"
    ".globl mon_call_ret\nmon_call_ret:\n"
    "mov %%rax, mc+168(%%rip); mov %%rsp, mc+184(%%rip)\n"
    "pushfq; pop %%rax; mov %%rax, mc+192(%%rip); and $~0x500, %%rax; push %%rax; popfq\n"
    "mov %%rbx, mc+104(%%rip); mov %%rbp, mc+112(%%rip); mov %%rdi, mc+120(%%rip); mov %%rsi, mc+128(%%rip); mov %%r12, mc+136(%%rip); mov %%r13, mc+144(%%rip); mov %%r14, mc+152(%%rip); mov %%r15, mc+160(%%rip)\n"
    "stmxcsr mc+220(%%rip); ldmxcsr mc+216(%%rip); fnstcw mc+224(%%rip)\n"
    "lea mc+%c1(%%rip), %%rcx\n"
    "movaps %%xmm6,(%%rcx); movaps %%xmm7,16(%%rcx); movaps %%xmm8,32(%%rcx); movaps %%xmm9,48(%%rcx); movaps %%xmm10,64(%%rcx); movaps %%xmm11,80(%%rcx); movaps %%xmm12,96(%%rcx); movaps %%xmm13,112(%%rcx); movaps %%xmm14,128(%%rcx); movaps %%xmm15,144(%%rcx)\n"
    "lea mc+%c2(%%rip), %%rcx; movaps %%xmm0,(%%rcx)\n"
    "mov mc+208(%%rip), %%rsp\n"
    "pop %%r15; pop %%r14; pop %%r13; pop %%r12; pop %%rbp; pop %%rbx; ret\n"
    :: "i"(XMM_IN), "i"(XMM_OUT), "i"(XMM_0));
}

struct cpu{ u64 gpr[16]; u64 rip; u8 xmm[16][16]; }; // gpr in encoding order rax rcx rdx rbx rsp rbp rsi rdi r8..r15
static int rd8(u64 a, u64 *o, u64 lo, u64 hi){ if(a < lo || a + 8 > hi || (a & 7)) return 0; *o = *(u64 *)a; return 1; }
static const char *virtual_unwind(struct cpu *c, u64 lo, u64 hi){ // one frame; returns an error text or 0
    struct image *im = image_of(c->rip); if(!im) return "rip outside any image";
    u32 rva = (u32)(c->rip - (u64)im->base); u32 *rf = 0;
    u32 *pd = (u32 *)(im->base + im->dir_rva[3]); u32 n = im->dir_rva[3] ? im->dir_size[3]/12 : 0;
    u32 l = 0, h = n; while(l < h){ u32 m = (l+h)/2; if(rva < pd[3*m]) h = m; else if(rva >= pd[3*m+1]) l = m+1; else { rf = pd + 3*m; break; } }
    if(!rf){ u64 r; if(!rd8(c->gpr[4], &r, lo, hi)) return "leaf: rsp not on stack"; c->rip = r; c->gpr[4] += 8; return 0; }
    u8 *ui = im->base + rf[2]; u32 off = rva - rf[0];
    if((ui[0] & 7) != 1 && (ui[0] & 7) != 2) return "unwind info version";
    u32 freg = ui[3] & 15, foff = (ui[3] >> 4)*16;
    // epilogue?
    if(off >= ui[1]){
        u8 *p = (u8 *)c->rip; struct cpu e = *c; int ok = 0;
        u8 *q = p; int any = 0;
        if(q[0] == 0x48 && q[1] == 0x83 && q[2] == 0xc4){ e.gpr[4] += (int8_t)q[3]; q += 4; any = 1; }
        else if(q[0] == 0x48 && q[1] == 0x81 && q[2] == 0xc4){ e.gpr[4] += *(s32 *)(q+3); q += 7; any = 1; }
        else if((q[0] & 0xfe) == 0x48 && q[1] == 0x8d && freg && ((q[2] & 7) | (q[0] & 1)*8) == freg && ((q[2] >> 3) & 7) == 4){
            if((q[2] >> 6) == 1){ e.gpr[4] = e.gpr[freg] + (int8_t)q[3]; q += 4; any = 1; } else if((q[2] >> 6) == 2){ e.gpr[4] = e.gpr[freg] + *(s32 *)(q+3); q += 7; any = 1; } else if((q[2] >> 6) == 0){ e.gpr[4] = e.gpr[freg]; q += 3; any = 1; } }
        (void)any;
        for(;;){ u32 r; if((q[0] & 0xf8) == 0x58){ r = q[0] & 7; q++; } else if((q[0] & 0xf0) == 0x40 && (q[1] & 0xf8) == 0x58){ r = (q[1] & 7) | (q[0] & 1)*8; q += 2; } else break;
            u64 v; if(!rd8(e.gpr[4], &v, lo, hi)) goto not_epi; e.gpr[r] = v; e.gpr[4] += 8; }
        if(q[0] == 0xc3 || (q[0] == 0xf3 && q[1] == 0xc3) || q[0] == 0xc2) ok = 1;
        else if(q[0] == 0xe9 || q[0] == 0xeb){ s64 t = (q - im->base) + (q[0] == 0xe9 ? 5 + *(s32 *)(q+1) : 2 + (int8_t)q[1]); if(t < rf[0] || t >= rf[1]) ok = 1; }
        else if(q[0] == 0xff && (q[1] & 0x38) == 0x20 ) ok = any;
        if(ok){ u64 r; if(!rd8(e.gpr[4], &r, lo, hi)) return "epilogue: rsp not on stack"; e.rip = r; e.gpr[4] += 8; *c = e; return 0; }
    }
    not_epi:;
    u64 frame = c->gpr[4]; u32 nc = ui[2];
    if(freg){ int done = off >= ui[1] || (ui[0] >> 3 & 4); if(!done) for(u32 i = 0; i < nc;){ u8 *q = ui + 4 + 2*i; u32 op = q[1] & 15; if(op == 3 && q[0] <= off) done = 1; i += op == 1 ? ((q[1] >> 4) ? 3 : 2) : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1; }
        if(done) frame = c->gpr[freg] - foff; }
    int mach = 0;
    for(;;){
        nc = ui[2];
        for(u32 i = 0; i < nc;){
            u8 *q = ui + 4 + 2*i; u32 op = q[1] & 15, info = q[1] >> 4; int exec = off >= q[0]; u64 v;
            switch(op){
                case 0: if(exec){ if(!rd8(c->gpr[4], &v, lo, hi)) return "push: rsp not on stack"; c->gpr[info] = v; c->gpr[4] += 8; } i++; break;
                case 1: if(info == 0){ if(exec) c->gpr[4] += *(u16 *)(q+2)*8; i += 2; } else { if(exec) c->gpr[4] += *(u32 *)(q+2); i += 3; } break;
                case 2: if(exec) c->gpr[4] += info*8 + 8; i++; break;
                case 3: if(exec) c->gpr[4] = c->gpr[freg] - foff; i++; break;
                case 4: if(exec){ if(!rd8(frame + *(u16 *)(q+2)*8, &v, lo, hi)) return "save_nonvol: slot not on stack"; c->gpr[info] = v; } i += 2; break;
                case 5: if(exec){ if(!rd8(frame + *(u32 *)(q+2), &v, lo, hi)) return "save_nonvol_far: slot not on stack"; c->gpr[info] = v; } i += 3; break;
                case 8: if(exec){ u64 a = frame + *(u16 *)(q+2)*16; if(a < lo || a + 16 > hi || (a & 15)) return "save_xmm128: slot"; memcpy(c->xmm[info], (void *)a, 16); } i += 2; break;
                case 9: if(exec){ u64 a = frame + *(u32 *)(q+2); if(a < lo || a + 16 > hi || (a & 15)) return "save_xmm128_far: slot"; memcpy(c->xmm[info], (void *)a, 16); } i += 3; break;
                case 10: mach = 1; i++; break;
                default: return "unknown unwind code";
            }
        }
        if(ui[0] >> 3 & 4){ u32 *ch = (u32 *)(ui + 4 + 2*((nc+1)&~1u)); ui = im->base + ch[2]; off = 0xffff; } else break;
    }
    if(mach) return "machframe";
    u64 r; if(!rd8(c->gpr[4], &r, lo, hi)) return "return address not on stack"; c->rip = r; c->gpr[4] += 8; return 0;
}

static u32 max_depth; static u64 seen_rip[1<<16]; static volatile u64 stepping;
static u64 step_handler(ucontext_t *uc){
    greg_t *g = uc->uc_mcontext.gregs; if(!stepping) return 0;
    S->steps++;
    u64 rip = g[REG_RIP]; struct image *im = image_of(rip);
    if(rip >= (u64)mon_call_ret && rip < (u64)mon_call_ret + 40){ g[REG_EFL] &= ~0x100; return 1; }
    if(!im) return 1; 
    if(S->steps > (u64)stepping){ g[REG_EFL] &= ~0x100; return 1; }
    u64 hi = *(u64 *)(T->teb + 8), lo = (u64)g[REG_RSP];
    // a leaf may keep data under rsp only in the caller's home area: unwinding never needs memory below rsp
    struct cpu c; int map[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    for(int i = 0; i < 16; i++) c.gpr[i] = g[map[i]];
    c.rip = rip; memcpy(c.xmm, uc->uc_mcontext.fpregs->_xmm, 256);
    u32 depth = 0; S->unwind_checks++;
    for(;; depth++){
        const char *e = virtual_unwind(&c, lo, hi);
        if(e || depth > 4000){ report("UNWIND %s at rva=%llx depth=%u", e ? e : "endless", (unsigned long long)(rip - (u64)im->base), depth); _exit(93); }
        if(c.rip == (u64)mon_call_ret) break;
        if(!image_of(c.rip)){ report("UNWIND leads outside the image (%llx) at rva=%llx depth=%u", (unsigned long long)c.rip, (unsigned long long)(rip - (u64)im->base), depth); _exit(93); }
    }
    if(depth > max_depth) max_depth = depth;
    static const char *names[8] = {"rbx","rbp","rdi","rsi","r12","r13","r14","r15"}; static const int enc[8] = {3,5,7,6,12,13,14,15};
    if(c.gpr[4] != mc.rsp_before){ report("UNWIND rsp off by %lld at rva=%llx depth=%u", (long long)(c.gpr[4] - mc.rsp_before), (unsigned long long)(rip - (u64)im->base), depth); _exit(93); }
    for(int i = 0; i < 8; i++) if(c.gpr[enc[i]] != mc.in_gpr[i]){ report("UNWIND %s not recovered at rva=%llx depth=%u", names[i], (unsigned long long)(rip - (u64)im->base), depth); _exit(93); }
    for(int i = 0; i < 10; i++) if(memcmp(c.xmm[6+i], mc.in_xmm[i], 16)){ report("UNWIND xmm%d not recovered at rva=%llx depth=%u", 6+i, (unsigned long long)(rip - (u64)im->base), depth); _exit(93); }
    return 1;
}

// "call" jobs: run the named exports (or every export starting with "t_") under the register monitor, logging
//   name, rax, then the words the function stored in its out buffer / passed to v_log.
static void run_calls(const char *cmd){
    const char *out = opt("out"); if(!out) die("no out"); FILE *f = fopen(out, "wb"); if(!f) die("cannot open %s", out);
    u64 nw = opt_u64("words", 512); u64 *buf = calloc(nw + 64, 8); u64 step = opt_u64("step", 0); int getx = opt_u64("xmm0", 0);
    struct image *im = &images[n_images-1];
    for(int i = 0; i < n_images; i++) if(images[i].is_dll && images[i].entry){ // initialise (DllMain of a test image, if it has one)
        if(opt_u64("noinit", 0)) continue;
        ((MS s32 (*)(void *, u32, void *))(images[i].base + images[i].entry))(images[i].base, 1, 0); }
    if(!im->dir_rva[0]) die("no exports");
    u8 *m = im->base, *e = m + im->dir_rva[0]; u32 nn = *(u32 *)(e+24), *names = (u32 *)(m + *(u32 *)(e+32)), *funs = (u32 *)(m + *(u32 *)(e+28)); u16 *ords = (u16 *)(m + *(u32 *)(e+36));
    u64 seed = opt_u64("junk", 1);
    char *lb = 0; size_t ls = 0; u32 called = 0;
    for(u32 i = 0; i < nn; i++){
        const char *nm = (char *)m + names[i]; if(strncmp(nm, "t_", 2)) continue;
        if(*cmd && !strstr(cmd, nm)) continue;
        for(int reps = 0; reps < 1; reps++){
            memset(buf, 0xcd, 8*(nw+64)); seed = seed*6364136223846793005ull + 1442695040888963407ull;
            mc.fn = (u64)m + funs[ords[i]]; mc.args[0] = (u64)buf; mc.args[1] = nw; mc.args[2] = seed ^ 0x5bd1e995; mc.args[3] = ~seed; mc.junk = seed | 0x8080808080808080ull; mc.step = step;
            for(int k = 0; k < 8; k++) mc.in_gpr[k] = seed*(2*k+3) ^ 0xabcdef0123456789ull;
            for(int k = 0; k < 160; k++) mc.in_xmm[0][k] = (u8)(seed >> (k % 57)) ^ k*37;
            if(lb) free(lb); lb = 0; vlog = open_memstream(&lb, &ls); stepping = step == 1 ? 3000000 : step;
            mon_call(); stepping = 0; fclose(vlog); vlog = 0; S->calls++; called++;
            const char *bad = 0; char bb[64];
            if(mc.rsp_after != mc.rsp_before) bad = "rsp"; else if((mc.mxcsr_out ^ mc.mxcsr_in) & 0xffc0) bad = "mxcsr"; else if(mc.flags_out & 0x400) bad = "direction flag";
            static const char *names8[8] = {"rbx","rbp","rdi","rsi","r12","r13","r14","r15"};
            for(int k = 0; k < 8; k++) if(mc.in_gpr[k] != mc.out_gpr[k]) bad = names8[k];
            for(int k = 0; k < 10; k++) if(memcmp(mc.in_xmm[k], mc.out_xmm[k], 16)){ sprintf(bb, "xmm%d", k+6); bad = bb; }
            if(bad){ report("ABI %s not preserved by %s", bad, nm); fclose(f); _exit(92); }
            u64 cnt = buf[0]; fprintf(f, "%s %llx", nm, (unsigned long long)mc.rax); if(getx){ u64 x[2]; memcpy(x, mc.xmm0, 16); fprintf(f, " x%llx:%llx", (unsigned long long)x[0], (unsigned long long)x[1]); }
            if(cnt <= nw) for(u64 k = 1; k <= cnt && k < nw; k++) fprintf(f, " %llx", (unsigned long long)buf[k]);
            else if(cnt != 0xcdcdcdcdcdcdcdcdull) fprintf(f, " BADCOUNT");
            for(u64 k = nw; k < nw+64; k++) if(buf[k] != 0xcdcdcdcdcdcdcdcdull){ fprintf(f, " OVERRUN"); break; }
            for(size_t k = 0; k + 8 <= ls; k += 8) fprintf(f, " L%llx", (unsigned long long)*(u64 *)(lb + k));
            fprintf(f, "\n"); fflush(f);
        }
    }
    fclose(f);
    if(!called) die("no t_ exports");
}
