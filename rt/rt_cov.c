// Edge coverage: numbers the guards at startup and forwards hits to the loader.
typedef unsigned int u32; typedef unsigned long long u64;
__declspec(dllimport) void v_guard_init(u32 *a, u32 *b); __declspec(dllimport) void v_guard(u32 *g);
#pragma section(".SCOV$GA", read, write)
#pragma section(".SCOV$GZ", read, write)
__declspec(allocate(".SCOV$GA")) u64 __start___sancov_guards = 0;
__declspec(allocate(".SCOV$GZ")) u64 __stop___sancov_guards = 0;
void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b){}
void __sanitizer_cov_trace_pc_guard(u32 *g){ v_guard(g); }
void _start(void);
void vrt_start(void){ v_guard_init((u32 *)(&__start___sancov_guards + 1), (u32 *)&__stop___sancov_guards); _start(); }
