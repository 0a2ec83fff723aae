// The minimal undefined-behaviour runtime: every handler reports its return address to the loader.
typedef unsigned long long u64;
__declspec(dllimport) void v_note(const char *what, u64 a, u64 b, u64 c);
#define H(n) void __ubsan_handle_##n##_minimal(void){ v_note(#n, 0, 0, (u64)__builtin_return_address(0)); } void __ubsan_handle_##n##_minimal_abort(void){ v_note(#n, 0, 0, (u64)__builtin_return_address(0)); __builtin_trap(); }
H(builtin_unreachable) H(divrem_overflow) H(out_of_bounds) H(pointer_overflow) H(shift_out_of_bounds) H(type_mismatch) H(missing_return) H(vla_bound_not_positive) H(load_invalid_value) H(add_overflow) H(sub_overflow) H(mul_overflow) H(negate_overflow)
void _start(void);
void vrt_start(void){ _start(); }
