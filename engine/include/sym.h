// Harness API: in the symbolic build these are intrinsics of the executor, in the native (replay) build
// they read the concrete values of a counterexample.
#pragma once
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
float sym_f32(const char* name, float lo, float hi);
double sym_f64(const char* name, double lo, double hi);
float sym_f32_grid(const char* name, float lo, float hi, int gran);    // multiple of 2^gran
double sym_f64_grid(const char* name, double lo, double hi, int gran);
float sym_f32_any(const char* name);                                   // any float: NaN, inf, subnormal
double sym_f64_any(const char* name);
int32_t sym_i32(const char* name, int32_t lo, int32_t hi);
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
bool sym_bool(const char* name);
int sym_concretize(int v);                                             // forks over all feasible values
bool sym_fork(bool c);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_cover(const char* label);
void sym_merge(int mode);
int sym_is_native();
void sym_exit();
void sym_note_d(const char* l, double v);
void sym_note_i(const char* l, int v);
#ifdef __cplusplus
}
#endif
#define HARNESS extern "C" __attribute__((used, noinline)) void
