// Contract API shared by the symbolic prover (LLVM IR) and the native replay build.
#pragma once
extern "C" {
double vp_real(const char* name);                          // arbitrary real
double vp_pos(const char* name);                           // arbitrary real > 0
double vp_nonneg(const char* name);                        // arbitrary real >= 0
double vp_range(const char* name, double lo, double hi);   // arbitrary real in [lo,hi]
int vp_int(const char* name, int lo, int hi);              // arbitrary int in [lo,hi]
long vp_long(const char* name, long lo, long hi);
unsigned vp_bits(const char* name);                        // arbitrary 32-bit word (bit-vector)
bool vp_bool(const char* name);
int vp_choice(const char* name, int n);                    // case split 0..n-1
void vp_unit3(const char* name, double* out);              // arbitrary unit vector
void vp_unit4(const char* name, double* out);              // arbitrary unit quaternion
void vp_rule(double x, double sq);                         // requires x*x==sq
void vp_assume(bool c);                                    // requires
void vp_check(bool c, const char* label);                  // ensures
void vp_eq(double a, double b, const char* label);
void vp_le(double a, double b, const char* label);
void vp_lt(double a, double b, const char* label);
void vp_lemma(bool c, const char* label);
bool vp_case(bool c);                                      // proof hint: split on c
void vp_cover(const char* label);                          // must be reachable
bool vp_symbolic();
void vp_thread(int t);                                     // calling thread for omp_get_thread_num
void vp_nthreads(int n);
void vp_trace(const char* s, double x);
}
#define HARNESS(name) extern "C" __attribute__((used, visibility("default"))) void name()
