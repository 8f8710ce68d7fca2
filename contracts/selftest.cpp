// Negative controls for the verifier itself: every contract here contains a false ensures clause or a safety violation,
// and engine/selftest.py requires that the verifier does NOT accept it.
#include "vf.h"
VF_CONTRACT(NEG, ring1) { double a = vf_real("a"), b = vf_real("b"); vf_eq((a + b) * (a + b), a * a + 2. * a * b + b * b, "true"); vf_eq((a + b) * (a - b), a * a + b * b, "FALSE"); }
VF_CONTRACT(NEG, ring2) {
  double a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
  vf_eq(a * b + a * c, a * (b + c), "t1"); vf_eq(c * b + a * c, c * (b + a), "t2"); vf_eq(a * b * c, c * b * a, "t3");
  vf_eq(a * b + (a * a - b * c) * b, a * b + b * a * a + b * b * c, "FALSE");
}
VF_CONTRACT(NEG, sqrt1) { double a = vf_real("a"); vf_assume(a >= 0.); double s = std::sqrt(a); vf_eq(s * s, a, "true"); vf_eq(std::sqrt(a * a + 1.), a + 1., "FALSE"); }
VF_CONTRACT(NEG, sqrtneg) { double a = vf_real("a"); vf_assert(std::sqrt(a) >= 0., "FALSE: negative argument"); }
VF_CONTRACT(NEG, div0) { double a = vf_real("a"), b = vf_real("b"); vf_eq((a / b) * b, a, "FALSE: zero divisor"); }
VF_CONTRACT(NEG, intwrap) { size_t n = vf_size("n", 0, 1000); vf_assert(n - 1 < 1000, "FALSE: wraps at 0"); }
VF_CONTRACT(NEG, bounds) {
  std::vector<size_t> v; size_t n = vf_size("n", 1, 1000); vf_sym_sizes(&v, "v", n);
  size_t i = vf_size("i", 0, 1000); size_t x = v[i]; vf_assert(x == v[i], "read"); vf_assert(i <= n, "FALSE or bounds");
}
VF_CONTRACT(NEG, aliasing) {
  std::vector<size_t> v; size_t n = vf_size("n", 2, 1000); vf_sym_sizes(&v, "v", n);
  size_t i = vf_size("i", 0, 999), j = vf_size("j", 0, 999);
  vf_assume((i < n) & (j < n));
  size_t old = v[j]; v[i] = 7; vf_assert(v[i] == 7, "true"); vf_assert(v[j] == old, "FALSE: i may equal j");
}
VF_CONTRACT(NEG, unreachable_cover) { double a = vf_real("a"); vf_assume(a > 1.); if (a < 0.) vf_reach("FALSE: unreachable"); vf_assert(a > 0., "true"); }
VF_CONTRACT(NEG, useafterfree) { int* p = new int(3); int* q = p; delete p; vf_assert(*q == 3, "FALSE: freed"); }
static bool pred(void* c, size_t i) { std::vector<size_t>& v = *(std::vector<size_t>*)c; return v[i] < 10; }
VF_CONTRACT(NEG, forall) {
  std::vector<size_t> v; size_t n = vf_size("n", 2, 1000); vf_sym_sizes(&v, "v", n);
  vf_forall("v", pred, &v);
  size_t i = vf_size("i", 0, 999);
  vf_assume(i < n);
  vf_assert(v[i] < 10, "true"); vf_assert(v[i] < 9, "FALSE");
}
VF_CONTRACT(NEG, throws) { int x = (int)vf_long("x", 0, 10); if (x == 7) throw 1; vf_assert(x >= 0, "true"); }
VF_CONTRACT(NEG, trig) { double t = vf_real("t"); vf_eq(std::cos(t) * std::cos(t) + std::sin(t) * std::sin(t), 1., "true"); vf_eq(std::cos(t), std::sin(t), "FALSE"); }
// loops: induction has to reject invariants that do not hold
static size_t __attribute__((noinline)) countUp(size_t n) { size_t s = 0; for (size_t i = 0; i < n; i++) s += 2; return s; }
VF_CONTRACT(NEG, loop1) { size_t n = vf_size("n", 0, 1000); vf_loop("countUp"); vf_assert(countUp(n) <= 10, "FALSE: s is arbitrary after the loop"); }
static void fillTo(std::vector<size_t>& v, size_t n) { for (size_t i = 0; i < n; i++) v[i] = i * 2; }
static size_t okSpec(void* c, size_t i, size_t j) { std::vector<size_t>& o = *(std::vector<size_t>*)c; return vf_ite(j < i, 2 * j, o[j]); }
static size_t badSpec(void* c, size_t i, size_t j) { std::vector<size_t>& o = *(std::vector<size_t>*)c; return vf_ite(j <= i, 2 * j, o[j]); }
VF_CONTRACT(NEG, loop2) {
  std::vector<size_t> v, o; size_t n = vf_size("n", 0, 1000), N = vf_size("N", 0, 1000); vf_assume(n <= N);
  vf_sym_sizes(&v, "v", N); vf_old_sizes(&o, "v");
  vf_loop_array("fillTo", "v", okSpec, &o);
  fillTo(v, n);
  size_t j = vf_size("j", 0, 1000); vf_assume(j < N);
  vf_assert(v[j] == (j < n ? 2 * j : o[j]), "true");
  vf_assert(v[j] == 2 * j, "FALSE: only the first n are filled");
}
VF_CONTRACT(NEG, loop3) {
  std::vector<size_t> v, o; size_t n = vf_size("n", 0, 1000), N = vf_size("N", 0, 1000); vf_assume(n <= N);
  vf_sym_sizes(&v, "v", N); vf_old_sizes(&o, "v");
  vf_loop_array("fillTo", "v", badSpec, &o); // FALSE at entry
  fillTo(v, n);
}
static void overrun(std::vector<size_t>& v, size_t n) { for (size_t i = 0; i <= n; i++) v[i] = 1; }
VF_CONTRACT(NEG, loop4) { std::vector<size_t> v; size_t n = vf_size("n", 0, 1000); vf_sym_sizes(&v, "v", n); vf_loop("overrun"); overrun(v, n); /* FALSE: out of bounds */ }
