// Contract language.  A contract is a function VF_CONTRACT(Cxx, name) { inputs; requires; call of the real code;
// ensures }.  The same text is (a) executed symbolically over the LLVM IR of the real code, where every vf_assert /
// vf_eq / vf_le is a proof obligation for all inputs, and (b) compiled natively with VF_NATIVE, where inputs come from
// a counterexample, a random source or an enumeration, and a failed vf_assert is a concrete failing input.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <functional>
#include <limits>
#include <list>
#include <string>
#include <vector>

extern "C" {
double vf_real(const char* name);                              // arbitrary real
long vf_long(const char* name, long lo, long hi);              // arbitrary integer, lo <= x <= hi
size_t vf_size(const char* name, size_t lo, size_t hi);
bool vf_bool(const char* name);
void vf_assume(bool c);                                        // requires
void vf_assert(bool c, const char* label);                     // ensures
void vf_eq(double a, double b, const char* label);             // ensures a == b
void vf_le(double a, double b, const char* label);             // ensures a <= b
double vf_define(const char* name, double e);                   // a name for e (proof structure only)
void vf_reach(const char* label);                              // this point must be reachable (vacuity guard)
void vf_flag(const char* key, const char* val);                // verifier option for the rest of the path
void vf_sym_sizes(std::vector<size_t>* v, const char* name, size_t n); // arbitrary array contents
void vf_sym_indices(std::vector<size_t>* v, const char* name, size_t n); // ghost arrays: values up to 2^44
void vf_sym_chars(std::vector<char>* v, const char* name, size_t n);
void vf_sym_reals(std::vector<double>* v, const char* name, size_t n);
void vf_sym_ints(std::vector<int>* v, const char* name, size_t n);
void vf_forall(const char* arrays, bool (*pred)(void* ctx, size_t i), void* ctx); // requires forall i. pred(i)
size_t vf_first(size_t key, size_t value);                      // one fixed choice per key: the first value given on any path
double vf_pick(bool c, double a, double b);
void vf_triplets(void (*stub)(void* list, size_t i, size_t j, double re, double im)); // stands for std::vector<Eigen::Triplet>::emplace_back(i, j, re + im i)
size_t vf_ite(bool c, size_t a, size_t b);                     // c ? a : b (one value, no case split)
void vf_old_sizes(std::vector<size_t>* v, const char* name);           // the initial contents of the array called name (ghost copy)
void vf_old_chars(std::vector<char>* v, const char* name);
void vf_old_reals(std::vector<double>* v, const char* name);
void vf_instantiate(const char* array, size_t i);
void vf_havoc_sizes(std::vector<size_t>* v, const char* name);         // the array has arbitrary contents from here on (in the contract of a callee)
void vf_havoc_chars(std::vector<char>* v, const char* name);
void vf_sym_bits(std::vector<bool>* v, const char* name, size_t n);
// function contracts: calls of the function called fn run stub instead (its contract: assert the precondition, havoc what
// it modifies, assume the postcondition), except for the first skip calls
void vf_replace(const char* fn, void (*stub)(), int skip);
// loop contracts for the loops of functions whose name contains fn
void vf_loop(const char* fn);                                  // verify by induction with the built-in invariants
void vf_loop_outer(const char* fn);                            // the loop rule for outer loops only (inner loops run a bounded number of times)
void vf_loop_keep(const char* fn, bool (*inv)(void* ctx, size_t value, size_t entry), void* ctx);       // invariant of loop variables
void vf_loop_step(const char* fn, bool (*inv)(void* ctx, size_t value, size_t entry, size_t iter), void* ctx); // the same, knowing the number of the iteration
void vf_loop_flags(const char* fn, bool (*inv)(void* ctx, size_t value, bool flag, bool flag2), void* ctx); // loop variable together with one or two flags
void vf_loop_body(const char* fn, void (*begin)(void* ctx, size_t cursor), void (*end)(void* ctx, size_t cursor), void* ctx); // obligations about one arbitrary iteration: begin runs at its start, end at its end
void vf_rewrite(const char* array, size_t i, size_t v);             // proof structure only: where array[i] == v follows, it is written as v
void vf_sym_vecs(void* vec, const char* name, size_t n, int dim); // vec: std::vector<Vector2 / Vector3>
void vf_loop_pair(const char* fn, bool (*inv)(void* ctx, size_t a, size_t b), void* ctx); // two variables of the same loop
void vf_loop_inv(const char* fn, bool (*inv)(void* ctx), void* ctx);   // invariant of the memory reachable from ctx
void vf_loop_count(const char* fn);                             // a ghost variable counts the iterations (loops without a counter of their own)
void vf_loop_peel(const char* fn);                              // the first iteration is executed; the rule applies to the others
void vf_loop_at(const char* fn, bool (*inv)(void* ctx, size_t iter), void* ctx); // invariant of memory, knowing the number of the iteration
void vf_loop_array(const char* fn, const char* array, size_t (*spec)(void* ctx, size_t i, size_t j), void* ctx); // array[j] == spec(i, j) after i iterations
// array[j] == spec(ctx, j) for every j below the loop variable; array "" is any array allocated by the function itself
void vf_loop_prefix(const char* fn, const char* array, size_t (*spec)(void* ctx, size_t j), void* ctx);
void vf_loop_prefix_reals(const char* fn, const char* array, double (*spec)(void* ctx, size_t j), void* ctx);
// contracts of std::vector for callees: element j is f(ctx, j); an empty vector with room for cap elements
void vf_map_sizes(std::vector<size_t>* v, const char* name, size_t n, size_t (*f)(void* ctx, size_t j), void* ctx);
void vf_map_chars(std::vector<char>* v, const char* name, size_t n, size_t (*f)(void* ctx, size_t j), void* ctx);
void vf_remap_sizes(size_t* p, size_t n, size_t (*f)(void* ctx, size_t j), void* ctx); // in place
void vf_reserve_sizes(std::vector<size_t>* v, const char* name, size_t cap);
}

#define VF_CONTRACT(P, N) extern "C" void P##__##N()

// bounded stand-in: executed natively only, never counted as proved
#ifdef VF_NATIVE
#define VF_BOUNDED(P, N) extern "C" void B_##P##__##N()
#endif
