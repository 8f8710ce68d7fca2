// Native runtime of the contract language: random search, replay of counterexamples, enumeration.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct VfAbandon {};
struct VfStop {};

namespace {
std::map<std::string, std::string> given; // replay values
bool replaying = false, enumerating = false;
std::mt19937_64 rng;
std::map<std::string, int> seen;
std::vector<std::pair<std::string, std::string>> inputs;
bool maythrow = false;
std::set<std::string> reachedNow;
long asserts = 0;
std::string failLabel;
// odometer
std::vector<std::pair<size_t, size_t>> odo; // (value, range)
size_t odoPos = 0;
bool odoOverflow = false;

std::string uniq(const char* n) {
  int c = seen[n]++;
  return c == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(c);
}
std::string num(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
long choose(size_t range) { // 0..range-1
  if (range == 0) throw VfAbandon{};
  if (enumerating) {
    if (odoPos == odo.size()) odo.push_back({0, range});
    odo[odoPos].second = range;
    size_t v = odo[odoPos].first;
    odoPos++;
    if (v >= range) throw VfAbandon{};
    return (long)v;
  }
  return (long)(rng() % range);
}
bool odoNext() {
  odo.resize(odoPos);
  while (!odo.empty()) {
    odo.back().first++;
    if (odo.back().first < odo.back().second) return true;
    odo.pop_back();
  }
  return false;
}
double randomReal() {
  static const double sp[] = {0., 1., -1., 0.5, 2., -0.5, 3., 0.25, -2., 1.5};
  std::uniform_int_distribution<int> k(0, 9);
  int c = k(rng);
  if (c < 3) return sp[rng() % 10];
  if (c == 3 && !inputs.empty()) return atof(inputs[rng() % inputs.size()].second.c_str());
  if (c < 7) return std::uniform_real_distribution<double>(-2, 2)(rng);
  if (c == 7) return std::uniform_real_distribution<double>(0, 1)(rng);
  if (c == 8) return std::uniform_real_distribution<double>(-10, 10)(rng);
  return (double)((long)(rng() % 13) - 6) / 2.;
}
[[noreturn]] void fail(const std::string& label) {
  failLabel = label;
  throw VfStop{};
}
} // namespace

extern "C" {
double vf_real(const char* name) {
  std::string n = uniq(name);
  double v;
  auto it = given.find(n);
  if (replaying && it != given.end())
    v = atof(it->second.c_str());
  else
    v = randomReal();
  inputs.push_back({n, num(v)});
  return v;
}
long vf_long(const char* name, long lo, long hi) {
  std::string n = uniq(name);
  long v;
  if (hi < lo) throw VfAbandon{};
  auto it = given.find(n);
  if (replaying && it != given.end()) {
    v = atol(it->second.c_str());
    if (v < lo || v > hi) throw VfAbandon{};
  } else {
    unsigned long range = (unsigned long)hi - (unsigned long)lo;
    if (range >= 1000) {
      if (enumerating) {
        v = lo + choose(1000);
      } else {
        int k = rng() % 4;
        long s = (long)(rng() % 9) - 4;
        v = k == 0 ? lo + (long)(rng() % 5) : k == 1 ? hi - (long)(rng() % 5) : k == 2 ? s : (long)(rng() % (range ? range : 1)) + lo;
        if (v < lo || v > hi) v = lo + (long)(rng() % 1000);
      }
    } else
      v = lo + choose(range + 1);
  }
  inputs.push_back({n, std::to_string(v)});
  return v;
}
size_t vf_size(const char* name, size_t lo, size_t hi) {
  std::string n = uniq(name);
  size_t v;
  if (hi < lo) throw VfAbandon{};
  auto it = given.find(n);
  if (replaying && it != given.end()) {
    v = strtoull(it->second.c_str(), nullptr, 10);
    if (v < lo || v > hi) throw VfAbandon{};
  } else {
    size_t range = hi - lo;
    v = lo + choose(range >= 1000 ? (rng() % 2 ? 8 : 1000) : range + 1);
  }
  inputs.push_back({n, std::to_string(v)});
  return v;
}
bool vf_bool(const char* name) {
  std::string n = uniq(name);
  auto it = given.find(n);
  bool v = (replaying && it != given.end()) ? it->second == "1" : choose(2) != 0;
  inputs.push_back({n, v ? "1" : "0"});
  return v;
}
void vf_assume(bool c) {
  if (!c) throw VfAbandon{};
}
void vf_assert(bool c, const char* label) {
  asserts++;
  if (!c) fail(label);
}
static bool close(double a, double b) {
  if (std::isnan(a) && std::isnan(b)) return true;
  if (a == b) return true;
  double m = std::max(1., std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= 1e-6 * m;
}
void vf_eq(double a, double b, const char* label) {
  asserts++;
  if (!close(a, b)) fail(std::string(label) + ": " + num(a) + " != " + num(b));
}
void vf_le(double a, double b, const char* label) {
  asserts++;
  if (!(a <= b) && !close(a, b)) fail(std::string(label) + ": " + num(a) + " > " + num(b));
}
double vf_define(const char*, double e) { return e; }
void vf_reach(const char* l) { reachedNow.insert(l); }
void vf_flag(const char* k, const char* v) {
  if (!strcmp(k, "maythrow")) maythrow = strcmp(v, "0") != 0;
}
void vf_sym_sizes(std::vector<size_t>* v, const char* name, size_t n) {
  v->resize(n);
  for (size_t i = 0; i < n; i++) (*v)[i] = vf_size(name, 0, n);
}
void vf_sym_chars(std::vector<char>* v, const char* name, size_t n) {
  v->resize(n);
  for (size_t i = 0; i < n; i++) (*v)[i] = vf_bool(name);
}
void vf_sym_reals(std::vector<double>* v, const char* name, size_t n) {
  v->resize(n);
  for (size_t i = 0; i < n; i++) (*v)[i] = vf_real(name);
}
void vf_sym_ints(std::vector<int>* v, const char* name, size_t n) {
  v->resize(n);
  for (size_t i = 0; i < n; i++) (*v)[i] = (int)vf_long(name, -3, 5);
}
void vf_forall(const char*, bool (*pred)(void*, size_t), void* ctx) {}
double vf_pick(bool c, double a, double b) { return c ? a : b; }
void vf_triplets(void (*)(void*, size_t, size_t, double, double)) {}
size_t vf_first(size_t, size_t value) { return value; }
size_t vf_ite(bool c, size_t a, size_t b) { return c ? a : b; }
void vf_old_sizes(std::vector<size_t>*, const char*) {}
void vf_havoc_sizes(std::vector<size_t>*, const char*) {}
void vf_havoc_chars(std::vector<char>*, const char*) {}
void vf_sym_bits(std::vector<bool>*, const char*, size_t) {}
void vf_replace(const char*, void (*)(), int) {}
void vf_old_chars(std::vector<char>*, const char*) {}
void vf_old_reals(std::vector<double>*, const char*) {}
void vf_instantiate(const char*, size_t) {}
void vf_rewrite(const char*, size_t, size_t) {}
void vf_loop(const char*) {}
void vf_loop_count(const char*) {}
void vf_loop_peel(const char*) {}
void vf_loop_at(const char*, bool (*)(void*, size_t), void*) {}
void vf_loop_outer(const char*) {}
void vf_loop_step(const char*, bool (*)(void*, size_t, size_t, size_t), void*) {}
void vf_loop_body(const char*, void (*)(void*, size_t), void (*)(void*, size_t), void*) {}
void vf_loop_pair(const char*, bool (*)(void*, size_t, size_t), void*) {}
void vf_loop_flags(const char*, bool (*)(void*, size_t, bool, bool), void*) {}
void vf_loop_inv(const char*, bool (*)(void*), void*) {}
void vf_loop_keep(const char*, bool (*)(void*, size_t, size_t), void*) {}
void vf_loop_prefix(const char*, const char*, size_t (*)(void*, size_t), void*) {}
void vf_loop_prefix_reals(const char*, const char*, double (*)(void*, size_t), void*) {}
void vf_map_sizes(std::vector<size_t>*, const char*, size_t, size_t (*)(void*, size_t), void*) {}
void vf_map_chars(std::vector<char>*, const char*, size_t, size_t (*)(void*, size_t), void*) {}
void vf_remap_sizes(size_t*, size_t, size_t (*)(void*, size_t), void*) {}
void vf_sym_indices(std::vector<size_t>*, const char*, size_t) {}
void vf_reserve_sizes(std::vector<size_t>*, const char*, size_t) {}
void vf_loop_array(const char*, const char*, size_t (*)(void*, size_t, size_t), void*) {}
}

// ----------------------------------------------------------------------------------------------------------------
typedef void (*Fn)();

static int runOnce(Fn f) { // 0 held, 1 failed, 2 abandoned
  seen.clear();
  inputs.clear();
  maythrow = false;
  failLabel.clear();
  odoPos = 0;
  try {
    f();
    return 0;
  } catch (VfAbandon&) {
    return 2;
  } catch (VfStop&) {
    return 1;
  } catch (std::exception& e) {
    if (maythrow) return 0;
    failLabel = std::string("no exception escapes: ") + e.what();
    return 1;
  } catch (...) {
    if (maythrow) return 0;
    failLabel = "no exception escapes";
    return 1;
  }
}

static std::string dump(const std::string& contract) {
  std::ostringstream o;
  o << "contract " << contract << "\n";
  o << "failed " << failLabel << "\n";
  for (auto& p : inputs) o << "input " << p.first << " " << p.second << "\n";
  return o.str();
}

static std::string curContract, outPath;
static void onCrash(int sig) {
  failLabel = std::string("crash: ") + strsignal(sig);
  std::ofstream(outPath) << dump(curContract);
  _exit(1);
}
extern "C" void __asan_on_error() {
  failLabel = "memory error (address sanitizer)";
  std::ofstream(outPath) << dump(curContract);
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// usage: native random  CONTRACT SEED COUNT SECONDS OUT | native enum CONTRACT MAX SECONDS OUT | native replay FILE
int main(int argc, char** argv) {
  std::string mode = argv[1];
  std::cout.setstate(std::ios_base::failbit);
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) signal(s, onCrash);
  auto get = [&](const std::string& n) -> Fn {
    void* p = dlsym(RTLD_DEFAULT, n.c_str());
    if (!p) {
      fprintf(stderr, "no contract %s\n", n.c_str());
      exit(3);
    }
    return (Fn)p;
  };
  if (mode == "replay") {
    std::ifstream in(argv[2]);
    std::string w, line;
    std::string contract;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      s >> w;
      if (w == "contract") s >> contract;
      if (w == "input") {
        std::string n, v;
        s >> n >> v;
        given[n] = v;
      }
    }
    replaying = true;
    curContract = contract;
    outPath = argc > 3 ? argv[3] : "/dev/null";
    rng.seed(argc > 4 ? atol(argv[4]) : 1);
    int r = runOnce(get(contract));
    if (r == 1) {
      fprintf(stdout, "FAILED %s: %s\n", contract.c_str(), failLabel.c_str());
      std::ofstream(outPath) << dump(contract);
    }
    return r;
  }
  curContract = argv[2];
  Fn f = get(curContract);
  long executed = 0, effective = 0;
  double t0 = now();
  if (mode == "random") {
    unsigned long seed = strtoul(argv[3], nullptr, 10);
    long count = atol(argv[4]);
    double secs = atof(argv[5]);
    outPath = argv[6];
    rng.seed(seed);
    for (long k = 0; k < count && now() - t0 < secs; k++) {
      alarm(10);
      int r = runOnce(f);
      executed++;
      if (r == 0) effective++;
      if (r == 1) {
        std::ofstream(outPath) << dump(curContract);
        printf("FAILED %s: %s\n", curContract.c_str(), failLabel.c_str());
        return 1;
      }
    }
  } else {
    long count = atol(argv[3]);
    double secs = atof(argv[4]);
    outPath = argv[5];
    rng.seed(argc > 6 ? strtoul(argv[6], nullptr, 10) : 1);
    enumerating = true;
    bool more = true;
    while (more && executed < count && now() - t0 < secs) {
      alarm(10);
      int r = runOnce(f);
      executed++;
      if (r == 0) effective++;
      if (r == 1) {
        std::ofstream(outPath) << dump(curContract);
        printf("FAILED %s: %s\n", curContract.c_str(), failLabel.c_str());
        return 1;
      }
      more = odoNext();
    }
    if (!more) printf("EXHAUSTIVE\n");
  }
  std::string rl;
  for (auto& x : reachedNow) rl += (rl.empty() ? "" : "|") + x;
  printf("REACHED %s\n", rl.c_str());
  printf("RUN %ld EFFECTIVE %ld ASSERTS %ld\n", executed, effective, asserts);
  fflush(stdout);
  return 0;
}
