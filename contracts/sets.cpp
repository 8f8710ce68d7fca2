// C13: disjoint sets, for every size and every reachable state (a state is any parent forest over 0..n; rep is the
// abstract value: the representative of each element; lev decreases towards the representative).
#include "geometrycentral/utilities/disjoint_sets.h"
#include "vf.h"
using namespace geometrycentral;
static bool imp(bool a, bool b) { return !a | b; }
struct DSt { // ghost state
  std::vector<size_t> pa, rep, lev;
  std::vector<char> mk;
  size_t n;
};
static DSt* G;             // the ghost state of the structure under proof
static size_t below;       // a recursive call has to be on an element nearer to its representative
static bool recursive;
// the invariant at element i, for a parent p
static bool invAt(DSt& s, size_t p, size_t i) {
  return (p <= s.n) & (s.rep[i] <= s.n) & (s.rep[p] == s.rep[i]) & ((p == i) == (s.rep[i] == i)) & ((p == i) | (s.lev[p] < s.lev[i])) &
         ((s.rep[i] == i) | (s.lev[s.rep[i]] < s.lev[i])) & (s.rep[s.rep[i]] == s.rep[i]) & (s.lev[i] < (1ul << 50));
}
static bool axInv(void* c, size_t i) { DSt& s = *(DSt*)c; return imp(i <= s.n, invAt(s, s.pa[i], i)); }
#ifdef VF_NATIVE
template <class T> void fillGhost(T& d, DSt& s) {
  s.pa = d.parent; s.rep.resize(s.n + 1); s.lev.resize(s.n + 1);
  for (size_t i = 0; i <= s.n; i++) { size_t x = i, k = 0; while (d.parent[x] != x) { x = d.parent[x]; k++; } s.rep[i] = x; s.lev[i] = k; }
}
inline void fillMarks(DisjointSets&, DSt&) {}
inline void fillMarks(MarkedDisjointSets& d, DSt& s) { s.mk.assign(d.marked.begin(), d.marked.end()); }
inline void mayMark(DisjointSets&, size_t) {}
inline void mayMark(MarkedDisjointSets& d, size_t x) { if (vf_bool("mark")) d.mark(x); else if (vf_bool("unmark")) d.unmark(x); }
template <class T> T* anySets() {
  size_t n = vf_size("n", 0, 6);
  T* d = new T(n);
  size_t k = vf_size("k", 0, 6);
  for (size_t i = 0; i < k; i++) { d->merge(vf_size("a", 0, n), vf_size("b", 0, n)); mayMark(*d, vf_size("c", 0, n)); }
  G = new DSt(); G->n = n;
  fillGhost(*d, *G); fillMarks(*d, *G);
  return d;
}
#else
inline void symMarks(DisjointSets&, DSt&) {}
inline void symMarks(MarkedDisjointSets& d, DSt& s) { vf_sym_bits(&d.marked, "marked", s.n + 1); vf_old_chars(&s.mk, "marked"); }
template <class T> T* anySets() {
  T* d = (T*)malloc(sizeof(T));
  G = new DSt();
  G->n = vf_size("n", 0, 1ul << 40);
  d->n = G->n;
  vf_sym_sizes(&d->parent, "parent", G->n + 1);
  vf_sym_sizes(&d->rank, "rank", G->n + 1);
  vf_sym_sizes(&G->rep, "rep", G->n + 1);
  vf_sym_sizes(&G->lev, "lev", G->n + 1);
  vf_old_sizes(&G->pa, "parent");
  symMarks(*d, *G);
  vf_forall("parent,rep", axInv, G);
  return d;
}
#endif
static size_t elem(const char* n) { size_t x = vf_size(n, 0, 1ul << 40); vf_assume(x <= G->n); return x; }

// contract of find(): requires a valid element; keeps the invariant with the same representatives; returns the representative
static const char* AFTER[] = {"parent1", "parent2", "parent3", "parent4"};
static int nAfter;
template <class T> size_t findContract(T* d, size_t x) {
  vf_assert(x <= G->n, "find() is asked for an element");
  if (recursive) vf_assert(G->lev[x] < below, "the recursion of find() comes nearer to the representative");
  DSt* s = new DSt(*G);
  const char* nm = AFTER[nAfter++];
  vf_havoc_sizes(&d->parent, nm);
  vf_old_sizes(&s->pa, nm);
  vf_forall(nm, axInv, s);
  return G->rep[x];
}
template <class T> void findProof() {
  T& d = *anySets<T>();
  size_t x = elem("x"), i = elem("i");
  recursive = true;
  below = G->lev[x];
  vf_replace(std::is_same<T, DisjointSets>::value ? "geometrycentral::DisjointSets::find" : "geometrycentral::MarkedDisjointSets::find", (void (*)()) & findContract<T>, 1);
  size_t r = d.find(x);
  vf_assert(r == G->rep[x], "find() returns the representative");
  vf_assert((d.parent.size() == G->n + 1), "size is kept");
  vf_assert(invAt(*G, d.parent[i], i), "find() keeps every representative");
}
VF_CONTRACT(C13, find) { findProof<DisjointSets>(); }
VF_CONTRACT(C13, findMarked) { findProof<MarkedDisjointSets>(); }

template <class T> void useFind() {
  recursive = false;
  vf_replace(std::is_same<T, DisjointSets>::value ? "geometrycentral::DisjointSets::find" : "geometrycentral::MarkedDisjointSets::find", (void (*)()) & findContract<T>, 0);
}
inline void marksAfterMerge(DisjointSets&, size_t, size_t, size_t, size_t) {}
inline void marksAfterMerge(MarkedDisjointSets& d, size_t a, size_t b, size_t r, size_t i) {
  size_t ri = G->rep[i];
  bool was = ((ri == a) | (ri == b)) ? ((G->mk[a] != 0) | (G->mk[b] != 0)) : G->mk[ri] != 0;
  size_t q = vf_ite((ri == a) | (ri == b), r, ri);
  vf_assert(d.marked[q] == was, "a merged set is marked if one of the two was; others keep their mark");
}
template <class T> void mergeProof() {
  T& d = *anySets<T>();
  size_t x = elem("x"), y = elem("y"), i = elem("i"), j = elem("j");
  size_t a = G->rep[x], b = G->rep[y];
  useFind<T>();
  d.merge(x, y);
  // ghost state of the result
  vf_instantiate("parent", a); vf_instantiate("parent", b);
  size_t r = vf_ite(d.parent[a] == a, a, b), c = vf_ite(d.parent[a] == a, b, a);
  vf_assert((d.parent[r] == r), "one of the two representatives represents the union");
  auto rep2 = [&](size_t k) { size_t q = G->rep[k]; return vf_ite((q == a) | (q == b), r, q); };
  auto lev2 = [&](size_t k) { return vf_ite((a != b) & (G->rep[k] == c), G->lev[k] + G->lev[r] + 1, G->lev[k]); };
  size_t p = d.parent[i];
  vf_assert(p <= G->n, "the parent is an element");
  if (p > G->n) return;
  vf_instantiate("parent", p); vf_instantiate("parent", i); vf_instantiate("parent", r);
  vf_assert(rep2(p) == rep2(i), "parents lead to the representative");
  vf_assert((p == i) == (rep2(i) == i), "exactly the representatives are their own parent");
  vf_assert((p == i) | (lev2(p) < lev2(i)), "the parents form a forest");
  vf_assert((rep2(i) == i) | (lev2(rep2(i)) < lev2(i)), "the representative is a root");
  vf_assert(rep2(rep2(i)) == rep2(i), "representatives represent themselves");
  bool joined = ((G->rep[i] == a) | (G->rep[i] == b)) & ((G->rep[j] == a) | (G->rep[j] == b));
  vf_assert((rep2(i) == rep2(j)) == ((G->rep[i] == G->rep[j]) | joined), "exactly the two sets are joined");
  marksAfterMerge(d, a, b, r, i);
#ifdef VF_NATIVE
  vf_assert((d.find(i) == d.find(j)) == ((G->rep[i] == G->rep[j]) | joined), "exactly the two sets are joined");
#endif
}
VF_CONTRACT(C13, merge) { mergeProof<DisjointSets>(); }
VF_CONTRACT(C13, mergeMarked) { mergeProof<MarkedDisjointSets>(); }

static void marks(int op) {
  MarkedDisjointSets& d = *anySets<MarkedDisjointSets>();
  size_t x = elem("x"), i = elem("i");
  useFind<MarkedDisjointSets>();
  if (op == 0) d.mark(x);
  if (op == 1) d.unmark(x);
  if (op == 2) {
    bool m = d.isMarked(x);
    vf_assert(m == (G->mk[G->rep[x]] != 0), "isMarked() reports the mark of the set");
  }
  size_t q = G->rep[i];
  bool was = G->mk[q];
  if (op < 2 && q == G->rep[x]) was = op == 0;
  vf_assert(d.marked[q] == was, "exactly the set of the element changes its mark");
  vf_assert(invAt(*G, d.parent[i], i), "the sets stay the same");
}
VF_CONTRACT(C13, mark) { marks(0); }
VF_CONTRACT(C13, unmark) { marks(1); }
VF_CONTRACT(C13, isMarked) { marks(2); }

static size_t identitySpec(void*, size_t i, size_t j) { return vf_ite(j < i, j, 0); }
static size_t zeroSpec(void*, size_t, size_t) { return 0; }
template <class T> void fresh() {
  size_t n = vf_size("n", 0, 1ul << 40), x = vf_size("x", 0, 1ul << 40), y = vf_size("y", 0, 1ul << 40);
#ifdef VF_NATIVE
  n %= 100; x %= 101; y %= 101;
#endif
  vf_assume((x <= n) & (y <= n));
  vf_loop_array("DisjointSets(unsigned long)", "vec1", identitySpec, nullptr);
  vf_loop_array("DisjointSets(unsigned long)", "vec2", zeroSpec, nullptr);
  vf_loop_array("DisjointSets(unsigned long)", "vec3", zeroSpec, nullptr);
  T d(n);
  vf_assert(d.find(x) == x, "a new element represents itself");
  vf_assert(d.find(y) == y, "every new element represents itself");
}
VF_CONTRACT(C13, create) { fresh<DisjointSets>(); }
VF_CONTRACT(C13, createMarked) { fresh<MarkedDisjointSets>(); }
VF_CONTRACT(C13, createUnmarked) {
  size_t n = vf_size("n", 0, 1ul << 40), x = vf_size("x", 0, 1ul << 40);
#ifdef VF_NATIVE
  n %= 100; x %= 101;
#endif
  vf_assume(x <= n);
  vf_loop_array("DisjointSets(unsigned long)", "vec1", identitySpec, nullptr);
  vf_loop_array("DisjointSets(unsigned long)", "vec3", zeroSpec, nullptr);
  MarkedDisjointSets d(n);
  vf_assert(!d.isMarked(x), "nothing is marked at first");
}
#ifdef VF_NATIVE
template <class T> void history() {
  size_t n = vf_size("n", 0, 12), k = vf_size("ops", 0, 30);
  T d(n);
  std::vector<size_t> cls(n + 1);
  std::vector<char> mk(n + 1, 0);
  for (size_t i = 0; i <= n; i++) cls[i] = i;
  for (size_t o = 0; o < k; o++) {
    size_t x = vf_size("x", 0, n), y = vf_size("y", 0, n);
    switch (vf_size("op", 0, 3)) {
    case 0: case 1: {
      d.merge(x, y);
      size_t a = cls[x], b = cls[y];
      char m = mk[a] | mk[b];
      for (auto& c : cls) if (c == b) c = a;
      mk[a] = m;
      break;
    }
    case 2: {
      size_t r = d.find(x);
      vf_assert((r <= n) && cls[r] == cls[x], "the representative is in the set");
      vf_assert(d.find(x) == r && d.find(r) == r, "the representative is stable");
      break;
    }
    default: {
      size_t c = cls[x];
      struct V { // marks exist in one variant only
        static void go(DisjointSets&, size_t, std::vector<char>&, size_t) {}
        static void go(MarkedDisjointSets& d, size_t x, std::vector<char>& mk, size_t c) {
          if (vf_bool("mark")) { d.mark(x); mk[c] = 1; } else if (vf_bool("unmark")) { d.unmark(x); mk[c] = 0; }
          vf_assert(d.isMarked(x) == (mk[c] != 0), "mark of the set");
        }
      };
      V::go(d, x, mk, c);
    }
    }
  }
  struct W {
    static bool ok(DisjointSets&, size_t, bool) { return true; }
    static bool ok(MarkedDisjointSets& d, size_t i, bool m) { return d.isMarked(i) == m; }
  };
  for (size_t i = 0; i <= n; i++) {
    vf_assert(W::ok(d, i, mk[cls[i]]), "a set is marked exactly when an element of it was marked");
    for (size_t j = 0; j <= n; j++) vf_assert((d.find(i) == d.find(j)) == (cls[i] == cls[j]), "same representative exactly when connected by merges");
  }
}
VF_BOUNDED(C13, history) { history<DisjointSets>(); }
VF_BOUNDED(C13, historyMarked) { history<MarkedDisjointSets>(); }
#endif
