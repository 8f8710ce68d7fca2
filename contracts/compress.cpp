// C04: compression.
#include "symmesh.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#ifdef VF_NATIVE
#include "compressnative.h"
#endif
using namespace sm;
using pointcloud::PointCloud;

// ---------------------------------------------------------------- function contracts
typedef std::vector<size_t> Sizes;
typedef std::vector<char> Chars;
struct Perm { const Sizes *src, *perm; Sizes *arr; size_t k; };
// applyPermutation(source, newToOld)[k] == source[newToOld[k]]
static size_t permuted(void* c, size_t k) { auto* p = (Perm*)c; return (*p->src)[(*p->perm)[k]]; }
struct PermC { const Chars* src; const Sizes* perm; };
static size_t permutedC(void* c, size_t k) { auto* p = (PermC*)c; return (size_t)(*p->src)[(*p->perm)[k]]; }
#ifdef VF_NATIVE
#define NATIVE_GUARD(i, n) i >= n ? NONE :
#else
#define NATIVE_GUARD(i, n)
#endif
static size_t relabelled(void* c, size_t k) { auto* p = (Perm*)c; size_t x = (*p->src)[k]; return NATIVE_GUARD(x, p->perm->size()) vf_ite(x == NONE, NONE, (*p->perm)[x]); }
#ifdef VF_NATIVE
static void arrays(Sizes& s, Sizes& p, bool skip) {
  s.resize(vf_size("sourceSize", 0, 8));
  for (auto& x : s) x = vf_size("value", 0, 9);
  p.resize(s.empty() ? 0 : vf_size("newSize", 0, 8));
  for (auto& x : p) x = vf_size("from", 0, s.size() - 1);
}
#else
static bool inSource(void* c, size_t k) { auto* p = (Perm*)c; return imp(k < p->perm->size(), (*p->perm)[k] < p->src->size()); }
static bool inMap(void* c, size_t k) { auto* p = (Perm*)c; return imp(k < p->arr->size(), ((*p->arr)[k] == NONE) | ((*p->arr)[k] < p->perm->size())); }
#endif
VF_CONTRACT(C04, applyPermutation) {
  Sizes s, p;
#ifdef VF_NATIVE
  arrays(s, p, false);
#else
  vf_sym_sizes(&s, "source", vf_size("sourceSize", 0, 1ul << 40));
  vf_sym_sizes(&p, "perm", vf_size("newSize", 0, 1ul << 40));
#endif
  Perm c{&s, &p, nullptr, 0};
#ifndef VF_NATIVE
  vf_forall("perm", inSource, &c);
#endif
  vf_loop_prefix("applyPermutation", "", permuted, &c);
  Sizes r = applyPermutation(s, p);
  vf_assert(r.size() == p.size(), "one entry per new index");
  size_t k = anyIndex("k", p.size());
  if (k < p.size()) {
    vf_assert(r[k] == s[p[k]], "entry k is the entry the permutation names");
    vf_reach("an entry");
  }
}
VF_CONTRACT(C04, applyPermutationChars) {
  Chars s;
  Sizes p;
#ifdef VF_NATIVE
  Sizes t;
  arrays(t, p, false);
  for (size_t x : t) s.push_back((char)(x % 3));
#else
  vf_sym_chars(&s, "source", vf_size("sourceSize", 0, 1ul << 40));
  vf_sym_sizes(&p, "perm", vf_size("newSize", 0, 1ul << 40));
#endif
  PermC c{&s, &p};
#ifndef VF_NATIVE
  vf_forall("perm", [](void* c, size_t k) { auto* p = (PermC*)c; return imp(k < p->perm->size(), (*p->perm)[k] < p->src->size()); }, &c);
#endif
  vf_loop_prefix("applyPermutation", "", permutedC, &c);
  Chars r = applyPermutation(s, p);
  vf_assert(r.size() == p.size(), "one entry per new index");
  size_t k = anyIndex("k", p.size());
  if (k < p.size()) {
    vf_assert(r[k] == s[p[k]], "entry k is the entry the permutation names");
    vf_reach("an entry");
  }
}
VF_CONTRACT(C04, updateValues) {
  Sizes *a = new Sizes(), m, old;
  SurfaceMesh* mesh = nullptr;
#ifdef VF_NATIVE
  m.resize(vf_size("mapSize", 1, 6));
  for (auto& x : m) x = vf_size("to", 0, 9);
  a->resize(vf_size("arraySize", 0, 8));
  for (auto& x : *a) { x = vf_size("value", 0, m.size()); if (x == m.size()) x = NONE; }
  old = *a;
#else
  vf_sym_sizes(&m, "map", vf_size("mapSize", 0, 1ul << 40));
  vf_sym_sizes(a, "array", vf_size("arraySize", 0, 1ul << 40));
  vf_old_sizes(&old, "array");
#endif
  Perm c{&old, &m, a, 0};
#ifndef VF_NATIVE
  vf_forall("array", inMap, &c);
#endif
  vf_loop_array("updateValues", "array", [](void* c, size_t i, size_t j) { auto* p = (Perm*)c; return j < i ? relabelled(p, j) : (*p->src)[j]; }, &c);
  mesh->updateValues(*a, m);
  size_t k = anyIndex("k", a->size());
  if (k < a->size()) {
    size_t was = old[k];
    vf_assert((*a)[k] == (was == NONE ? NONE : m[was]), "values are replaced by their image, unset values stay unset");
    vf_reach("an entry");
  }
}

// ---------------------------------------------------------------- numbering of the surviving elements
// before[i]: number of live elements below slot i; nth[k]: slot of the k-th live element
struct Num { Sizes before, nth; size_t n, live; };
struct Cx {
  AM* a = nullptr;
  PointCloud* pc = nullptr;
  Chars pv; // points that exist
  Num v, h, e, f, p; // e: counts halfedges below a slot that stand for their edge
  size_t lists = 0;
  Sizes init[8]; // initial contents of the lists built by the code
  bool vLive(size_t i) { return a->vh[i] != NONE; }
  bool hLive(size_t i) { return a->nx[i] != NONE; }
  bool fLive(size_t i) { return a->faceOk(i) & (a->fh[i] != NONE); }
  bool pLive(size_t i) { return pv[i] != 0; }
  size_t blCount(size_t i) { return vf_ite(i <= a->C - a->B, 0, f.before[i] - a->nF); }
  size_t blOld(size_t k) { return a->C - 1 - f.nth[a->nF + a->nB - 1 - k]; } // slot of the k-th live boundary loop
};
static Cx* X; // the numbering in the contract being verified
#ifdef VF_NATIVE
template <bool (Cx::*L)(size_t), Num Cx::*Q> static void number(Cx& x, size_t n, size_t live, const char*, const char*, const char*) {
  Num& q = x.*Q;
  q.n = n; q.live = live;
  for (size_t i = 0; i < n; i++) {
    q.before.push_back(q.nth.size());
    if ((x.*L)(i)) q.nth.push_back(i);
  }
  q.before.push_back(q.nth.size());
  vf_assume(q.nth.size() == live); // C03
}
#else
template <bool (Cx::*L)(size_t), Num Cx::*Q> static bool axBefore(void* c, size_t i) { // counting live elements (definition)
  Cx& x = *(Cx*)c;
  Num& q = x.*Q;
  bool in = i < q.n, lv = (x.*L)(i);
  size_t b = q.before[i];
  return imp(in, q.before[i + 1] == b + vf_ite(lv, 1, 0)) & imp(i <= q.n, b <= q.live) & imp(in & lv, (b < q.live) & (q.nth[b] == i)) & imp(i == 0, b == 0) & imp(i == q.n, b == q.live);
}
static bool axEdges(void* c, size_t h) { // edges are numbered by their even halfedges
  Cx& x = *(Cx*)c;
  AM& a = *x.a;
  bool in = h < a.H, lv = in & (a.nx[h] != NONE), ev = lv & (h % 2 == 0);
  size_t b = x.e.before[h];
  return imp(in, x.e.before[h + 1] == b + vf_ite(ev, 1, 0)) & imp(h <= a.H, b <= a.nE) & imp(ev, (b < a.nE) & (2 * x.e.nth[b] == h)) & imp(h == 0, b == 0) & imp(h == a.H, b == a.nE) & imp(lv, x.h.before[h] % 2 == h % 2);
}
template <bool (Cx::*L)(size_t), Num Cx::*Q> static bool axNth(void* c, size_t k) {
  Cx& x = *(Cx*)c;
  Num& q = x.*Q;
  size_t i = q.nth[k];
  return imp(k < q.live, (i < q.n) & (x.*L)(i) & (q.before[i] == k));
}
static bool axNthE(void* c, size_t k) {
  Cx& x = *(Cx*)c;
  AM& a = *x.a;
  size_t e = x.e.nth[k];
  return imp(k < a.nE, (e < a.E) & (a.nx[2 * e] != NONE) & (x.e.before[2 * e] == k));
}
template <bool (Cx::*L)(size_t), Num Cx::*Q> static void number(Cx& x, size_t n, size_t live, const char* b, const char* also, const char* s) {
  Num& q = x.*Q;
  q.n = n; q.live = live;
  vf_sym_indices(&q.before, b, n + 1);
  vf_sym_indices(&q.nth, s, live);
  vf_forall(also, axBefore<L, Q>, &x);
  vf_forall(s, axNth<L, Q>, &x);
  vf_instantiate(b, 0);
  vf_instantiate(b, n);
}
static bool axNextE(void* c, size_t h) { Cx& x = *(Cx*)c; size_t n = x.a->nx[h]; return imp((h < x.a->H) & (n != NONE), x.h.before[n] < x.a->nH); } // halfedges in use have a new number
static bool axDense(void* c, size_t h) { Cx& x = *(Cx*)c; return imp(h < x.a->H, x.a->nx[h] != NONE); }
static bool axRefV(void* c, size_t v) { Cx& x = *(Cx*)c; size_t h = x.a->vh[v]; return imp((v < x.a->V) & (h != NONE), x.h.before[h] < x.a->nH) & imp((v >= x.a->V) & (v < x.a->m().nVerticesCapacityCount), (h == NONE) | (h < x.a->H)); } // spare slots hold anything in range
static bool axRefF(void* c, size_t f) { Cx& x = *(Cx*)c; size_t h = x.a->fh[f]; return imp(x.a->faceOk(f) & (h != NONE), x.h.before[h] < x.a->nH) & imp((f < x.a->C) & !x.a->faceOk(f), (h == NONE) | (h < x.a->H)); }

// contracts of callees
// an obligation about an arbitrary entry is explored on a path of its own, which ends there
static bool aside() { return vf_size("aside", 0, 1) == 1; }
static void know(size_t k) { // facts about slot k and about the k-th live element of each kind
  static const char* const ax[] = {"halfedgesBefore", "edgesBefore", "nthHalfedge", "nthEdge", "verticesBefore", "nthVertex", "facesBefore", "nthFace", "next", "vert", "face", "vhe", "fhe"};
  for (const char* n : ax) vf_instantiate(n, k);
  if (k < X->h.nth.size()) { size_t h = X->h.nth[k]; vf_instantiate("next", h); vf_instantiate("face", h); }
  if (k < X->v.nth.size()) vf_instantiate("vhe", X->v.nth[k]);
  if (k < X->f.nth.size()) vf_instantiate("fhe", X->f.nth[k]);
}
static void applyPermutationC(Sizes* r, const Sizes& s, const Sizes& q) {
  Perm* c = new Perm{&s, &q, nullptr, 0};
  size_t k = vf_size("entry", 0, 1ul << 42);
  if (aside()) { vf_assume(k < q.size()); know(k); vf_assert(q[k] < s.size(), "the permutation names existing elements"); vf_assume(false); }
  vf_map_sizes(r, "permuted", q.size(), permuted, c);
}
static void applyPermutationCC(Chars* r, const Chars& s, const Sizes& q) {
  PermC* c = new PermC{&s, &q};
  size_t k = vf_size("entry", 0, 1ul << 42);
  if (aside()) { vf_assume(k < q.size()); vf_instantiate("pointsBefore", k); vf_instantiate("nthPoint", k); vf_assert(q[k] < s.size(), "the permutation names existing elements"); vf_assume(false); }
  vf_map_chars(r, "permuted", q.size(), permutedC, c);
}
static void updateValuesC(SurfaceMesh*, Sizes& a, const Sizes& m) {
  Perm* c = new Perm{&a, &m, nullptr, 0};
  size_t k = vf_size("entry", 0, 1ul << 42);
  if (aside()) { vf_assume(k < a.size()); know(k); vf_assert((a[k] == NONE) | (a[k] < m.size()), "every value is unset or an old index"); vf_assume(false); }
  vf_map_sizes(&a, "relabelled", a.size(), relabelled, c);
}
static void newListC(Sizes* v) { // an empty vector
  static const char* const names[8] = {"list0", "list1", "list2", "list3", "list4", "list5", "list6", "list7"};
  size_t k = X->lists++;
  vf_reserve_sizes(v, names[k], 1ul << 44);
  vf_old_sizes(&X->init[k], names[k]);
}
struct Rev { size_t* p; size_t n; };
static size_t reversed(void* c, size_t j) { auto* r = (Rev*)c; return r->p[r->n - 1 - j]; }
static void reverseC(size_t* b, size_t* e) {
  Rev* r = new Rev{b, (size_t)(e - b)};
  vf_remap_sizes(b, r->n, reversed, r);
}
static void contracts() {
  vf_replace("std::vector<unsigned long, std::allocator<unsigned long> > geometrycentral::applyPermutation<unsigned long, std::allocator<unsigned long>, std::allocator<unsigned long> >(", (void (*)()) & applyPermutationC, 0);
  vf_replace("std::vector<char, std::allocator<char> > geometrycentral::applyPermutation<char, std::allocator<char>, std::allocator<unsigned long> >(", (void (*)()) & applyPermutationCC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::updateValues(", (void (*)()) & updateValuesC, 0);
  vf_replace("std::vector<unsigned long, std::allocator<unsigned long> >::vector()", (void (*)()) & newListC, 0);
  vf_replace("void std::reverse<__gnu_cxx::__normal_iterator<unsigned long*, std::vector<unsigned long, std::allocator<unsigned long> > > >(", (void (*)()) & reverseC, 0);
}
#define CX Cx& x = *(Cx*)c; AM& a = *x.a
// the loops that build the numberings: list sizes and contents after i iterations
static bool heListed(void* c, size_t n, size_t, size_t i) { CX; return (i <= a.H) & (n == x.h.before[i]); }
static bool edgeListed(void* c, size_t n, size_t, size_t i) { CX; return (i <= a.H) & (n == x.e.before[i]); }
static size_t heList(void* c, size_t i, size_t j) { CX; return vf_ite(j < x.h.before[i], x.h.nth[j], x.init[0][j]); }
static size_t edgeList(void* c, size_t i, size_t j) { CX; return vf_ite(j < x.e.before[i], x.e.nth[j], x.init[1][j]); }
static size_t heMap(void* c, size_t i, size_t j) { CX; return vf_ite((j < i) & (a.nx[j] != NONE), x.h.before[j], NONE); }
static bool fListed(void* c, size_t n, size_t, size_t i) { CX; return (i <= a.C) & (n == x.f.before[i]); }
static bool blListed(void* c, size_t n, size_t, size_t i) { CX; return (i <= a.C) & (n == x.blCount(i)); }
static size_t fList(void* c, size_t i, size_t j) { CX; return vf_ite(j < x.f.before[i], x.f.nth[j], x.init[0][j]); }
static size_t blList(void* c, size_t i, size_t j) { CX; return vf_ite(j < x.blCount(i), a.C - 1 - x.f.nth[a.nF + j], x.init[1][j]); }
static size_t fMap(void* c, size_t i, size_t j) { CX; return vf_ite((j < i) & x.fLive(j), x.f.before[j], NONE); }
static bool vListed(void* c, size_t n, size_t, size_t i) { CX; return (i <= a.V) & (n == x.v.before[i]); }
static size_t vList(void* c, size_t i, size_t j) { CX; return vf_ite(j < x.v.before[i], x.v.nth[j], x.init[0][j]); }
static size_t vMap(void* c, size_t i, size_t j) { CX; return vf_ite((j < i) & x.vLive(j), x.v.before[j], NONE); }
static bool axFaceCounts(void* c, size_t i) { CX; return imp(i <= a.F, x.f.before[i] <= a.nF) & imp((i < a.F) & x.fLive(i), x.f.before[i] < a.nF) & imp((i >= a.C - a.B) & (i <= a.C), x.f.before[i] >= a.nF) & imp(i == a.F, x.f.before[i] == a.nF) & imp(i == a.C - a.B, x.f.before[i] == a.nF); }
#endif
enum { HALFEDGES = 1, FACES = 2, VERTICES = 4 }; // which kinds are renumbered
static Cx& numbered(int kinds, bool dense) { // dense: the halfedges are compressed already
  Cx& x = *new Cx();
  X = &x;
  x.a = anyMesh();
  AM& a = *x.a;
#ifdef VF_NATIVE
  a.m().isCompressedFlag = false;
  if (dense) {
    a.m().compressHalfedges();
    record(&a);
  }
  if (kinds & HALFEDGES) number<&Cx::hLive, &Cx::h>(x, a.H, a.nH, "halfedgesBefore", "halfedgesBefore,next", "nthHalfedge");
  x.e.nth.clear();
  for (size_t h = 0; h <= a.H; h++) {
    x.e.before.push_back(x.e.nth.size());
    if (h < a.H && h % 2 == 0 && a.nx[h] != NONE) x.e.nth.push_back(h / 2);
  }
  vf_assume(x.e.nth.size() == a.nE);
#else
  if (dense) vf_assume((a.nE == a.E) & (a.m().heNextArr.size() == a.H));
  if (kinds & HALFEDGES) number<&Cx::hLive, &Cx::h>(x, a.H, a.nH, "halfedgesBefore", "halfedgesBefore,next", "nthHalfedge");
  if (kinds & HALFEDGES) {
    vf_sym_indices(&x.e.before, "edgesBefore", a.H + 1);
    vf_sym_indices(&x.e.nth, "nthEdge", a.nE);
    vf_forall("edgesBefore,next", axEdges, &x);
    vf_forall("nthEdge", axNthE, &x);
    vf_instantiate("edgesBefore", 0);
    vf_instantiate("edgesBefore", a.H);
    vf_forall("next", axNextE, &x);
    vf_forall("vhe", axRefV, &x);
    vf_forall("fhe", axRefF, &x);
  }
  if (dense) vf_forall("next", axDense, &x);
#endif
  if (kinds & VERTICES) number<&Cx::vLive, &Cx::v>(x, a.V, a.nV, "verticesBefore", "verticesBefore,vhe", "nthVertex");
  if (kinds & FACES) {
    number<&Cx::fLive, &Cx::f>(x, a.C, a.nF + a.nB, "facesBefore", "facesBefore,fhe", "nthFace");
#ifndef VF_NATIVE
    vf_forall("facesBefore,fhe", axFaceCounts, &x);
    vf_instantiate("facesBefore", a.F);
    vf_instantiate("facesBefore", a.C - a.B);
#endif
  }
  return x;
}
// the callbacks of a kind receive, in order, the old slots of the surviving elements
static void listens(std::list<std::function<void(const Sizes&)>>& l, size_t& calls, size_t n, size_t want, size_t k, const char* what) {
  l.push_back([=, &calls](const Sizes& s) {
    calls++;
    vf_assert(s.size() == n, "containers learn about exactly the surviving elements");
    if (k < n) vf_assert(s[k] == want, what);
  });
}
struct Calls { size_t he = 0, e = 0, f = 0, b = 0, v = 0, all = 0; };
static void listenAll(Calls& t, ManifoldSurfaceMesh& m) { // for kinds that are not renumbered
  m.halfedgePermuteCallbackList.push_back([&t](const Sizes&) { t.he++; });
  m.edgePermuteCallbackList.push_back([&t](const Sizes&) { t.e++; });
  m.facePermuteCallbackList.push_back([&t](const Sizes&) { t.f++; });
  m.boundaryLoopPermuteCallbackList.push_back([&t](const Sizes&) { t.b++; });
  m.vertexPermuteCallbackList.push_back([&t](const Sizes&) { t.v++; });
  m.compressCallbackList.push_back([&t]() { t.all++; });
}
static void counts(AM& a, int kinds) {
  ManifoldSurfaceMesh& m = a.m();
  bool h = kinds & HALFEDGES, f = kinds & FACES, v = kinds & VERTICES;
  vf_assert((m.nHalfedgesCount == a.nH) & (m.nEdgesCount == a.nE) & (m.nVerticesCount == a.nV) & (m.nFacesCount == a.nF) & (m.nBoundaryLoopsCount == a.nB) & (m.nInteriorHalfedgesCount == a.nI), "counts are unchanged");
  vf_assert((m.nHalfedgesFillCount == (h ? a.nH : a.H)) & (m.nEdgesFillCount == (h ? a.nE : a.E)) & (m.nVerticesFillCount == (v ? a.nV : a.V)) & (m.nFacesFillCount == (f ? a.nF : a.F)) & (m.nBoundaryLoopsFillCount == (f ? a.nB : a.B)), "exactly the live elements remain");
  vf_assert(imp(h, (m.nHalfedgesCapacityCount == a.nH) & (m.nEdgesCapacityCount == a.nE)) & imp(v, m.nVerticesCapacityCount == a.nV) & (m.nFacesCapacityCount == (f ? a.nF + a.nB : a.C)), "no spare storage is left");
  vf_assert((m.heNextArr.size() == (h ? a.nH : a.nx.size())) & (m.heVertexArr.size() == m.heNextArr.size()) & (m.heFaceArr.size() == m.heNextArr.size()) & (m.vHalfedgeArr.size() == (v ? a.nV : a.vh.size())) & (m.fHalfedgeArr.size() == (f ? a.nF + a.nB : a.C)), "storage has one entry per element");
}
// halfedges and edges are renumbered; vertices and faces keep their numbers
VF_CONTRACT(C04, compressHalfedges) {
  Cx& x = numbered(HALFEDGES, false);
  AM& a = *x.a;
  ManifoldSurfaceMesh& m = a.m();
  Calls t, o;
  listenAll(o, m);
  size_t h = anyIndex("halfedge", a.nH), e = anyIndex("edge", a.nE), v = anyIndex("v", a.V), f = anyIndex("f", a.C);
  size_t ho = h < a.nH ? x.h.nth[h] : 0, eo = e < a.nE ? x.e.nth[e] : 0;
  listens(m.halfedgePermuteCallbackList, t.he, a.nH, ho, h, "halfedge containers follow");
  listens(m.edgePermuteCallbackList, t.e, a.nE, eo, e, "edge containers follow");
#ifndef VF_NATIVE
  if (v < a.V) vf_instantiate("vhe", v);
  if (f < a.C) vf_instantiate("fhe", f);
  contracts();
  vf_loop_step("::compressHalfedges", heListed, &x);
  vf_loop_step("::compressHalfedges", edgeListed, &x);
  vf_loop_array("::compressHalfedges", "list0", heList, &x);
  vf_loop_array("::compressHalfedges", "list1", edgeList, &x);
  vf_loop_array("::compressHalfedges", "", heMap, &x);
#endif
  m.compressHalfedges();
  vf_assert((t.he == 1) & (t.e == 1) & (o.f == 0) & (o.b == 0) & (o.v == 0) & (o.all == 0), "containers of halfedges and edges are told once, others not");
  counts(a, HALFEDGES);
  if (h < a.nH) {
    size_t n = a.nx[ho], w = a.ve[ho], g = a.fa[ho];
    vf_assert(m.heNextArr[h] == x.h.before[n], "the next halfedge is the same element as before");
    vf_assert(m.heVertexArr[h] == w, "the tail vertex is the same element as before");
    vf_assert(m.heFaceArr[h] == g, "the face or boundary loop is the same element as before");
    vf_assert((x.h.before[ho] == h) & (x.h.before[ho ^ 1] == (h ^ 1)), "the twin is the same element as before");
    vf_reach("a halfedge");
  }
  if (v < a.V) { vf_assert(m.vHalfedgeArr[v] == (a.vh[v] == NONE ? NONE : x.h.before[a.vh[v]]), "the halfedge of a vertex is the same element as before"); vf_reach("a vertex"); }
  if ((f < a.C) & a.faceOk(f)) { vf_assert(m.fHalfedgeArr[f] == (a.fh[f] == NONE ? NONE : x.h.before[a.fh[f]]), "the halfedge of a face is the same element as before"); vf_reach("a face"); }
}
// faces and boundary loops are renumbered; halfedges and vertices keep their numbers
VF_CONTRACT(C04, compressFaces) {
  Cx& x = numbered(FACES, true);
  AM& a = *x.a;
  ManifoldSurfaceMesh& m = a.m();
  Calls t, o;
  listenAll(o, m);
  size_t h = anyIndex("h", a.H), v = anyIndex("v", a.vh.size()), f = anyIndex("face", a.nF + a.nB), b = anyIndex("loop", a.nB);
  size_t fo = f < a.nF + a.nB ? x.f.nth[f] : 0, bo = b < a.nB ? x.blOld(b) : 0;
  listens(m.facePermuteCallbackList, t.f, a.nF, fo, f, "face containers follow");
  listens(m.boundaryLoopPermuteCallbackList, t.b, a.nB, bo, b, "boundary loop containers follow");
#ifndef VF_NATIVE
  contracts();
  vf_loop_step("::compressFaces", fListed, &x);
  vf_loop_step("::compressFaces", blListed, &x);
  vf_loop_array("::compressFaces", "list0", fList, &x);
  vf_loop_array("::compressFaces", "list1", blList, &x);
  vf_loop_array("::compressFaces", "", fMap, &x);
#endif
  m.compressFaces();
  vf_assert((t.f == 1) & (t.b == 1) & (o.he == 0) & (o.e == 0) & (o.v == 0) & (o.all == 0), "containers of faces and boundary loops are told once, others not");
  counts(a, FACES);
  if (h < a.H) {
    vf_instantiate("next", h);
    vf_assert(m.heFaceArr[h] == x.f.before[a.fa[h]], "the face or boundary loop of a halfedge is the same element as before");
    vf_assert((m.heNextArr[h] == a.nx[h]) & (m.heVertexArr[h] == a.ve[h]), "other relations are left alone");
    vf_reach("a halfedge");
  }
  if (v < a.vh.size()) vf_assert(m.vHalfedgeArr[v] == a.vh[v], "vertices are left alone");
  if (f < a.nF + a.nB) {
    vf_assert(m.fHalfedgeArr[f] == a.fh[fo], "the halfedge of a face is the same element as before");
    vf_assert((f < a.nF) == (fo < a.F), "faces stay faces and boundary loops stay boundary loops");
    vf_reach("a face");
  }
  if (b < a.nB) {
    vf_assert(m.fHalfedgeArr[m.nFacesCapacityCount - 1 - b] == a.fh[a.C - 1 - bo], "the halfedge of a boundary loop is the same element as before");
    vf_reach("a boundary loop");
  }
}
VF_CONTRACT(C04, compressVertices) {
  Cx& x = numbered(VERTICES, true);
  AM& a = *x.a;
  ManifoldSurfaceMesh& m = a.m();
  Calls t, o;
  listenAll(o, m);
  size_t h = anyIndex("h", a.H), f = anyIndex("f", a.C), v = anyIndex("vertex", a.nV);
  size_t vo = v < a.nV ? x.v.nth[v] : 0;
  listens(m.vertexPermuteCallbackList, t.v, a.nV, vo, v, "vertex containers follow");
#ifndef VF_NATIVE
  contracts();
  vf_loop_step("::compressVertices", vListed, &x);
  vf_loop_array("::compressVertices", "list0", vList, &x);
  vf_loop_array("::compressVertices", "", vMap, &x);
#endif
  m.compressVertices();
  vf_assert((t.v == 1) & (o.he == 0) & (o.e == 0) & (o.f == 0) & (o.b == 0) & (o.all == 0), "containers of vertices are told once, others not");
  counts(a, VERTICES);
  if (h < a.H) {
    vf_instantiate("next", h);
    vf_assert(m.heVertexArr[h] == x.v.before[a.ve[h]], "the tail vertex is the same element as before");
    vf_assert((m.heNextArr[h] == a.nx[h]) & (m.heFaceArr[h] == a.fa[h]), "other relations are left alone");
    vf_reach("a halfedge");
  }
  if (f < a.C) vf_assert(m.fHalfedgeArr[f] == a.fh[f], "faces are left alone");
  if (v < a.nV) { vf_assert(m.vHalfedgeArr[v] == a.vh[vo], "the halfedge of a vertex is the same element as before"); vf_reach("a vertex"); }
}
VF_CONTRACT(C04, compressEdges) { // edges are numbered by their halfedges
  AM& a = *anyMesh(false);
  Calls o;
  listenAll(o, a.m());
  a.m().compressEdges();
  vf_assert((o.he == 0) & (o.e == 0) & (o.f == 0) & (o.b == 0) & (o.v == 0), "nothing is left to do");
  counts(a, 0);
}
// the sequence of the four steps
#ifndef VF_NATIVE
static size_t steps;
static void halfedgesC(SurfaceMesh*) { vf_assert(steps == 0, "halfedges are renumbered first"); steps = 1; }
static void facesC(SurfaceMesh*) { vf_assert((steps == 1) | (steps == 3), "faces are renumbered once, after the halfedges"); steps += 1; }
static void verticesC(SurfaceMesh*) { vf_assert((steps == 1) | (steps == 2), "vertices are renumbered once, after the halfedges"); steps += 2; }
#endif
VF_CONTRACT(C04, compress) {
  AM& a = *anyMesh(false);
  ManifoldSurfaceMesh& m = a.m();
  bool was = m.isCompressed();
  Calls t;
  listenAll(t, m);
  bool early = false;
  m.compressCallbackList.push_back([&]() { if (!m.isCompressed()) early = true; });
#ifndef VF_NATIVE
  steps = 0;
  vf_replace("geometrycentral::surface::SurfaceMesh::compressHalfedges()", (void (*)()) & halfedgesC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::compressFaces()", (void (*)()) & facesC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::compressVertices()", (void (*)()) & verticesC, 0);
  m.compress();
  vf_assert(steps == (was ? 0 : 4), "every kind is renumbered once, unless the mesh is compressed already");
#else
  m.compress();
#endif
  vf_assert(m.isCompressed() & !early, "the mesh is compressed");
  vf_assert(t.all == (was ? 0 : 1), "compress callbacks run once");
  vf_reach(was ? "a compressed mesh" : "a mesh");
}
// ---------------------------------------------------------------- point clouds
#ifndef VF_NATIVE
static bool pListed(void* c, size_t n, size_t, size_t i) { Cx& x = *(Cx*)c; return (i <= x.p.n) & (n == x.p.before[i]); }
static size_t pList(void* c, size_t i, size_t j) { Cx& x = *(Cx*)c; return vf_ite(j < x.p.before[i], x.p.nth[j], x.init[0][j]); }
#endif
static Cx& points(bool compressed) {
  Cx& x = *new Cx();
  X = &x;
#ifdef VF_NATIVE
  x.pc = new PointCloud(vf_size("points", 0, 6));
  for (size_t k = vf_size("edits", 0, 6); k-- > 0;) {
    size_t j = vf_size("which", 0, 9);
    if (j < x.pc->nPointsFillCount && x.pc->pointValid[j]) x.pc->deleteElement(pointcloud::Point(x.pc, j));
    else if (j == 9 && compressed) x.pc->compress();
    else if (j == 8) x.pc->getNewPoint();
  }
  if (!compressed) x.pc->isCompressedFlag = false;
  x.pv = x.pc->pointValid;
  number<&Cx::pLive, &Cx::p>(x, x.pc->nPointsFillCount, x.pc->nPointsCount, "", "", "");
#else
  x.pc = new PointCloud(0);
  PointCloud& c = *x.pc;
  const size_t BIG = 1ul << 40;
  size_t N = vf_size("count", 0, BIG), F = vf_size("fill", 0, BIG), C = vf_size("capacity", 0, BIG);
  vf_assume((N <= F) & (F <= C));
  vf_sym_chars(&c.pointValid, "valid", C);
  vf_old_chars(&x.pv, "valid");
  c.nPointsCount = N; c.nPointsFillCount = F; c.nPointsCapacityCount = C;
  c.isCompressedFlag = compressed ? vf_bool("compressed") : false;
  number<&Cx::pLive, &Cx::p>(x, F, N, "pointsBefore", "pointsBefore,valid", "nthPoint");
#endif
  return x;
}
VF_CONTRACT(C04, compressPoints) {
  Cx& x = points(false);
  PointCloud& c = *x.pc;
  size_t N = c.nPointsCount, k = anyIndex("point", N), calls = 0, old = k < N ? x.p.nth[k] : 0;
  c.pointPermuteCallbackList.push_back([&](const Sizes& s) {
    calls++;
    vf_assert(s.size() == N, "containers learn about exactly the surviving points");
    if (k < N) vf_assert(s[k] == old, "point containers follow");
  });
#ifndef VF_NATIVE
  contracts();
  vf_loop_step("::compressPoints", pListed, &x);
  vf_loop_array("::compressPoints", "list0", pList, &x);
#endif
  c.compressPoints();
  vf_assert(calls == 1, "containers are told once");
  vf_assert((c.nPointsCount == N) & (c.nPointsFillCount == N) & (c.nPointsCapacityCount == N) & (c.pointValid.size() == N), "exactly the live points remain, in the storage they need");
  if (k < N) {
    vf_instantiate("nthPoint", k);
    vf_assert(!c.pointIsDead(k), "the surviving points are live");
    vf_reach("a point");
  }
}
VF_CONTRACT(C04, compressCloud) {
  Cx& x = points(true);
  PointCloud& c = *x.pc;
  bool was = c.isCompressed();
  size_t N = c.nPointsCount, F = c.nPointsFillCount;
#ifndef VF_NATIVE
  steps = 0;
  vf_replace("geometrycentral::pointcloud::PointCloud::compressPoints()", (void (*)())(void (*)(PointCloud*))[](PointCloud*) { steps++; }, 0);
  c.compress();
  vf_assert(steps == (was ? 0 : 1), "the points are renumbered once, unless the cloud is compressed already");
#else
  c.compress();
  vf_assert(c.nPointsFillCount == (was ? F : N), "the points are renumbered, unless the cloud is compressed already");
#endif
  vf_assert(c.isCompressed() & (c.nPointsCount == N), "the cloud is compressed and has as many points as before");
  vf_reach(was ? "a compressed cloud" : "a cloud");
}
#ifdef VF_NATIVE
VF_BOUNDED(C04, cloud) {
  Cx& x = points(true);
  PointCloud& c = *x.pc;
  size_t N = c.nPointsCount;
  pointcloud::PointData<size_t> d(c, 7), e(c);
  std::vector<size_t> want;
  for (pointcloud::Point p : c.points()) { want.push_back(3 + 11 * p.getIndex()); d[p] = want.back(); e[p] = want.back(); }
  c.compress();
  vf_assert(c.nPoints() == N && c.nPointsFillCount == N && c.nPointsCapacityCount >= N && c.isCompressed(), "exactly the live points remain");
  size_t k = 0;
  for (pointcloud::Point p : c.points()) {
    vf_assert(p.getIndex() == k && k < N, "points are numbered densely");
    vf_assert(d[p] == want[k] && e[p] == want[k], "point containers follow");
    k++;
  }
  vf_assert(k == N, "every point survives");
  pointcloud::Point q = c.getNewPoint();
  vf_assert(q.getIndex() == N && d[q] == 7, "points created later use fresh slots and default values");
}
VF_BOUNDED(C04, manifold) {
  auto m = zoo::baseMesh();
  zoo::history(*m, 6);
  cn::checkCompress(*m);
}
VF_BOUNDED(C04, general) {
  auto m = zoo::baseGeneral();
  for (size_t k = vf_size("extra", 0, 2); k-- > 0;) {
    auto fs = zoo::liveFaces(*m);
    if (!fs.empty()) m->duplicateFace(m->face(zoo::pick("dup", fs)));
  }
  for (size_t k = vf_size("drops", 0, 2); k-- > 0;) cn::dropComponent(*m);
  cn::checkCompress(*m);
}
#endif
