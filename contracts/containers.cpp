// C05: element containers.
#include "symmesh.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#ifdef VF_NATIVE
#include "meshops.h"
#endif
using namespace sm;

// ---------------------------------------------------------------- one container with arbitrary contents
using pointcloud::Point;
using pointcloud::PointCloud;
typedef std::list<std::function<void(size_t)>> ExpandList;
typedef std::list<std::function<void(const std::vector<size_t>&)>> PermuteList;
// element kinds, with the callbacks the mesh calls when elements of the kind are added or renumbered
struct OnMesh {
  typedef ManifoldSurfaceMesh M;
  static M& mesh() { return anyMesh(false)->m(); }
};
struct OnCloud {
  typedef PointCloud M;
#ifdef VF_NATIVE
  static M& mesh() { return *new PointCloud(vf_size("points", 0, 6)); }
#else
  static M& mesh() {
    PointCloud& c = *new PointCloud(0);
    size_t n = vf_size("capacity", 0, 1ul << 40), k = vf_size("used", 0, 1ul << 40);
    vf_assume(k <= n);
    vf_sym_chars(&c.pointValid, "valid", n);
    c.nPointsCapacityCount = n;
    c.nPointsFillCount = k;
    c.nPointsCount = vf_size("points", 0, 1ul << 40);
    return c;
  }
#endif
};
#define KIND(K, B, E_, X, P) struct K : B { typedef E_ E; static const char* name() { return #E_; } static ExpandList& expandList(M& m) { return m.X; } static PermuteList& permuteList(M& m) { return m.P; } };
KIND(KV, OnMesh, Vertex, vertexExpandCallbackList, vertexPermuteCallbackList)
KIND(KH, OnMesh, Halfedge, halfedgeExpandCallbackList, halfedgePermuteCallbackList)
KIND(KC, OnMesh, Corner, halfedgeExpandCallbackList, halfedgePermuteCallbackList)
KIND(KE, OnMesh, Edge, edgeExpandCallbackList, edgePermuteCallbackList)
KIND(KF, OnMesh, Face, faceExpandCallbackList, facePermuteCallbackList)
KIND(KB, OnMesh, BoundaryLoop, faceExpandCallbackList, boundaryLoopPermuteCallbackList)
KIND(KP, OnCloud, Point, pointExpandCallbackList, pointPermuteCallbackList)

template <class K> struct Box {
  typedef MeshData<typename K::E, double> D;
  typename K::M* m;
  D* d;
  std::vector<double> old; // contents before
  size_t n;                // slots
  double def;
  double operator()(size_t i) { return d->raw()[i]; }
};
struct Perm {
  std::vector<size_t> p;
  size_t n;
};
template <class K> static double grownSpec(void* c, size_t j) { auto* b = (Box<K>*)c; return j < b->n ? b->old[j] : b->def; }
#ifdef VF_NATIVE
template <class K> void anyBox(Box<K>& b, typename K::M& m, const char* name) {
  b.m = &m;
  b.d = new MeshData<typename K::E, double>(m);
  b.def = vf_real("default");
  b.d->defaultValue = b.def;
  b.n = b.d->raw().rows();
  for (size_t i = 0; i < b.n; i++) { double x = vf_real(name); b.d->raw()[i] = x; b.old.push_back(x); }
}
static void anyPerm(Perm& q, size_t n) {
  q.n = n;
  q.p.resize(n ? vf_size("permuted", 0, n) : 0);
  for (size_t& x : q.p) x = vf_size("source", 0, n - 1);
}
static size_t biggerThan(size_t n) { return n + vf_size("extra", 0, 5); }
#else
template <class K> void anyBox(Box<K>& b, typename K::M& m, const char* name) {
  b.m = &m;
  b.n = vf_size("slots", 0, 1ul << 40);
  auto* s = new std::vector<double>();
  vf_sym_reals(s, name, b.n);
  vf_old_reals(&b.old, name);
  b.d = new MeshData<typename K::E, double>();
  b.d->mesh = &m;
  b.def = vf_real("default");
  b.d->defaultValue = b.def;
  b.d->data.m_storage.m_data = s->data();
  b.d->data.m_storage.m_rows = (long)b.n;
  b.d->registerWithMesh();
}
static bool permAx(void* c, size_t i) {
  Perm& q = *(Perm*)c;
  return imp(i < q.p.size(), q.p[i] < q.n);
}
static void anyPerm(Perm& q, size_t n) {
  q.n = n;
  vf_sym_sizes(&q.p, "perm", vf_size("permuted", 0, 1ul << 40));
  vf_forall("perm", permAx, &q);
}
static size_t biggerThan(size_t n) {
  size_t x = vf_size("newSlots", 0, 1ul << 41);
  vf_assume(x >= n);
  return x;
}
#endif
// the number of containers registered with the mesh, of this kind
template <class K> static void registered(typename K::M& m, size_t k, const char* l) {
  vf_assert((K::expandList(m).size() == k) & (K::permuteList(m).size() == k) & (m.meshDeleteCallbackList.size() == k), l);
}
template <class K> static void holds(Box<K>& b, typename Box<K>::D& d, const char* l) { // d has the contents b had initially
  vf_assert(((void*)d.getMesh() == (void*)static_cast<typename Box<K>::D::ParentMeshT*>(b.m)) & ((size_t)d.raw().rows() == b.n), l);
  vf_eq(d.getDefault(), b.def, l);
  size_t i = anyIndex("slot", b.n);
  if (i < b.n) vf_eq(d.raw()[i], b.old[i], l);
}
// the storage of the mesh grows; d still holds the values of b, new slots read the default
template <class K> static void grows(Box<K>& b, typename Box<K>::D& d, const char* l) {
  size_t n2 = biggerThan(b.n);
  vf_loop_prefix_reals("registerWithMesh()::{lambda(unsigned long)", "", grownSpec<K>, &b);
  for (auto& f : K::expandList(*b.m)) f(n2);
  vf_assert((size_t)d.raw().rows() == n2, "there is one value per slot");
  size_t i = anyIndex("i", n2);
  if (i < n2) {
    vf_eq(d.raw()[i], i < b.n ? b.old[i] : b.def, l);
    vf_reach("a slot after growth");
  }
  vf_eq(d.getDefault(), b.def, "the default stays");
}
template <class K> static void growth() {
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  registered<K>(*b.m, 1, "a container registers once, for its own kind of element");
  grows(b, *b.d, "old elements keep their value and new ones read the default");
}
template <class K> struct PermCtx { Box<K>* b; Perm* q; };
template <class K> static double permSpec(void* c, size_t j) { auto* x = (PermCtx<K>*)c; return x->b->old[x->q->p[j]]; }
template <class K> static void renumbering() {
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  Perm q;
  anyPerm(q, b.n);
  PermCtx<K> x{&b, &q};
  vf_loop_prefix_reals("registerWithMesh()::{lambda(std::vector", "", permSpec<K>, &x);
  for (auto& f : K::permuteList(*b.m)) f(q.p);
  vf_assert((size_t)b.d->raw().rows() == q.p.size(), "there is one value per renumbered element");
  size_t i = anyIndex("i", q.p.size());
  if (i < q.p.size()) {
    vf_eq((*b.d).raw()[i], b.old[q.p[i]], "every element takes its value along");
    vf_reach("an element");
  }
  vf_eq(b.d->getDefault(), b.def, "the default stays");
}
template <class K> static void copies() {
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  {
    typename Box<K>::D c(*b.d);
    registered<K>(*b.m, 2, "original and copy are both registered");
    holds(b, c, "the copy equals the original");
    holds(b, *b.d, "copying leaves the original alone");
    size_t i = anyIndex("written", b.n);
    if (i < b.n) {
      c.raw()[i] = b.old[i] + 1;
      vf_eq(b(i), b.old[i], "writing to the copy leaves the original alone");
      c.raw()[i] = b.old[i];
    }
    grows(b, c, "the copy follows the mesh");
    size_t k = anyIndex("k", b.n);
    if (k < b.n) vf_eq(b(k), b.old[k], "the original follows the mesh");
  }
  registered<K>(*b.m, 1, "a destroyed copy no longer takes part");
}
template <class K> static void moves() {
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  {
    typename Box<K>::D c(std::move(*b.d));
    registered<K>(*b.m, 1, "only the target of a move takes part");
    holds(b, c, "the target has the values");
    grows(b, c, "the target follows the mesh");
    vf_assert(b.d->getMesh() == nullptr, "the source is without a mesh");
  }
  registered<K>(*b.m, 0, "a destroyed container no longer takes part");
  b.d->~MeshData();
}
template <class K> static void assigns() { // from another container, on the same or on another mesh
  Box<K> b, o;
  bool same = vf_bool("sameMesh"), mv = vf_bool("move");
  anyBox(b, K::mesh(), "value");
  anyBox(o, same ? *b.m : K::mesh(), "other");
  if (mv) *o.d = std::move(*b.d);
  else *o.d = *b.d;
  if (!same) registered<K>(*o.m, 0, "the old mesh of the target is left");
  registered<K>(*b.m, mv ? 1 : 2, mv ? "only the target takes part after a move" : "both containers take part after a copy");
  holds(b, *o.d, "the target has the values");
  if (!mv) holds(b, *b.d, "the source keeps the values");
  else vf_assert(b.d->getMesh() == nullptr, "the source is without a mesh");
  grows(b, *o.d, "the target follows the mesh");
}
template <class K> static void selfAssigns() {
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  bool mv = vf_bool("move");
  if (mv) *b.d = std::move(*b.d);
  else *b.d = *b.d;
  registered<K>(*b.m, 1, "the container is still registered once");
  holds(b, *b.d, "self-assignment changes nothing");
  grows(b, *b.d, "the container follows the mesh");
}
template <class K> static void clears() {
  Box<K> b, o;
  anyBox(b, K::mesh(), "value");
  anyBox(o, *b.m, "other");
  b.d->clear();
  vf_assert((b.d->getMesh() == nullptr) & (b.d->raw().rows() == 0) & (b.d->size() == 0), "a cleared container is empty");
  registered<K>(*b.m, 1, "a cleared container no longer takes part");
  grows(o, *o.d, "other containers still follow the mesh");
  b.d->clear();
  *b.d = *o.d;
  registered<K>(*b.m, 2, "a cleared container can be assigned to");
}
template <class K> static void survives() { // the mesh is destroyed first
  Box<K> b;
  anyBox(b, K::mesh(), "value");
  typedef typename K::M M;
  b.m->~M();
  vf_assert((b.d->getMesh() == nullptr) & (b.d->size() == 0), "a container knows that its mesh is gone");
  typename Box<K>::D c(*b.d), e;
  e = *b.d;
  e = std::move(c);
  b.d->clear();
  b.d->~MeshData();
  vf_reach("all are safe to use");
}
template <class K> static void constructs() {
  typename K::M& m = K::mesh();
  typedef typename Box<K>::D D;
  double x = vf_real("initial");
  bool def = vf_bool("plain");
  D* d = def ? new D(m) : new D(m, x);
  registered<K>(m, 1, "a new container is registered once");
  vf_eq(d->getDefault(), def ? 0 : x, "the initial value is the default");
  size_t n = d->raw().rows();
  vf_assert(n == elementCapacity<typename K::E>(static_cast<typename D::ParentMeshT*>(&m)), "a new container has a value for every slot");
  size_t i = anyIndex("i", n);
  if (i < n) {
    vf_eq(d->raw()[i], def ? 0 : x, "every slot has the initial value");
    vf_reach("a slot");
  }
}
#define ALLKINDS(F) \
  VF_CONTRACT(C05, F##_vertex) { F<KV>(); } \
  VF_CONTRACT(C05, F##_halfedge) { F<KH>(); } \
  VF_CONTRACT(C05, F##_corner) { F<KC>(); } \
  VF_CONTRACT(C05, F##_edge) { F<KE>(); } \
  VF_CONTRACT(C05, F##_face) { F<KF>(); } \
  VF_CONTRACT(C05, F##_boundaryLoop) { F<KB>(); } \
  VF_CONTRACT(C05, F##_point) { F<KP>(); }
ALLKINDS(growth)
ALLKINDS(renumbering)
ALLKINDS(copies)
ALLKINDS(moves)
ALLKINDS(assigns)
ALLKINDS(selfAssigns)
ALLKINDS(clears)
ALLKINDS(survives)
ALLKINDS(constructs)

// ---------------------------------------------------------------- storage grows with the mesh
// creating an element tells the containers of its kind about the new capacity exactly when the storage is reallocated;
// so every container keeps a slot for every element
struct Told { size_t calls = 0, size = 0; };
template <class K> static void told(AM& a, Told& t) {
  K::expandList(a.m()).push_back([&t](size_t n) { t.calls++; t.size = n; });
}
static void toldOk(const Told& t, size_t before, size_t after, const char* l) {
  vf_assert((t.calls == (before == after ? 0 : 1)) & imp(t.calls == 1, t.size == after) & (after >= before), l);
}
VF_CONTRACT(C05, newVertexTells) {
  AM& a = *anyMesh(false);
  Told v, o;
  told<KV>(a, v); told<KH>(a, o); told<KE>(a, o); told<KF>(a, o);
  size_t c = a.m().nVerticesCapacityCount;
  Vertex n = a.m().getNewVertex();
  toldOk(v, c, elementCapacity<Vertex>(a.mp), "vertex containers learn the new capacity");
  vf_assert(o.calls == 0, "other containers are left alone");
  vf_assert(dataIndexOfElement(a.mp, n) < elementCapacity<Vertex>(a.mp), "the new vertex has a slot");
}
VF_CONTRACT(C05, newEdgeTells) {
  AM& a = *anyMesh(false);
  Told h, e, o;
  told<KV>(a, o); told<KH>(a, h); told<KE>(a, e); told<KF>(a, o);
  size_t ch = a.m().nHalfedgesCapacityCount, ce = a.m().nEdgesCapacityCount;
  Halfedge n = a.m().getNewEdgeTriple(vf_bool("onBoundary"));
  toldOk(h, ch, elementCapacity<Halfedge>(a.mp), "halfedge containers learn the new capacity");
  toldOk(e, ce, elementCapacity<Edge>(a.mp), "edge containers learn the new capacity");
  vf_assert(elementCapacity<Corner>(a.mp) == elementCapacity<Halfedge>(a.mp), "corner containers have a slot per halfedge");
  vf_assert(o.calls == 0, "other containers are left alone");
  vf_assert((dataIndexOfElement(a.mp, n) < elementCapacity<Halfedge>(a.mp)) & (dataIndexOfElement(a.mp, n.twin()) < elementCapacity<Halfedge>(a.mp)) & (dataIndexOfElement(a.mp, n.edge()) < elementCapacity<Edge>(a.mp)), "the new halfedges and edge have slots");
}
static size_t growF(size_t c) { return vf_ite(c == 0, 1, 2 * c); }
static size_t loopMove(void* c, size_t i, size_t j) {
  AM& a = *(AM*)c;
  size_t N = growF(a.C);
  return vf_ite((j < N) & (j >= N - i), a.fh[j - (N - a.C)], vf_ite((j < a.C) & (j >= a.C - i), NONE, a.fh[j]));
}
static size_t faceMove(void* c, size_t i, size_t j) {
  AM& a = *(AM*)c;
  return vf_ite((j < i) & (a.nx[j] != NONE) & (a.fa[j] >= a.F), a.fa[j] + (growF(a.C) - a.C), a.fa[j]);
}
template <class F> static void newFaceTells(F create) {
  AM& a = *anyMesh(false);
  Told f, o;
  told<KV>(a, o); told<KH>(a, o); told<KE>(a, o); told<KF>(a, f);
  vf_loop_array("expandFaceStorage", "fhe", loopMove, &a);
  vf_loop_array("expandFaceStorage", "face", faceMove, &a);
  create(a.m());
  vf_assert((f.calls == (a.m().nFacesCapacityCount == a.C ? 0 : 1)) & imp(f.calls == 1, f.size == a.m().nFacesCapacityCount), "face and boundary loop containers learn the new capacity");
  vf_assert(o.calls == 0, "other containers are left alone");
  // what they are told covers every slot that can be used before the next growth
  vf_assert((elementCapacity<Face>(a.mp) <= a.m().nFacesCapacityCount) & (elementCapacity<BoundaryLoop>(a.mp) <= a.m().nFacesCapacityCount), "the shared storage covers both kinds");
  vf_assert((a.m().nFacesFillCount <= elementCapacity<Face>(a.mp)) & (a.m().nBoundaryLoopsFillCount <= elementCapacity<BoundaryLoop>(a.mp)), "every face and boundary loop in use has a slot");
}
VF_CONTRACT(C05, newFaceTells) { newFaceTells([](ManifoldSurfaceMesh& m) { m.getNewFace(); }); }
VF_CONTRACT(C05, newBoundaryLoopTells) { newFaceTells([](ManifoldSurfaceMesh& m) { m.getNewBoundaryLoop(); }); }
VF_CONTRACT(C05, newPointTells) {
  PointCloud& c = OnCloud::mesh();
  Told p;
  c.pointExpandCallbackList.push_back([&p](size_t n) { p.calls++; p.size = n; });
  size_t k = c.nPointsCapacityCount;
  vf_loop("getNewPoint");
  Point n = c.getNewPoint();
  toldOk(p, k, elementCapacity<Point>(&c), "point containers learn the new capacity");
  vf_assert(dataIndexOfElement(&c, n) < elementCapacity<Point>(&c), "the new point has a slot");
}
// ---------------------------------------------------------------- access to all elements
struct Each { // the values of all elements of a mesh
  AM* a;
  Box<KV>* b;
  std::vector<size_t> rk, se; // number of live elements before each slot, and its inverse
  size_t k;                   // an arbitrary slot
  double val;
  const Eigen::Matrix<double, Eigen::Dynamic, 1>* vec;
};
static bool vLive(AM& a, size_t v) { return a.vh[v] != NONE; }
static bool passes(void* c, size_t v, size_t entry) { // the range does not pass over live elements
  Each& e = *(Each*)c;
  return imp((e.k >= entry) & (e.k < v), !vLive(*e.a, e.k));
}
static bool inV(void* c, size_t v, size_t) { Each& e = *(Each*)c; return v <= e.a->V; }
static bool rankSame(void* c, size_t v, size_t entry) { Each& e = *(Each*)c; return imp((v <= e.a->V) & (entry <= e.a->V), e.rk[v] == e.rk[entry]); }
static bool filled(void* c, size_t v, size_t) { Each& e = *(Each*)c; return (*e.b)(e.k) == (((e.k < v) & vLive(*e.a, e.k)) ? e.val : e.b->old[e.k]); }
static bool nextLive(void* c, size_t v, size_t) { Each& e = *(Each*)c; return (v == e.a->V) | ((v < e.a->V) & vLive(*e.a, v)); }
static bool taken(void* c, size_t v, size_t) { Each& e = *(Each*)c; return (*e.b)(e.k) == (((e.k < v) & vLive(*e.a, e.k)) ? (*e.vec)[(long)e.rk[e.k]] : e.b->old[e.k]); }
static bool inRank(void* c, size_t v, size_t, size_t iter) { Each& e = *(Each*)c; return (v <= e.a->V) & (e.rk[v] == iter); }
static double listed(void* c, size_t j) { Each& e = *(Each*)c; return e.b->old[e.se[j]]; }
#ifdef VF_NATIVE
static void each(Each& e) {
  e.a = anyMesh();
  e.b = new Box<KV>();
  anyBox(*e.b, e.a->m(), "value");
  size_t n = 0;
  for (size_t v = 0; v < e.a->V; v++) {
    e.rk.push_back(n);
    if (vLive(*e.a, v)) { e.se.push_back(v); n++; }
  }
  e.rk.push_back(n);
}
#else
static bool rankAx(void* c, size_t v) {
  Each& e = *(Each*)c;
  bool in = v < e.a->V, lv = vLive(*e.a, v);
  return imp(in, e.rk[v + 1] == e.rk[v] + vf_ite(lv, 1, 0)) & imp(v <= e.a->V, e.rk[v] <= e.a->nV) & imp(in & lv, (e.rk[v] < e.a->nV) & (e.se[e.rk[v]] == v)) & imp(v == 0, e.rk[v] == 0) & imp(v == e.a->V, e.rk[v] == e.a->nV);
}
static void each(Each& e) {
  e.a = anyMesh();
  e.b = new Box<KV>();
  anyBox(*e.b, e.a->m(), "value");
  vf_assume(e.b->n == e.a->m().nVerticesCapacityCount);
  vf_sym_sizes(&e.rk, "rank", e.a->V + 1);
  vf_sym_sizes(&e.se, "select", e.a->nV);
  vf_forall("rank,vhe", rankAx, &e); // counts of live elements (definition)
  vf_instantiate("rank", 0);
  vf_instantiate("rank", e.a->V);
}
#endif
VF_CONTRACT(C05, fill) {
  Each e;
  each(e);
  e.k = anyIndex("k", e.b->n);
  vf_assume(e.k < e.b->n);
  e.val = vf_real("filled");
  vf_loop_keep("RangeIteratorBase", passes, &e);
  vf_loop_keep("RangeIteratorBase", nextLive, &e);
  vf_loop_keep("MeshData<geometrycentral::surface::Vertex, double>::fill", nextLive, &e);
  vf_loop_keep("MeshData<geometrycentral::surface::Vertex, double>::fill", filled, &e);
  e.b->d->fill(e.val);
  if (e.k < e.a->V && vLive(*e.a, e.k)) { vf_eq((*e.b)(e.k), e.val, "every element has the value"); vf_reach("an element"); }
  vf_eq(e.b->d->getDefault(), e.b->def, "the default stays");
}
VF_CONTRACT(C05, toVector) {
  Each e;
  each(e);
  vf_loop_keep("RangeIteratorBase", inV, &e);
  vf_loop_keep("RangeIteratorBase", rankSame, &e);
  vf_loop_keep("RangeIteratorBase", nextLive, &e);
  vf_loop_keep("::toVector", nextLive, &e);
  vf_loop_step("::toVector", inRank, &e);
  vf_loop_prefix_reals("::toVector", "", listed, &e);
  auto v = e.b->d->toVector();
  vf_assert((size_t)v.rows() == e.a->nV, "one entry per element");
  size_t k = anyVertex(*e.a);
  vf_instantiate("rank", k);
  vf_eq(v[(long)e.rk[k]], e.b->old[k], "the entries are the values in element order");
  vf_reach("an element");
}
VF_CONTRACT(C05, fromVector) {
  Each e;
  each(e);
  e.k = anyIndex("k", e.b->n);
  vf_assume(e.k < e.b->n);
  Box<KV> src;
  anyBox(src, e.a->m(), "source");
#ifdef VF_NATIVE
  src.d->data.conservativeResize(e.a->nV);
#else
  vf_assume(src.n == e.a->nV);
#endif
  e.vec = &src.d->raw();
  vf_loop_keep("RangeIteratorBase", passes, &e);
  vf_loop_keep("RangeIteratorBase", inV, &e);
  vf_loop_keep("RangeIteratorBase", rankSame, &e);
  vf_loop_keep("RangeIteratorBase", nextLive, &e);
  vf_loop_keep("::fromVector", nextLive, &e);
  vf_loop_step("::fromVector", inRank, &e);
  vf_loop_keep("::fromVector", taken, &e);
  vf_instantiate("rank", e.k);
  e.b->d->fromVector(*e.vec);
  if (e.k < e.a->V && vLive(*e.a, e.k)) { vf_eq((*e.b)(e.k), (*e.vec)[(long)e.rk[e.k]], "every element takes its entry"); vf_reach("an element"); }
}
VF_CONTRACT(C05, fromVectorSize) { // a vector of another size is refused
  Each e;
  each(e);
  Box<KV> src;
  anyBox(src, e.a->m(), "source");
  vf_assume(src.n != e.a->nV);
  bool threw = false;
  try {
    e.b->d->fromVector(src.d->raw());
  } catch (...) {
    threw = true;
  }
  vf_assert(threw, "a vector of another size is refused");
  size_t k = anyIndex("k", e.b->n);
  if (k < e.b->n) vf_eq((*e.b)(k), e.b->old[k], "nothing is written");
}
static bool passedTop(void* c, size_t v, size_t top) { Each& e = *(Each*)c; return imp((e.k < v) & (e.k < e.a->V) & vLive(*e.a, e.k < e.a->V ? e.k : 0), top > e.k); }
static bool topIsVertex(void* c, size_t, size_t top) { Each& e = *(Each*)c; return top <= e.a->V; }
static bool elemKept(void* c, size_t i, size_t entry) {
  Each& e = *(Each*)c;
  double x = (*e.b)(e.k);
  return ((e.k >= entry) & (e.k < i)) ? x == e.val : x == e.b->old[e.k];
}
VF_CONTRACT(C05, setDefault) {
  Each e;
  each(e);
  e.val = vf_real("newDefault");
  e.k = anyIndex("k", e.b->n);
  vf_assume(e.k < e.b->n);
  bool elem = (e.k < e.a->V) & vLive(*e.a, e.k < e.a->V ? e.k : 0);
  vf_loop_keep("RangeIteratorBase", passes, &e);
  vf_loop_keep("RangeIteratorBase", nextLive, &e);
  vf_loop_keep("::setDefault", nextLive, &e);
  vf_loop_keep("::setDefault", inV, &e);
  vf_loop_pair("::setDefault", passedTop, &e);
  vf_loop_pair("::setDefault", topIsVertex, &e);
  vf_loop_keep("::setDefault", elemKept, &e);
  e.b->d->setDefault(e.val);
  vf_eq(e.b->d->getDefault(), e.val, "the new default");
  if (elem) { vf_eq((*e.b)(e.k), e.b->old[e.k], "every element keeps its value"); vf_reach("an element"); }
  if (e.k >= e.a->V) { vf_eq((*e.b)(e.k), e.val, "slots not in use yet take the new default"); vf_reach("a spare slot"); }
}
#ifdef VF_NATIVE
namespace {
// ---- a random history of containers over one kind of element, compared after each step with a table of values
template <class E> std::vector<size_t> live(SurfaceMesh& m);
template <> std::vector<size_t> live<Vertex>(SurfaceMesh& m) { return zoo::liveVerts(m); }
template <> std::vector<size_t> live<Halfedge>(SurfaceMesh& m) { return zoo::liveHes(m); }
template <> std::vector<size_t> live<Edge>(SurfaceMesh& m) { return zoo::liveEdges(m); }
template <> std::vector<size_t> live<Face>(SurfaceMesh& m) { return zoo::liveFaces(m); }
template <> std::vector<size_t> live<Corner>(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t h : zoo::liveHes(m)) if (m.heFaceArr[h] < m.nFacesFillCount) r.push_back(h);
  return r;
}
template <> std::vector<size_t> live<BoundaryLoop>(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t b = 0; b < m.nBoundaryLoopsFillCount; b++) if (m.fHalfedgeArr[m.nFacesCapacityCount - 1 - b] != zoo::INV) r.push_back(b);
  return r;
}
template <class E> std::vector<size_t> live(PointCloud& c) {
  std::vector<size_t> r;
  for (size_t i = 0; i < c.nPointsFillCount; i++) if (c.pointValid[i]) r.push_back(i);
  return r;
}
std::unique_ptr<ManifoldSurfaceMesh> makeM(ManifoldSurfaceMesh*) { return zoo::baseMesh(); }
std::unique_ptr<PointCloud> makeM(PointCloud*) { return std::unique_ptr<PointCloud>(new PointCloud(vf_size("points", 0, 5))); }
void editM(ManifoldSurfaceMesh& m) { zoo::runOp(m, (int)vf_size("op", 0, zoo::NOPS - 1), 0); vf_assume(zoo::problem(m).empty()); }
void editM(PointCloud& c) {
  auto l = live<Point>(c);
  if (vf_bool("create") || l.empty()) { c.getNewPoint(); return; }
  size_t i = zoo::pick("del", l);
  c.deleteElement(Point(&c, i));
}
template <class E, class M> struct Machine {
  typedef MeshData<E, double> D;
  std::unique_ptr<M> m[2];
  struct Slot {
    std::unique_ptr<D> d;
    int mesh = -1; // -1: not associated with a mesh
    double def = 0;
    std::map<size_t, double> val;
  };
  std::vector<Slot> s;
  double fresh = 1;
  std::vector<size_t> lv(int k) { return live<E>(*m[k]); }
  void check(const char* l) {
    for (auto& x : s) {
      if (!x.d) continue;
      if (x.mesh < 0) { vf_assert(x.d->getMesh() == nullptr && x.d->size() == 0, l); continue; }
      vf_assert((void*)x.d->getMesh() == (void*)static_cast<typename D::ParentMeshT*>(m[x.mesh].get()), "a container keeps its mesh");
      vf_assert(x.d->getDefault() == x.def, "a container keeps its default value");
      auto L = lv(x.mesh);
      bool ok = true;
      for (size_t e : L) ok = ok && (size_t)x.d->raw().rows() > e && (*x.d)[e] == x.val[e] && (*x.d)[E((typename D::ParentMeshT*)x.d->getMesh(), e)] == x.val[e];
      vf_assert(ok, l);
      vf_assert(L.empty() || x.d->size() > L.back(), "there is a slot for every element");
    }
  }
  Slot fill(int k, double def) {
    Slot x;
    x.mesh = k; x.def = def;
    for (size_t e : lv(k)) x.val[e] = def;
    return x;
  }
  void scribble(Slot& x) {
    if (x.mesh < 0) return;
    auto L = lv(x.mesh);
    if (L.empty()) return;
    for (int i = 0; i < 3; i++) {
      size_t e = zoo::pick("write", L);
      x.val[e] = fresh += 1;
      if (vf_bool("byIndex")) (*x.d)[e] = fresh;
      else (*x.d)[E((typename D::ParentMeshT*)x.d->getMesh(), e)] = fresh;
    }
  }
  template <class F> void meshStep(int k, bool renumber, F f) {
    auto A = lv(k);
    f();
    auto B = lv(k);
    for (auto& x : s) {
      if (x.mesh != k) continue;
      std::map<size_t, double> v;
      if (renumber) {
        vf_assert(A.size() == B.size(), "renumbering keeps the elements");
        for (size_t i = 0; i < A.size(); i++) v[B[i]] = x.val[A[i]];
      } else
        for (size_t e : B) v[e] = x.val.count(e) ? x.val[e] : x.def;
      x.val = v;
    }
  }
  void run(size_t steps) {
    m[0] = makeM((M*)nullptr);
    m[1] = makeM((M*)nullptr);
    s.resize(4);
    for (size_t i = 0; i < steps; i++) {
      size_t op = vf_size("step", 0, 15);
      Slot& x = s[vf_size("slot", 0, 3)];
      Slot& y = s[vf_size("other", 0, 3)];
      int k = (int)vf_size("whichMesh", 0, 1);
      switch (op) {
      case 0: x = Slot(); break; // destroy
      case 1: { Slot z = fill(k, 0); z.d.reset(new D(*m[k])); x = std::move(z); break; }
      case 2: { double v = fresh += 1; Slot z = fill(k, v); z.d.reset(new D(*m[k], v)); x = std::move(z); break; }
      case 3: // copy construction
        if (y.d && &x != &y) { Slot z; z.d.reset(new D(*y.d)); z.mesh = y.mesh; z.def = y.def; z.val = y.val; x = std::move(z); }
        break;
      case 4: // move construction; the source is then only destroyed or assigned to
        if (y.d && &x != &y) { Slot z; z.d.reset(new D(std::move(*y.d))); z.mesh = y.mesh; z.def = y.def; z.val = y.val; x = std::move(z); moved(y); }
        break;
      case 5: // copy assignment
        if (y.d && x.d) { *x.d = *y.d; x.mesh = y.mesh; x.def = y.def; x.val = y.val; }
        break;
      case 6: // move assignment
        if (y.d && x.d) { *x.d = std::move(*y.d); if (&x != &y) { x.mesh = y.mesh; x.def = y.def; x.val = y.val; moved(y); } }
        break;
      case 7: if (x.d) { x.d->clear(); x.mesh = -1; x.def = 0; x.val.clear(); } break;
      case 8: if (x.d && x.mesh >= 0) { double v = fresh += 1; x.d->fill(v); for (auto& p : x.val) p.second = v; } break;
      case 9: if (x.d && x.mesh >= 0) { double v = fresh += 1; x.d->setDefault(v); x.def = v; } break;
      case 10: if (x.d && x.mesh >= 0) { // through a vector
          auto v = x.d->toVector();
          auto L = lv(x.mesh);
          bool ok = (size_t)v.rows() == L.size();
          for (size_t j = 0; j < L.size() && ok; j++) ok = v(j) == x.val[L[j]];
          vf_assert(ok, "toVector lists the values in element order");
          for (size_t j = 0; j < L.size(); j++) v(j) = x.val[L[j]] = fresh += 1;
          x.d->fromVector(v);
        }
        break;
      case 11: case 12: case 13: meshStep(k, false, [&] { editM(*m[k]); }); break;
      case 14: meshStep(k, true, [&] { m[k]->compress(); }); break;
      case 15: scribble(x); break;
      }
      check("every container holds the value of every live element");
    }
    size_t first = vf_size("meshesFirst", 0, 2); // destroy the meshes before, between or after the containers
    if (first > 0) m[0].reset();
    if (first > 1) m[1].reset();
    for (auto& x : s)
      if (x.d && x.mesh >= 0 && !m[x.mesh]) {
        vf_assert(x.d->getMesh() == nullptr && x.d->size() == 0, "a container knows that its mesh is gone");
        D copy(*x.d), other;
        other = *x.d;
        x.d->clear();
      }
    s.clear();
  }
  // a moved-from container no longer takes part: it may be destroyed, cleared or assigned to
  void moved(Slot& y) {
    y.mesh = -2;
    y.val.clear();
    if (vf_bool("destroyMoved")) y = Slot();
    else if (vf_bool("clearMoved")) { y.d->clear(); y.mesh = -1; y.def = 0; }
    else parked.push_back(std::move(y.d)), y = Slot();
  }
  std::vector<std::unique_ptr<D>> parked;
};
} // namespace
VF_BOUNDED(C05, vertex) { Machine<Vertex, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, halfedge) { Machine<Halfedge, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, edge) { Machine<Edge, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, face) { Machine<Face, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, corner) { Machine<Corner, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, boundaryLoop) { Machine<BoundaryLoop, ManifoldSurfaceMesh>().run(14); }
VF_BOUNDED(C05, point) { Machine<Point, PointCloud>().run(20); }
#endif
