// An arbitrary valid manifold mesh.  For the verifier its connectivity arrays are unconstrained except for the
// representation invariant (C01), stated as quantified axioms over the initial arrays; no size is bounded.  Natively it is
// a zoo mesh after a random history of edits.
#pragma once
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "vf.h"
#ifdef VF_NATIVE
#include "meshops.h"
#endif
namespace sm {
using namespace geometrycentral;
using namespace geometrycentral::surface;
const size_t NONE = INVALID_IND;
inline bool imp(bool a, bool b) { return !a | b; }

// the value paired with the first key equal to x, else d
template <size_t N> inline size_t sel(size_t x, const size_t (&k)[N], const size_t (&v)[N], size_t d) {
  for (size_t i = N; i-- > 0;) d = vf_ite(x == k[i], v[i], d);
  return d;
}
struct AM {
  ManifoldSurfaceMesh* mp = nullptr;
  // initial arrays
  std::vector<size_t> nx, ve, fa, vh, fh;
  // ghost arrays: predecessor in the face cycle; a rank that decreases along each face cycle down to the stored halfedge
  // of the face; the same around each vertex
  std::vector<size_t> pv, rf, rv;
  size_t H, V, F, C, B, E; // halfedge, vertex, face fill counts; face capacity; loops fill; edges fill
  size_t nH, nV, nF, nE, nB, nI; // counts
  size_t tick;
  ManifoldSurfaceMesh& m() { return *mp; }

  // use the cycle ranks of these halfedges in the proof
  template <size_t N> void ranks(const size_t (&k)[N]) {
    for (size_t i = 0; i < N; i++) {
      vf_instantiate("rankF", k[i]);
      vf_instantiate("rankV", k[i]);
    }
  }
  size_t tw(size_t h) { return h ^ 1; }
  bool liveS(size_t h) { return nx[h] != NONE; }
  bool extS(size_t h) { return fa[h] >= F; }
  bool faceOk(size_t f) { return (f < F) | ((f < C) & (f >= C - B)); }
};
inline bool axH(void* c, size_t h) { // every live halfedge
  AM& a = *(AM*)c;
  size_t n = a.nx[h], t = h ^ 1, p = a.pv[h];
  bool lv = (h < a.H) & (n != NONE);
  return imp(lv, (n < a.H) & (n != h) & (a.nx[n] != NONE) & (a.nx[t] != NONE) & (t < a.H)) & imp(lv, (a.pv[n] == h) & (p < a.H) & (a.nx[p] == h)) & imp((h < a.H) & !lv, a.nx[t] == NONE);
}
inline bool axV(void* c, size_t h) { // tail and tip
  AM& a = *(AM*)c;
  size_t n = a.nx[h], t = h ^ 1, p = a.pv[h];
  bool lv = (h < a.H) & (n != NONE);
  return imp(lv, (a.ve[h] < a.V) & (a.vh[a.ve[h]] != NONE) & (a.ve[n] == a.ve[t]) & (a.ve[h] == a.ve[p ^ 1]));
}
inline bool axF(void* c, size_t h) { // face
  AM& a = *(AM*)c;
  size_t n = a.nx[h], t = h ^ 1, p = a.pv[h];
  bool lv = (h < a.H) & (n != NONE);
  return imp(lv, a.faceOk(a.fa[h]) & (a.fh[a.fa[h]] != NONE) & (a.fa[n] == a.fa[h]) & (a.fa[p] == a.fa[h]) & ((a.fa[h] < a.F) | (a.fa[t] < a.F)) & imp(h % 2 == 0, a.fa[h] < a.F));
}
inline bool axRF(void* c, size_t h) { // the face is one cycle
  AM& a = *(AM*)c;
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv, (h == a.fh[a.fa[h]]) | (a.rf[a.nx[h]] < a.rf[h])) & imp(lv, a.rf[h] < (1ul << 60));
}
inline bool axRV(void* c, size_t h) { // the halfedges of a vertex are one cycle
  AM& a = *(AM*)c;
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv, (h == a.vh[a.ve[h]]) | (a.rv[a.nx[h ^ 1]] < a.rv[h])) & imp(lv, a.rv[h] < (1ul << 60));
}
inline bool axB(void* c, size_t h) { // a boundary vertex stores the first halfedge of its interior fan
  AM& a = *(AM*)c;
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv & (a.fa[h] >= a.F), a.fa[a.vh[a.ve[h]] ^ 1] >= a.F);
}
inline bool axVh(void* c, size_t v) {
  AM& a = *(AM*)c;
  size_t h = a.vh[v];
  return imp((v < a.V) & (h != NONE), (h < a.H) & (a.nx[h] != NONE) & (a.ve[h] == v));
}
inline bool axFh(void* c, size_t f) {
  AM& a = *(AM*)c;
  size_t h = a.fh[f];
  return imp(a.faceOk(f) & (h != NONE), (h < a.H) & (a.nx[h] != NONE) & (a.fa[h] == f));
}

// an arbitrary index, to be compared against n
inline size_t anyIndex(const char* name, size_t n) {
#ifdef VF_NATIVE
  return vf_size(name, 0, n);
#else
  return vf_size(name, 0, 1ul << 42);
#endif
}
#ifdef VF_NATIVE
inline void record(AM* a) {
  ManifoldSurfaceMesh& m = *a->mp;
  a->nx = m.heNextArr; a->ve = m.heVertexArr; a->fa = m.heFaceArr; a->vh = m.vHalfedgeArr; a->fh = m.fHalfedgeArr;
  a->H = m.nHalfedgesFillCount; a->V = m.nVerticesFillCount; a->F = m.nFacesFillCount; a->C = m.nFacesCapacityCount;
  a->B = m.nBoundaryLoopsFillCount; a->E = m.nEdgesFillCount;
  a->nH = m.nHalfedgesCount; a->nV = m.nVerticesCount; a->nF = m.nFacesCount; a->nE = m.nEdgesCount; a->nB = m.nBoundaryLoopsCount;
  a->nI = m.nInteriorHalfedgesCount; a->tick = m.modificationTick;
  a->pv.assign(a->nx.size(), NONE); a->rf.assign(a->nx.size(), 0); a->rv.assign(a->nx.size(), 0);
  for (size_t h = 0; h < a->H; h++) if (a->nx[h] != NONE) a->pv[a->nx[h]] = h;
}
inline AM* anyMesh(bool = true, bool simplicial = false) {
  AM* a = new AM();
  a->mp = zoo::baseMesh().release();
  zoo::history(*a->mp, 3);
  if (simplicial) vf_assume(zoo::simplicial(*a->mp));
  record(a);
  return a;
}
inline AM* anyTriMesh() {
  AM* a = new AM();
  a->mp = zoo::baseMesh().release();
  if (vf_bool("edited")) zoo::history(*a->mp, 2);
  for (size_t f : zoo::liveFaces(*a->mp)) {
    size_t d = a->mp->face(f).degree();
    vf_assume(d >= 3);
    if (d > 3) a->mp->triangulate(a->mp->face(f));
  }
  record(a);
  return a;
}
inline size_t anyEdge(AM& a, const char* n = "e") { return zoo::pick(n, zoo::liveEdges(a.m())); }
inline size_t anyHe(AM& a, const char* n = "h") { return zoo::pick(n, zoo::liveHes(a.m())); }
inline size_t anyFace(AM& a, const char* n = "f") { return zoo::pick(n, zoo::liveFaces(a.m())); }
inline size_t anyVertex(AM& a, const char* n = "v") { return zoo::pick(n, zoo::liveVerts(a.m())); }
#else
// valid = false: only the array sizes and counters are constrained, not the contents
inline AM* anyMesh(bool valid = true) {
  AM* ap = new AM();
  AM& a = *ap;
  a.mp = new ManifoldSurfaceMesh();
  ManifoldSurfaceMesh& m = *a.mp;
  const size_t BIG = 1ul << 40;
  a.E = vf_size("E", 0, BIG);
  a.H = 2 * a.E;
  a.V = vf_size("V", 0, BIG);
  a.F = vf_size("F", 0, BIG);
  a.B = vf_size("B", 0, BIG);
  size_t CE = vf_size("edgeCapacity", 0, BIG), CV = vf_size("vertexCapacity", 0, BIG);
  a.C = vf_size("faceCapacity", 0, BIG);
  vf_assume((a.E <= CE) & (a.V <= CV) & (a.F + a.B <= a.C));
  size_t L = vf_size("halfedgeArraySize", 0, 4 * BIG); // constructors leave up to twice the needed storage
  vf_assume((L >= 2 * CE) & (L <= 4 * CE));
  vf_sym_sizes(&m.heNextArr, "next", L);
  vf_sym_sizes(&m.heVertexArr, "vert", L);
  vf_sym_sizes(&m.heFaceArr, "face", L);
  vf_sym_sizes(&m.vHalfedgeArr, "vhe", CV);
  vf_sym_sizes(&m.fHalfedgeArr, "fhe", a.C);
  vf_sym_sizes(&a.pv, "prev", L);
  vf_sym_sizes(&a.rf, "rankF", L);
  vf_sym_sizes(&a.rv, "rankV", L);
  vf_old_sizes(&a.nx, "next");
  vf_old_sizes(&a.ve, "vert");
  vf_old_sizes(&a.fa, "face");
  vf_old_sizes(&a.vh, "vhe");
  vf_old_sizes(&a.fh, "fhe");
  if (valid) {
  vf_forall("next,prev", axH, &a);
  vf_forall("next,vert", axV, &a);
  vf_forall("next,face", axF, &a);
  vf_forall("rankF", axRF, &a);
  vf_forall("rankV", axRV, &a);
  vf_forall("next,face", axB, &a);
  vf_forall("vhe", axVh, &a);
  vf_forall("fhe", axFh, &a);
  }
  m.nHalfedgesFillCount = a.H; m.nEdgesFillCount = a.E; m.nVerticesFillCount = a.V; m.nFacesFillCount = a.F; m.nBoundaryLoopsFillCount = a.B;
  m.nHalfedgesCapacityCount = 2 * CE; m.nEdgesCapacityCount = CE; m.nVerticesCapacityCount = CV; m.nFacesCapacityCount = a.C;
  a.nE = vf_size("nE", 0, BIG); a.nH = 2 * a.nE; a.nV = vf_size("nV", 0, BIG); a.nF = vf_size("nF", 0, BIG); a.nB = vf_size("nB", 0, BIG);
  a.nI = vf_size("nI", 0, 2 * BIG);
  vf_assume((a.nE <= a.E) & (a.nV <= a.V) & (a.nF <= a.F) & (a.nB <= a.B) & (a.nI <= a.nH));
  m.nHalfedgesCount = a.nH; m.nEdgesCount = a.nE; m.nVerticesCount = a.nV; m.nFacesCount = a.nF; m.nBoundaryLoopsCount = a.nB;
  m.nInteriorHalfedgesCount = a.nI;
  a.tick = vf_size("tick", 0, BIG);
  m.modificationTick = a.tick;
  m.isCompressedFlag = vf_bool("compressed");
  return ap;
}
inline bool axTri(void* c, size_t h) {
  AM& a = *(AM*)c;
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv & (a.fa[h] < a.F), a.nx[a.nx[a.nx[h]]] == h);
}
inline AM* anyTriMesh() {
  AM* a = anyMesh();
  vf_forall("next,face", axTri, a);
  return a;
}
inline size_t anyEdge(AM& a, const char* n = "e") {
  size_t e = vf_size(n, 0, 1ul << 40);
  vf_assume(e < a.E);
  vf_assume(a.nx[2 * e] != NONE);
  return e;
}
inline size_t anyHe(AM& a, const char* n = "h") {
  size_t e = vf_size(n, 0, 1ul << 41);
  vf_assume(e < a.H);
  vf_assume(a.nx[e] != NONE);
  return e;
}
inline size_t anyFace(AM& a, const char* n = "f") {
  size_t f = vf_size(n, 0, 1ul << 40);
  vf_assume(f < a.F);
  vf_assume(a.fh[f] != NONE);
  return f;
}
inline size_t anyVertex(AM& a, const char* n = "v") {
  size_t v = vf_size(n, 0, 1ul << 40);
  vf_assume(v < a.V);
  vf_assume(a.vh[v] != NONE);
  return v;
}
#endif

// requires pred for every index below n
inline void all(const char* arrays, bool (*pred)(void*, size_t), void* ctx, size_t n) {
#ifdef VF_NATIVE
  for (size_t i = 0; i < n; i++) vf_assume(pred(ctx, i));
#else
  vf_forall(arrays, pred, ctx);
#endif
}
// arbitrary per-element data
#ifdef VF_NATIVE
template <class E> MeshData<E, double>& anyData(AM& a, const char* n, size_t) {
  auto* d = new MeshData<E, double>(a.m());
  for (Eigen::Index i = 0; i < d->raw().rows(); i++) d->raw()[i] = vf_real(n);
  return *d;
}
#else
template <class E> MeshData<E, double>& anyData(AM& a, const char* n, size_t size) {
  auto* s = new std::vector<double>();
  vf_sym_reals(s, n, size);
  auto* d = (MeshData<E, double>*)malloc(sizeof(MeshData<E, double>));
  d->mesh = &a.m();
  d->data.m_storage.m_data = s->data();
  d->data.m_storage.m_rows = (long)size;
  return *d;
}
#endif
} // namespace sm
