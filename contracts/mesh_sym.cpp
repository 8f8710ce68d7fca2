// Contracts of the local edits of a manifold mesh, for every valid mesh (see symmesh.h).
#include "symmesh.h"
using namespace sm;

enum { HALFEDGES, VERTICES, FACES };
#ifdef VF_NATIVE
template <class W> void validAfter(AM& a, W, int) { vf_assert(zoo::problem(a.m()).empty(), zoo::problem(a.m()).c_str()); }
#else
// The representation invariant after the edit, at an arbitrary halfedge, vertex and face.  w supplies the ghost state
// of the new mesh: predecessor, face rank, vertex rank.
template <class W> void validAfter(AM& a, W w, int part) {
  ManifoldSurfaceMesh& m = a.m();
  size_t H = m.nHalfedgesFillCount, V = m.nVerticesFillCount, F = m.nFacesFillCount, C = m.nFacesCapacityCount, B = m.nBoundaryLoopsFillCount;
  auto& nx = m.heNextArr;
  auto& ve = m.heVertexArr;
  auto& fa = m.heFaceArr;
  auto faceOk = [&](size_t f) { return (f < F) | ((f < C) & (f >= C - B)); };
  vf_assert((H % 2 == 0) & (2 * m.nEdgesFillCount == H), "halfedges come in pairs");
  vf_assert((H <= nx.size()) & (V <= m.vHalfedgeArr.size()) & (F + B <= C) & (C == m.fHalfedgeArr.size()), "the arrays cover the used indices");
  if (part == HALFEDGES) {
    size_t x = vf_size("x", 0, 1ul << 42);
    vf_assume(x < H);
    size_t n = nx[x];
    if (n == NONE) {
      vf_assert(nx[x ^ 1] == NONE, "twins are live together");
      return;
    }
    vf_assert(nx[x ^ 1] != NONE, "twins are live together");
    vf_assert(n < H, "the successor is a live halfedge");
    vf_assert(n != x, "a face or boundary loop has at least two sides");
    vf_assert(nx[n] != NONE, "the successor is a live halfedge");
    vf_assert(w.pv(n) == x, "successor is injective");
    size_t v = ve[x];
    vf_assert(v < V, "the tail is a live vertex");
    size_t r = m.vHalfedgeArr[v];
    vf_assert(r != NONE, "the tail is a live vertex");
    vf_assert(ve[n] == ve[x ^ 1], "tail of the successor is the tip");
    size_t f = fa[x];
    vf_assert(faceOk(f), "the face is a live face or boundary loop");
    size_t s = m.fHalfedgeArr[f];
    vf_assert(s != NONE, "the face is a live face or boundary loop");
    vf_assert(fa[n] == f, "successor stays in the face");
    size_t ft = fa[x ^ 1];
    vf_assert((f < F) | (ft < F), "an edge has an interior side");
    vf_assert(imp(x % 2 == 0, f < F), "an edge stores an interior halfedge");
    vf_assert((x == s) | (w.rf(n) < w.rf(x)), "a face or boundary loop is one cycle");
    size_t o = nx[x ^ 1];
    vf_assert((x == r) | (w.rv(o) < w.rv(x)), "the halfedges of a vertex are one cycle");
    vf_assert((f < F) | (fa[r ^ 1] >= F), "a boundary vertex stores the first halfedge of its interior fan");
  }
  if (part == VERTICES) {
    size_t v = vf_size("v", 0, 1ul << 42);
    vf_assume(v < V);
    size_t r = m.vHalfedgeArr[v];
    vf_assume(r != NONE);
    vf_assert(r < H, "a vertex stores a live halfedge of its own");
    vf_assert(nx[r] != NONE, "a vertex stores a live halfedge of its own");
    vf_assert(ve[r] == v, "a vertex stores a live halfedge of its own");
  }
  if (part == FACES) {
    size_t f = vf_size("f", 0, 1ul << 42);
    vf_assume(faceOk(f));
    size_t s = m.fHalfedgeArr[f];
    vf_assume(s != NONE);
    vf_assert(s < H, "a face stores a live halfedge of its own");
    vf_assert(nx[s] != NONE, "a face stores a live halfedge of its own");
    vf_assert(fa[s] == f, "a face stores a live halfedge of its own");
  }
  vf_reach("after the edit");
}
#endif

// ------------------------------------------------------------------------------------------------ flip
struct FlipW {
  AM& a;
  size_t h, t, h2, h3, t2, t3;
  FlipW(AM& a_, size_t e) : a(a_), h(2 * e), t(2 * e + 1), h2(a.nx[h]), h3(a.nx[h2]), t2(a.nx[t]), t3(a.nx[t2]) { a.ranks({h, h2, h3, t, t2, t3}); }
  bool legal() { return (a.fa[t] < a.F) & (a.nx[h3] == h) & (a.nx[t3] == t) & (h2 != t) & (t2 != h); }
  size_t pv(size_t x) { return sel(x, {t3, h2, h, h3, t2, t}, {h, t3, h2, t, h3, t2}, a.pv[x]); }
  size_t pos(size_t x) { return sel(x, {t3, h3, h2, t2}, {1, 1, 2, 2}, 0); } // place after the edge in its new face
  size_t rf(size_t x) {
    bool in = (x == h) | (x == t3) | (x == h2) | (x == t) | (x == h3) | (x == t2);
    size_t f = a.m().heFaceArr[x];
    size_t p = pos(a.m().fHalfedgeArr[f]), q = pos(x);
    return vf_ite(in, vf_ite(p >= q, p - q, p + 3 - q), a.rf[x]);
  }
  size_t rv(size_t x) {
    size_t v = a.m().heVertexArr[x];
    return vf_ite(x == a.m().vHalfedgeArr[v], 0, sel(x, {h, t}, {4 * a.rv[h3] + 5, 4 * a.rv[t3] + 5}, 4 * a.rv[x] + 4));
  }
};
static void flipValid(int part) {
  AM& a = *anyMesh();
  size_t e = anyEdge(a);
  FlipW w(a, e);
  vf_assume(w.legal());
  vf_assume(a.m().flip(a.m().edge(e), false));
  validAfter(a, w, part);
}
VF_CONTRACT(C01, flip_halfedges) { flipValid(HALFEDGES); }
VF_CONTRACT(C01, flip_vertices) { flipValid(VERTICES); }
VF_CONTRACT(C01, flip_faces) { flipValid(FACES); }
VF_CONTRACT(C02, flip) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t e = anyEdge(a);
  FlipW w(a, e);
  size_t h = w.h, t = w.t, h2 = w.h2, h3 = w.h3, t2 = w.t2, t3 = w.t3;
  size_t x = anyHe(a, "x");
  bool r = m.flip(m.edge(e), false);
  vf_assert(r == w.legal(), "exactly the interior edges between two triangles are flipped");
  if (!r) {
    vf_assert((m.heNextArr[x] == a.nx[x]) & (m.heVertexArr[x] == a.ve[x]) & (m.heFaceArr[x] == a.fa[x]), "a refused flip changes nothing");
    return;
  }
  vf_reach("flipped");
  size_t n = sel(x, {h, t3, h2, t, h3, t2}, {t3, h2, h, h3, t2, t}, a.nx[x]);
  vf_assert(m.heNextArr[x] == n, "successors after the flip");
  size_t v = sel(x, {h, t}, {a.ve[h3], a.ve[t3]}, a.ve[x]);
  vf_assert(m.heVertexArr[x] == v, "the flipped edge joins the opposite vertices; the other tails are kept");
  size_t f = sel(x, {t3, h3}, {a.fa[h], a.fa[t]}, a.fa[x]);
  vf_assert(m.heFaceArr[x] == f, "faces after the flip");
}
// counters: what an edit adds to each count is what it adds to the live elements
#ifdef VF_NATIVE
inline void countsAfter(AM& a, long, long, long, long, long) { vf_assert(zoo::countProblem(a.m()).empty(), zoo::countProblem(a.m()).c_str()); }
#else
inline void countsAfter(AM& a, long dV, long dE, long dF, long dB, long dI) {
  ManifoldSurfaceMesh& m = a.m();
  vf_assert((long)m.nVerticesCount == (long)a.nV + dV, "vertex count");
  vf_assert((long)m.nEdgesCount == (long)a.nE + dE, "edge count");
  vf_assert((long)m.nHalfedgesCount == (long)a.nH + 2 * dE, "halfedge count");
  vf_assert((long)m.nFacesCount == (long)a.nF + dF, "face count");
  vf_assert((long)m.nBoundaryLoopsCount == (long)a.nB + dB, "boundary loop count");
  vf_assert((long)m.nInteriorHalfedgesCount == (long)a.nI + dI, "interior halfedge count");
}
#endif
VF_CONTRACT(C03, flip) {
  AM& a = *anyMesh();
  size_t e = anyEdge(a);
  FlipW w(a, e);
  bool r = a.m().flip(a.m().edge(e), false);
  if (r) vf_reach("flipped");
  countsAfter(a, 0, 0, 0, 0, 0);
}
