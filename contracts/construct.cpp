// C18: meshes built from polygons represent exactly those polygons; meshes built from connectivity arrays have those arrays
// and count the live elements; copies of a mesh are equal and independent.
#include "general.h"
#ifdef VF_NATIVE
#include <algorithm>
#endif
#include "symmesh.h"
using namespace sm;
static size_t anyI(const char* n) { return vf_size(n, 0, 1ul << 42); }

#ifndef VF_NATIVE
typedef std::vector<size_t> Sizes;
static void equalArrays(Sizes& a, Sizes& b, const char* what) {
  vf_assert(a.size() == b.size(), what);
  size_t i = anyI(what);
  if (i < b.size()) vf_assert(a[i] == b[i], what);
}
static void equalChars(std::vector<char>& a, std::vector<char>& b, const char* what) {
  vf_assert(a.size() == b.size(), what);
  size_t i = anyI(what);
  if (i < b.size()) vf_assert(a[i] == b[i], what);
}
// t is m, field by field (m has not changed since)
static void equalMeshes(SurfaceMesh& t, SurfaceMesh& m, int part = 0) {
  if (part == 0) {
  equalArrays(t.heNextArr, m.heNextArr, "the copy has the successors");
  equalArrays(t.heVertexArr, m.heVertexArr, "the copy has the tails");
  equalArrays(t.heFaceArr, m.heFaceArr, "the copy has the faces of the halfedges");
  equalArrays(t.vHalfedgeArr, m.vHalfedgeArr, "the copy has the halfedges of the vertices");
  equalArrays(t.fHalfedgeArr, m.fHalfedgeArr, "the copy has the halfedges of the faces");
  }
  vf_assert(t.useImplicitTwinFlag == m.useImplicitTwinFlag, "the copy stores twins the same way");
  if (part == 1) {
    equalArrays(t.heSiblingArr, m.heSiblingArr, "the copy has the siblings");
    equalArrays(t.heEdgeArr, m.heEdgeArr, "the copy has the edges of the halfedges");
    equalChars(t.heOrientArr, m.heOrientArr, "the copy has the orientations");
    equalArrays(t.eHalfedgeArr, m.eHalfedgeArr, "the copy has the halfedges of the edges");
  }
  if (part == 2) {
    equalArrays(t.heVertInNextArr, m.heVertInNextArr, "the copy has the lists of incoming halfedges");
    equalArrays(t.heVertInPrevArr, m.heVertInPrevArr, "the copy has the backward lists of incoming halfedges");
    equalArrays(t.vHeInStartArr, m.vHeInStartArr, "the copy has the starts of the incoming lists");
    equalArrays(t.heVertOutNextArr, m.heVertOutNextArr, "the copy has the lists of outgoing halfedges");
    equalArrays(t.heVertOutPrevArr, m.heVertOutPrevArr, "the copy has the backward lists of outgoing halfedges");
    equalArrays(t.vHeOutStartArr, m.vHeOutStartArr, "the copy has the starts of the outgoing lists");
  }
  vf_assert((t.nHalfedgesCount == m.nHalfedgesCount) & (t.nInteriorHalfedgesCount == m.nInteriorHalfedgesCount) & (t.nEdgesCount == m.nEdgesCount) & (t.nVerticesCount == m.nVerticesCount) &
                (t.nFacesCount == m.nFacesCount) & (t.nBoundaryLoopsCount == m.nBoundaryLoopsCount),
            "the copy has the element counts");
  vf_assert((t.nVerticesCapacityCount == m.nVerticesCapacityCount) & (t.nHalfedgesCapacityCount == m.nHalfedgesCapacityCount) & (t.nEdgesCapacityCount == m.nEdgesCapacityCount) &
                (t.nFacesCapacityCount == m.nFacesCapacityCount) & (t.nVerticesFillCount == m.nVerticesFillCount) & (t.nHalfedgesFillCount == m.nHalfedgesFillCount) &
                (t.nEdgesFillCount == m.nEdgesFillCount) & (t.nFacesFillCount == m.nFacesFillCount) & (t.nBoundaryLoopsFillCount == m.nBoundaryLoopsFillCount),
            "the copy uses the same slots");
  vf_assert(t.isCompressedFlag == m.isCompressedFlag, "the copy is compressed exactly if the mesh is");
  vf_assert(t.vertexExpandCallbackList.empty() & t.meshDeleteCallbackList.empty(), "the copy has no observers");
}
// writing into one of the two meshes does not change the other
static void independent(SurfaceMesh& t, SurfaceMesh& m) {
  size_t i = anyI("changed"), j = anyI("read"), x = vf_size("value", 0, 1ul << 42);
  vf_assume((i < m.heNextArr.size()) & (j < m.heNextArr.size()));
  size_t a = m.heNextArr[j], b = m.heVertexArr[j], c = m.heFaceArr[j];
  t.heNextArr[i] = x;
  t.heVertexArr[i] = x;
  t.heFaceArr[i] = x;
  t.nVerticesCount = x;
  vf_assert((m.heNextArr[j] == a) & (m.heVertexArr[j] == b) & (m.heFaceArr[j] == c), "editing the copy leaves the mesh alone");
  m.heNextArr[j] = x + 1;
  vf_assert(t.heNextArr[i] == x, "editing the mesh leaves the copy alone");
  vf_reach("copied");
}
VF_CONTRACT(C18, copy_manifold) {
  AM& a = *anyMesh(false);
  std::unique_ptr<ManifoldSurfaceMesh> t = a.m().copy();
  equalMeshes(*t, a.m());
  independent(*t, a.m());
  t.release();
}
VF_CONTRACT(C18, copy_base) { // the same mesh, copied through the base class
  AM& a = *anyMesh(false);
  SurfaceMesh& m = a.m();
  std::unique_ptr<SurfaceMesh> t = m.copyToSurfaceMesh();
  equalMeshes(*t, m);
  independent(*t, m);
  t.release();
}
static void copyGeneral(int part) {
  gm::GM& a = *gm::anyGeneral();
  std::unique_ptr<SurfaceMesh> t = a.m().copy();
  equalMeshes(*t, a.m(), part);
  independent(*t, a.m());
  t.release();
}
VF_CONTRACT(C18, copy_general) { copyGeneral(0); }
VF_CONTRACT(C18, copy_general_siblings) { copyGeneral(1); }
VF_CONTRACT(C18, copy_general_lists) { copyGeneral(2); }

// ---------------------------------------------------------------------------- construction from connectivity arrays
// ghost: dX[i] = number of dead elements among the first i; rI[i] = number of interior halfedges among the first i
struct Raw {
  size_t H, V, F, C, E;
  bool general;
  Sizes nx, ve, fa, vh, fh, eh, dH, dE, dV, dF, rI;
  SurfaceMesh* m;
};
static bool interior(Raw& a, size_t i) { return (a.nx[i] != NONE) & (a.fa[i] < a.F); }
static bool upTo(Sizes& d, size_t i, size_t n, bool dead) { return imp(i == 0, d[i] == 0) & (d[i] <= i) & imp(i < n, d[i + 1] == d[i] + vf_ite(dead, 1, 0)); }
static bool rxH(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.dH, i, a.H, a.nx[i] == NONE); }
static bool rxE(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.dE, i, a.E, a.nx[2 * i] == NONE); }
static bool rxV(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.dV, i, a.V, a.vh[i] == NONE); }
static bool rxF(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.dF, i, a.C, a.fh[i] == NONE) & imp(i >= a.F, (a.dF[i] >= a.dF[a.F]) & (a.dF[i] - a.dF[a.F] <= i - a.F)); }
static bool rxI(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.rI, i, a.H, interior(a, i)); }
static bool nVs(void* c, size_t i) { Raw& a = *(Raw*)c; return (i <= a.V) & (a.m->nVerticesCount == a.V - a.dV[i]); }
static bool nHs(void* c, size_t i) { Raw& a = *(Raw*)c; return (i <= a.H) & (a.m->nHalfedgesCount == a.H - a.dH[i]); }
static bool nEs(void* c, size_t i) { Raw& a = *(Raw*)c; return (i <= a.E) & (a.m->nEdgesCount == a.E - a.dE[i]); }
static bool nFs(void* c, size_t i) { Raw& a = *(Raw*)c; return (i <= a.F) & (a.m->nFacesCount == a.F - a.dF[i]); }
static bool nBs(void* c, size_t i) { Raw& a = *(Raw*)c; return (i <= a.C - a.F) & (a.m->nBoundaryLoopsCount == a.C - a.F - (a.dF[a.F + i] - a.dF[a.F])); }
static bool nIs(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->nInteriorHalfedgesCount == i; }
static bool cV(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->isCompressedFlag == (a.dV[i] == 0); }
static bool cH(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->isCompressedFlag == ((a.dV[a.V] == 0) & (a.dH[i] == 0)); }
static bool cE(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->isCompressedFlag == ((a.dV[a.V] == 0) & (a.dH[a.H] == 0) & (a.dE[i] == 0)); }
static bool cF(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->isCompressedFlag == ((a.dV[a.V] == 0) & (a.dH[a.H] == 0) & (a.dE[a.E] == 0) & (a.dF[i] == 0)); }
static bool cB(void* c, size_t i) { Raw& a = *(Raw*)c; return a.m->isCompressedFlag == ((a.dV[a.V] == 0) & (a.dH[a.H] == 0) & (a.dE[a.E] == 0) & (a.dF[a.F + i] == 0)); }
static bool onInterior(void* c, size_t v, size_t) { Raw& a = *(Raw*)c; return (v == a.H) | ((v < a.H) & interior(a, v)); }
static bool passing(void* c, size_t v, size_t entry) { Raw& a = *(Raw*)c; return imp((v <= a.H) & (entry <= a.H), a.rI[v] == a.rI[entry]); }
static bool within(void* c, size_t v, size_t) { Raw& a = *(Raw*)c; return v <= a.H; }
static bool nthInterior(void* c, size_t v, size_t, size_t iter) { Raw& a = *(Raw*)c; return (v <= a.H) & (a.rI[v] == iter); }
static bool rxEg(void* c, size_t i) { Raw& a = *(Raw*)c; return upTo(a.dE, i, a.E, a.eh[i] == NONE); }
static void build(ManifoldSurfaceMesh* p, Sizes& nx, Sizes& ve, Sizes& fa, Sizes& vh, Sizes& fh, Sizes&, Sizes&, std::vector<char>&, Sizes&, size_t B) { new (p) ManifoldSurfaceMesh(nx, ve, fa, vh, fh, B); }
static void build(SurfaceMesh* p, Sizes& nx, Sizes& ve, Sizes& fa, Sizes& vh, Sizes& fh, Sizes& si, Sizes& ed, std::vector<char>& o, Sizes& eh, size_t B) { new (p) SurfaceMesh(nx, ve, fa, vh, fh, si, ed, o, eh, B); }
static void keepLists() {} // initializeHalfedgeNeighbors only writes the vertex lists
template <class MESH> static void fromArrays(const char* K, const char* const (&L)[6], bool general) {
  Raw& a = *new Raw();
  const size_t BIG = 1ul << 40;
  a.E = vf_size("E", 0, BIG); a.H = general ? vf_size("H", 0, BIG) : 2 * a.E; a.V = vf_size("V", 0, BIG); a.F = vf_size("F", 0, BIG);
  a.general = general;
  size_t B = vf_size("B", 0, BIG);
  a.C = a.F + B;
  Sizes nx, ve, fa, vh, fh, si, ed, eh;
  std::vector<char> ori;
  vf_sym_sizes(&nx, "next", a.H); vf_sym_sizes(&ve, "vert", a.H); vf_sym_sizes(&fa, "face", a.H); vf_sym_sizes(&vh, "vhe", a.V); vf_sym_sizes(&fh, "fhe", a.C);
  vf_old_sizes(&a.nx, "next"); vf_old_sizes(&a.ve, "vert"); vf_old_sizes(&a.fa, "face"); vf_old_sizes(&a.vh, "vhe"); vf_old_sizes(&a.fh, "fhe");
  if (general) {
    vf_sym_sizes(&si, "sib", a.H); vf_sym_sizes(&ed, "hedge", a.H); vf_sym_chars(&ori, "orient", a.H); vf_sym_sizes(&eh, "ehe", a.E);
    vf_old_sizes(&a.eh, "ehe");
    vf_replace("geometrycentral::surface::SurfaceMesh::initializeHalfedgeNeighbors(", (void (*)()) & keepLists, 0);
  }
  vf_sym_sizes(&a.dH, "deadH", a.H + 1); vf_sym_sizes(&a.dE, "deadE", a.E + 1); vf_sym_sizes(&a.dV, "deadV", a.V + 1); vf_sym_sizes(&a.dF, "deadF", a.C + 1);
  vf_sym_sizes(&a.rI, "rankI", a.H + 1);
  vf_forall("deadH,next", rxH, &a); vf_forall("deadV,vhe", rxV, &a); vf_forall("deadF,fhe", rxF, &a); vf_forall("rankI,face", rxI, &a);
  if (general) vf_forall("deadE,ehe", rxEg, &a); else vf_forall("deadE", rxE, &a);
  vf_instantiate("rankI", 0); vf_instantiate("deadF", a.F); vf_instantiate("deadF", a.C); vf_instantiate("deadH", a.H); vf_instantiate("deadE", a.E); vf_instantiate("deadV", a.V);
  vf_loop_count(K);
  vf_loop_at(L[0], nVs, &a); vf_loop_at(L[1], nHs, &a); vf_loop_at(L[2], nEs, &a); vf_loop_at(L[3], nFs, &a); vf_loop_at(L[4], nBs, &a); vf_loop_at(L[5], nIs, &a);
  vf_loop_at(L[0], cV, &a); vf_loop_at(L[1], cH, &a); vf_loop_at(L[2], cE, &a); vf_loop_at(L[3], cF, &a); vf_loop_at(L[4], cB, &a);
  vf_loop_keep(K, onInterior, &a); vf_loop_step(K, nthInterior, &a);
  vf_loop_keep("RangeIteratorBase", onInterior, &a); vf_loop_keep("RangeIteratorBase", passing, &a); vf_loop_keep("RangeIteratorBase", within, &a);
  MESH* mp = (MESH*)operator new(sizeof(MESH));
  a.m = mp;
  build(mp, nx, ve, fa, vh, fh, si, ed, ori, eh, B);
  SurfaceMesh& m = *mp;
  vf_assert(m.nVertices() == a.V - a.dV[a.V], "the mesh counts its live vertices");
  vf_assert(m.nHalfedges() == a.H - a.dH[a.H], "the mesh counts its live halfedges");
  vf_assert(m.nEdges() == a.E - a.dE[a.E], "the mesh counts its live edges");
  vf_assert(m.nFaces() == a.F - a.dF[a.F], "the mesh counts its live faces");
  vf_assert(m.nBoundaryLoops() == B - (a.dF[a.C] - a.dF[a.F]), "the mesh counts its live boundary loops");
  vf_assert(m.nInteriorHalfedges() == a.rI[a.H], "the mesh counts its interior halfedges");
  vf_assert(m.isCompressed() == ((a.dV[a.V] == 0) & (a.dH[a.H] == 0) & (a.dE[a.E] == 0) & (a.dF[a.C] == 0)), "the mesh is compressed exactly if nothing is dead");
  vf_assert((m.nVerticesFillCount == a.V) & (m.nHalfedgesFillCount == a.H) & (m.nEdgesFillCount == a.E) & (m.nFacesFillCount == a.F) & (m.nBoundaryLoopsFillCount == B), "all slots are in use");
  size_t h = anyI("h"), v = anyI("v"), f = anyI("f");
  vf_assume((h < a.H) & (v < a.V) & (f < a.C));
  vf_assert((m.heNextArr[h] == a.nx[h]) & (m.heVertexArr[h] == a.ve[h]) & (m.heFaceArr[h] == a.fa[h]), "the halfedges are the given ones");
  vf_assert((m.vHalfedgeArr[v] == a.vh[v]) & (m.fHalfedgeArr[f] == a.fh[f]), "the vertices and faces are the given ones");
  if (general) {
    size_t e = anyI("e");
    vf_assume(e < a.E);
    vf_assert((m.heSiblingArr[h] == si[h]) & (m.heEdgeArr[h] == ed[h]) & (m.heOrientArr[h] == ori[h]) & (m.eHalfedgeArr[e] == eh[e]), "the edges are the given ones");
  }
  vf_reach("constructed");
}
#define LOOPS(K) {K "#1", K "#2", K "#3", K "#4", K "#5", K "#6"}
VF_CONTRACT(C18, from_arrays) { fromArrays<ManifoldSurfaceMesh>("ManifoldSurfaceMesh::ManifoldSurfaceMesh(std::vector<unsigned long", LOOPS("ManifoldSurfaceMesh::ManifoldSurfaceMesh(std::vector<unsigned long"), false); }
VF_CONTRACT(C18, from_arrays_general) { fromArrays<SurfaceMesh>("::SurfaceMesh::SurfaceMesh(std::vector<unsigned long", LOOPS("::SurfaceMesh::SurfaceMesh(std::vector<unsigned long"), true); }
#endif

#ifdef VF_NATIVE
// ------------------------------------------------------------------------------------------------ bounded stand-ins
using zoo::Polys;
using zoo::Twins;
static void requireOk(const std::string& p) { vf_assert(p.empty(), p.empty() ? "ok" : p.c_str()); }
static void shuffle(Polys& p) { // other names and another order
  size_t n = 0;
  for (auto& f : p) for (size_t v : f) n = std::max(n, v + 1);
  std::vector<size_t> r(n);
  for (size_t i = 0; i < n; i++) r[i] = i;
  for (size_t i = n; i > 1; i--) std::swap(r[i - 1], r[vf_size("rename", 0, i - 1)]);
  for (auto& f : p) {
    for (size_t& v : f) v = r[v];
    std::rotate(f.begin(), f.begin() + vf_size("rotate", 0, f.size() - 1), f.end());
  }
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[vf_size("reorder", 0, i - 1)]);
}
static Polys anyPolys(bool repeats) {
  Polys p;
  if (vf_bool("soup")) {
    size_t nv = vf_size("soupV", 3, 7), nf = vf_size("soupF", 1, 7);
    for (size_t i = 0; i < nf; i++) {
      std::vector<size_t> f;
      size_t d = vf_size("degree", 3, 5);
      for (size_t j = 0; j < d; j++) {
        size_t v = vf_size("corner", 0, nv - 1);
        if (!repeats) for (size_t t = 0; t < nv && std::find(f.begin(), f.end(), v) != f.end(); t++) v = (v + 1) % nv;
        if (!repeats && std::find(f.begin(), f.end(), v) != f.end()) break;
        f.push_back(v);
      }
      p.push_back(f);
    }
    return vf_bool("dense") ? zoo::renumber(p) : p;
  }
  auto& P = zoo::generalPolys();
  p = P[vf_size("base", 0, P.size() - 1)];
  size_t changes = vf_size("changes", 0, 2);
  for (size_t k = 0; k < changes; k++) {
    size_t i = vf_size("face", 0, p.size() - 1), w = vf_size("what", 0, 4);
    size_t n = 0;
    for (auto& f : p) for (size_t v : f) n = std::max(n, v + 1);
    if (w == 0 && p.size() > 1) p.erase(p.begin() + i);
    if (w == 1) std::reverse(p[i].begin(), p[i].end());
    if (w == 2) p.push_back(p[i]);
    if (w == 3) { // identify two vertices
      size_t a = vf_size("a", 0, n - 1), b = vf_size("b", 0, n - 1);
      for (auto& f : p) for (size_t& v : f) if (v == a) v = b;
    }
    if (w == 4) p.push_back({vf_size("a", 0, n - 1), vf_size("b", 0, n - 1), vf_size("c", 0, n)});
  }
  if (vf_bool("dense")) p = zoo::renumber(p);
  shuffle(p);
  return p;
}
static bool wellFormed(const Polys& p) { // faces have three sides, all vertices up to the largest are used
  std::set<size_t> used;
  for (auto& f : p) {
    if (f.size() < 3) return false;
    used.insert(f.begin(), f.end());
  }
  return !used.empty() && *used.rbegin() + 1 == used.size();
}
typedef std::pair<size_t, size_t> Side;
static std::map<Side, std::vector<Side>> sides(const Polys& p) { // (tail, tip) -> the sides (face, position)
  std::map<Side, std::vector<Side>> m;
  for (size_t f = 0; f < p.size(); f++)
    for (size_t j = 0; j < p[f].size(); j++) m[Side(p[f][j], p[f][(j + 1) % p[f].size()])].push_back(Side(f, j));
  return m;
}
// an oriented manifold: every side at most once, no side from a vertex to itself, the corners of a vertex hang together
static bool manifold(const Polys& p) {
  auto S = sides(p);
  for (auto& s : S) if (s.second.size() > 1 || s.first.first == s.first.second) return false;
  std::map<size_t, std::vector<Side>> corners;
  for (size_t f = 0; f < p.size(); f++) for (size_t j = 0; j < p[f].size(); j++) corners[p[f][j]].push_back(Side(f, j));
  for (auto& c : corners) {
    std::set<Side> seen;
    std::vector<Side> todo{c.second[0]};
    while (!todo.empty()) {
      Side x = todo.back();
      todo.pop_back();
      if (!seen.insert(x).second) continue;
      auto& f = p[x.first];
      size_t v = c.first, out = f[(x.second + 1) % f.size()], in = f[(x.second + f.size() - 1) % f.size()];
      auto a = S.find(Side(out, v)); // the face across the outgoing side: its corner at v follows that side
      if (a != S.end()) { Side s = a->second[0]; todo.push_back(Side(s.first, (s.second + 1) % p[s.first].size())); }
      auto b = S.find(Side(v, in));
      if (b != S.end()) todo.push_back(b->second[0]);
    }
    if (seen.size() != c.second.size()) return false;
  }
  return true;
}
static std::multiset<std::vector<size_t>> openLoops(const Polys& p) {
  auto S = sides(p);
  std::map<size_t, size_t> next; // exterior sides run backwards
  for (auto& s : S) if (!S.count(Side(s.first.second, s.first.first))) next[s.first.second] = s.first.first;
  std::multiset<std::vector<size_t>> out;
  while (!next.empty()) {
    std::vector<size_t> c;
    size_t v = next.begin()->first;
    while (next.count(v)) { c.push_back(v); size_t w = next[v]; next.erase(v); v = w; }
    out.insert(zoo::canon(c));
  }
  return out;
}
static void represents(ManifoldSurfaceMesh& m, const Polys& p) {
  requireOk(zoo::problem(m));
  requireOk(zoo::countProblem(m));
  vf_assert(m.isCompressed(), "a new mesh is compressed");
  vf_assert(m.getFaceVertexList() == p, "the faces list the given vertices in order");
  size_t nV = 0, nI = 0;
  std::set<Side> pairs;
  for (auto& f : p)
    for (size_t j = 0; j < f.size(); j++) {
      nV = std::max(nV, f[j] + 1);
      nI++;
      size_t a = f[j], b = f[(j + 1) % f.size()];
      pairs.insert(Side(std::min(a, b), std::max(a, b)));
    }
  vf_assert(m.nVertices() == nV && m.nFaces() == p.size() && m.nInteriorHalfedges() == nI && m.nEdges() == pairs.size() && m.nHalfedges() == 2 * pairs.size(), "the counts are those of the input");
  auto S = sides(p);
  for (size_t f = 0; f < p.size(); f++) {
    Halfedge h = m.face(f).halfedge();
    for (size_t j = 0; j < p[f].size(); j++, h = h.next()) {
      vf_assert(h.vertex().getIndex() == p[f][j], "a face starts at its first vertex");
      auto t = S.find(Side(p[f][(j + 1) % p[f].size()], p[f][j]));
      vf_assert(h.twin().isInterior() == (t != S.end()), "sides are glued exactly if the input glues them");
      if (t != S.end()) vf_assert(h.twin().face().getIndex() == t->second[0].first, "a side is glued to the side in the other direction");
    }
  }
  vf_assert(zoo::loopPolys(m) == openLoops(p), "the boundary loops are the cycles of unglued sides");
  vf_assert(m.nBoundaryLoops() == openLoops(p).size(), "as many boundary loops");
}
VF_BOUNDED(C18, polygons) {
  Polys p = anyPolys(vf_bool("repeats"));
  bool ok = wellFormed(p) && manifold(p);
  std::unique_ptr<ManifoldSurfaceMesh> m;
  bool thrown = false;
  try { m.reset(new ManifoldSurfaceMesh(p)); } catch (...) { thrown = true; }
  if (!ok) { vf_assert(thrown, "polygons which are not a manifold are rejected"); vf_reach("rejected"); return; }
  vf_assert(!thrown, "a manifold is accepted");
  represents(*m, p);
  vf_reach("accepted");
}
VF_BOUNDED(C18, general) {
  Polys p = anyPolys(vf_bool("repeats"));
  std::unique_ptr<SurfaceMesh> m;
  bool thrown = false;
  try { m.reset(new SurfaceMesh(p)); } catch (...) { thrown = true; }
  vf_assert(thrown == !wellFormed(p), "well-formed polygons are accepted, others rejected");
  if (thrown) return;
  requireOk(zoo::problemGeneral(*m));
  requireOk(zoo::countProblem(*m));
  vf_assert(m->getFaceVertexList() == p, "the faces list the given vertices in order");
  std::map<Side, std::vector<Halfedge>> at;
  size_t n = 0;
  for (size_t f = 0; f < p.size(); f++) {
    Halfedge h = m->face(f).halfedge();
    for (size_t j = 0; j < p[f].size(); j++, h = h.next(), n++) {
      size_t a = p[f][j], b = p[f][(j + 1) % p[f].size()];
      vf_assert(h.vertex().getIndex() == a, "a face starts at its first vertex");
      at[Side(std::min(a, b), std::max(a, b))].push_back(h);
    }
  }
  std::set<size_t> edges;
  for (auto& x : at) {
    for (Halfedge h : x.second) {
      vf_assert(h.edge() == x.second[0].edge(), "sides joining the same vertices are one edge");
      if (x.first.first != x.first.second) vf_assert((h.vertex() == x.second[0].vertex()) == (h.orientation() == x.second[0].orientation()), "orientation flags agree exactly for sides in the same direction");
    }
    vf_assert(edges.insert(x.second[0].edge().getIndex()).second, "sides joining other vertices are other edges");
    vf_assert(x.second[0].edge().degree() == x.second.size(), "the edge has exactly these sides");
    vf_assert(x.second[0].edge().isBoundary() == (x.second.size() == 1), "an edge with one side is on the boundary");
  }
  vf_assert(m->nEdges() == edges.size() && m->nFaces() == p.size() && m->nHalfedges() == n && m->nInteriorHalfedges() == n, "the counts are those of the input");
  vf_reach("general mesh");
  // conversion to a manifold mesh
  bool simple = true;
  for (auto& x : at) if (x.first.first == x.first.second) simple = false;
  if (!simple) return;
  std::unique_ptr<ManifoldSurfaceMesh> c;
  bool refused = false;
  try { c = m->toManifoldMesh(); } catch (...) { refused = true; }
  vf_assert(refused == !manifold(p), "exactly the oriented manifolds convert to a manifold mesh");
  if (refused) return;
  represents(*c, p);
  vf_reach("converted");
}
// any gluing of polygon sides (in opposite directions) is an oriented manifold once corners are identified along the gluing
VF_BOUNDED(C18, gluings) {
  size_t nf = vf_size("faces", 1, 6);
  std::vector<size_t> deg;
  std::vector<Side> all;
  for (size_t f = 0; f < nf; f++) {
    deg.push_back(vf_size("degree", 3, 5));
    for (size_t j = 0; j < deg[f]; j++) all.push_back(Side(f, j));
  }
  const size_t N = INVALID_IND;
  Twins tw(nf);
  std::vector<std::vector<size_t>> cls(nf);
  size_t k = 0;
  for (size_t f = 0; f < nf; f++) for (size_t j = 0; j < deg[f]; j++) { tw[f].push_back(std::make_tuple(N, N)); cls[f].push_back(k++); }
  size_t pairs = vf_size("pairs", 0, all.size() / 2);
  std::vector<Side> left = all;
  for (size_t i = 0; i < pairs; i++) {
    size_t x = vf_size("x", 0, left.size() - 1);
    Side a = left[x];
    left.erase(left.begin() + x);
    x = vf_size("y", 0, left.size() - 1);
    Side b = left[x];
    left.erase(left.begin() + x);
    tw[a.first][a.second] = std::make_tuple(b.first, b.second);
    tw[b.first][b.second] = std::make_tuple(a.first, a.second);
    auto join = [&](size_t f, size_t j, size_t g, size_t l) {
      size_t s = cls[f][j % deg[f]], t = cls[g][l % deg[g]];
      for (auto& r : cls) for (size_t& v : r) if (v == s) v = t;
    };
    join(a.first, a.second, b.first, b.second + 1);
    join(a.first, a.second + 1, b.first, b.second);
  }
  Polys p = zoo::renumber(cls);
  bool selfEdge = false;
  for (auto& f : p) for (size_t j = 0; j < f.size(); j++) selfEdge |= f[j] == f[(j + 1) % f.size()];
  std::unique_ptr<ManifoldSurfaceMesh> m;
  bool thrown = false;
  try { m.reset(new ManifoldSurfaceMesh(p, tw)); } catch (...) { thrown = true; }
  vf_assert(thrown == selfEdge, "a gluing is accepted exactly if no side joins a vertex to itself");
  if (thrown) return;
  requireOk(zoo::problem(*m));
  requireOk(zoo::countProblem(*m));
  vf_assert(m->isCompressed(), "a new mesh is compressed");
  vf_assert(m->getFaceVertexList() == p, "the faces list the given vertices in order");
  vf_assert(m->nFaces() == nf && m->nInteriorHalfedges() == all.size() && m->nEdges() == all.size() - pairs && m->nHalfedges() == 2 * (all.size() - pairs), "the counts are those of the input");
  std::vector<std::vector<Halfedge>> he(nf);
  for (size_t f = 0; f < nf; f++) {
    Halfedge h = m->face(f).halfedge();
    for (size_t j = 0; j < deg[f]; j++, h = h.next()) he[f].push_back(h);
  }
  for (size_t f = 0; f < nf; f++)
    for (size_t j = 0; j < deg[f]; j++) {
      vf_assert(he[f][j].vertex().getIndex() == p[f][j], "a face starts at its first vertex");
      size_t g = std::get<0>(tw[f][j]), l = std::get<1>(tw[f][j]);
      if (g == N) vf_assert(!he[f][j].twin().isInterior(), "unglued sides are on the boundary");
      else vf_assert(he[f][j].twin() == he[g][l], "sides are glued as in the input");
    }
  // boundary loops: the exterior side after that of s is that of the first unglued side met when turning around the tail of s
  std::set<Side> open(left.begin(), left.end());
  size_t loops = 0;
  while (!open.empty()) {
    loops++;
    Side s0 = *open.begin(), s = s0;
    do {
      open.erase(s);
      Side x = s;
      while (true) {
        x = Side(x.first, (x.second + deg[x.first] - 1) % deg[x.first]);
        auto t = tw[x.first][x.second];
        if (std::get<0>(t) == N) break;
        x = Side(std::get<0>(t), std::get<1>(t));
      }
      vf_assert(he[s.first][s.second].twin().next() == he[x.first][x.second].twin(), "the boundary loops are the cycles of unglued sides");
      s = x;
    } while (s != s0);
  }
  vf_assert(m->nBoundaryLoops() == loops, "as many boundary loops");
  vf_reach("glued");
}
// copies are equal to the original and share nothing with it; meshes rebuilt from the arrays too
VF_BOUNDED(C18, copies) {
  auto m = zoo::baseMesh();
  zoo::history(*m, vf_size("edits", 0, 4));
  auto c = vf_bool("base") ? std::unique_ptr<ManifoldSurfaceMesh>(static_cast<ManifoldSurfaceMesh*>(static_cast<SurfaceMesh&>(*m).copyToSurfaceMesh().release())) : m->copy();
  auto before = zoo::snap(*m);
  vf_assert(zoo::sameConn(before, zoo::snap(*c)), "the copy has the same connectivity");
  requireOk(zoo::problem(*c));
  requireOk(zoo::countProblem(*c));
  vf_assert(c->isCompressed() == m->isCompressed(), "the copy is compressed exactly if the mesh is");
  VertexData<double> d(*m, 1.);
  size_t n = d.toVector().rows();
  zoo::history(*c, 3);
  vf_assert(zoo::sameConn(before, zoo::snap(*m)), "editing the copy leaves the mesh alone");
  vf_assert((size_t)d.toVector().rows() == n, "editing the copy leaves containers of the mesh alone");
  requireOk(zoo::problem(*c));
  requireOk(zoo::countProblem(*c));
  auto after = zoo::snap(*c);
  zoo::history(*m, 2);
  vf_assert(zoo::sameConn(after, zoo::snap(*c)), "editing the mesh leaves the copy alone");
  m.reset();
  vf_assert(zoo::sameConn(after, zoo::snap(*c)), "deleting the mesh leaves the copy alone");
  vf_reach("copied");
}
VF_BOUNDED(C18, copiesGeneral) {
  auto m = vf_bool("tri") ? zoo::triGeneral() : zoo::baseGeneral();
  zoo::generalHistory(*m, vf_size("edits", 0, 4));
  auto c = m->copy();
  auto before = zoo::snap(*m);
  vf_assert(zoo::sameConn(before, zoo::snap(*c)), "the copy has the same connectivity");
  requireOk(zoo::problemGeneral(*c));
  requireOk(zoo::countProblem(*c));
  zoo::generalHistory(*c, 3);
  vf_assert(zoo::sameConn(before, zoo::snap(*m)), "editing the copy leaves the mesh alone");
  requireOk(zoo::problemGeneral(*c));
  auto after = zoo::snap(*c);
  m.reset();
  vf_assert(zoo::sameConn(after, zoo::snap(*c)), "deleting the mesh leaves the copy alone");
  vf_reach("copied");
}
VF_BOUNDED(C18, arrays) {
  auto m = zoo::baseMesh();
  zoo::history(*m, vf_size("edits", 0, 3));
  if (vf_bool("compress")) m->compress();
  auto cut = [](std::vector<size_t> v, size_t n) { v.resize(n); return v; };
  size_t H = m->nHalfedgesFillCount, B = m->nBoundaryLoopsFillCount, F = m->nFacesFillCount, C = m->nFacesCapacityCount;
  std::vector<size_t> fh(m->fHalfedgeArr.begin(), m->fHalfedgeArr.begin() + F), fa = cut(m->heFaceArr, H);
  fh.insert(fh.end(), m->fHalfedgeArr.end() - B, m->fHalfedgeArr.end());
  for (size_t& f : fa) if (f != INVALID_IND && f >= F) f -= C - F - B;
  ManifoldSurfaceMesh c(cut(m->heNextArr, H), cut(m->heVertexArr, H), fa, cut(m->vHalfedgeArr, m->nVerticesFillCount), fh, B);
  requireOk(zoo::problem(c));
  requireOk(zoo::countProblem(c));
  vf_assert(zoo::facePolys(c) == zoo::facePolys(*m) && zoo::loopPolys(c) == zoo::loopPolys(*m), "the mesh has the given faces and boundary loops");
  vf_reach("rebuilt");
}
#endif
