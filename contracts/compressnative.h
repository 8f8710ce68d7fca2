// Native oracle for compression: the mesh described by ranks (positions of live elements in index order), so that two
// descriptions are equal iff the meshes are equal up to the order-preserving renumbering.
#pragma once
#include "meshops.h"
#include "navnative.h"
namespace cn {
using namespace zoo;
struct Ranked {
  std::map<size_t, size_t> h, v, e, f, b; // index -> rank
  std::vector<size_t> out;
  std::vector<size_t> cnt;
};
inline Ranked ranked(SurfaceMesh& m) {
  Ranked r;
  auto num = [](std::map<size_t, size_t>& x, size_t i) { size_t k = x.size(); x[i] = k; };
  for (size_t i = 0; i < m.nHalfedgesFillCount; i++) if (m.heNextArr[i] != INV) num(r.h, i);
  for (size_t i = 0; i < m.nVerticesFillCount; i++) if (m.vHalfedgeArr[i] != INV) num(r.v, i);
  for (size_t i : liveEdges(m)) num(r.e, i);
  for (size_t i = 0; i < m.nFacesFillCount; i++) if (m.fHalfedgeArr[i] != INV) num(r.f, i);
  for (size_t i = 0; i < m.nBoundaryLoopsFillCount; i++) if (m.fHalfedgeArr[m.nFacesCapacityCount - 1 - i] != INV) num(r.b, i);
  auto& o = r.out;
  for (auto& p : r.h) {
    Halfedge he = m.halfedge(p.first);
    o.push_back(r.h.at(he.next().getIndex()));
    o.push_back(r.h.at(he.sibling().getIndex()));
    o.push_back(r.v.at(he.vertex().getIndex()));
    o.push_back(r.e.at(he.edge().getIndex()));
    o.push_back(he.orientation());
    size_t f = m.heFaceArr[p.first];
    if (f < m.nFacesFillCount) o.push_back(r.f.at(f));
    else if (m.nBoundaryLoopsFillCount || f != INV) o.push_back(1000000 + r.b.at(m.nFacesCapacityCount - 1 - f));
    if (!m.useImplicitTwinFlag) {
      for (auto* a : {&m.heVertInNextArr, &m.heVertInPrevArr, &m.heVertOutNextArr, &m.heVertOutPrevArr}) o.push_back(r.h.at((*a)[p.first]));
    }
  }
  for (auto& p : r.v) {
    o.push_back(r.h.at(m.vHalfedgeArr[p.first]));
    if (!m.useImplicitTwinFlag) { o.push_back(r.h.at(m.vHeInStartArr[p.first])); o.push_back(r.h.at(m.vHeOutStartArr[p.first])); }
  }
  for (auto& p : r.e) o.push_back(r.h.at(m.edge(p.first).halfedge().getIndex()));
  for (auto& p : r.f) o.push_back(r.h.at(m.fHalfedgeArr[p.first]));
  for (auto& p : r.b) o.push_back(r.h.at(m.boundaryLoop(p.first).halfedge().getIndex()));
  r.cnt = {m.nVertices(), m.nHalfedges(), m.nInteriorHalfedges(), m.nEdges(), m.nFaces(), m.nBoundaryLoops(), m.nCorners()};
  return r;
}
// every live element carries a number; it must still carry it after the renumbering
template <class E> struct Tagged {
  std::unique_ptr<MeshData<E, size_t>> d;
  std::vector<size_t> want;
  explicit Tagged(SurfaceMesh& m, const std::map<size_t, size_t>& live, size_t seed) : d(new MeshData<E, size_t>(m, size_t(7))) {
    for (auto& p : live) { want.push_back(seed + 13 * p.first); (*d)[p.first] = want.back(); }
  }
  void check(const std::map<size_t, size_t>& live, const char* l) {
    bool ok = live.size() == want.size() && (size_t)d->raw().rows() >= live.size();
    for (auto& p : live) ok = ok && (size_t)d->raw().rows() > p.first && d->raw()[p.first] == want[p.second];
    vf_assert(ok, l);
  }
};
inline void checkCompress(SurfaceMesh& m) {
  Ranked A = ranked(m);
  Tagged<Halfedge> th(m, A.h, 1);
  Tagged<Vertex> tv(m, A.v, 2);
  Tagged<Edge> te(m, A.e, 3);
  Tagged<Face> tf(m, A.f, 4);
  Tagged<BoundaryLoop> tb(m, A.b, 5);
  Tagged<Corner> tc(m, A.h, 6);
  size_t calls = 0;
  m.compressCallbackList.push_back([&]() { calls++; });
  bool was = m.isCompressed();
  m.compress();
  Ranked B = ranked(m);
  vf_assert(m.isCompressed() && calls == (was ? 0u : 1u), "the mesh is compressed and compress callbacks run once");
  vf_assert(A.cnt == B.cnt, "counts are unchanged");
  vf_assert(A.h.size() == B.h.size() && A.v.size() == B.v.size() && A.e.size() == B.e.size() && A.f.size() == B.f.size() && A.b.size() == B.b.size(), "exactly the live elements survive");
  auto dense = [](const std::map<size_t, size_t>& x, size_t n) { return x.empty() ? n == 0 : x.rbegin()->first == x.size() - 1 && x.size() == n; };
  vf_assert(dense(B.h, m.nHalfedgesFillCount) && dense(B.v, m.nVerticesFillCount) && dense(B.e, m.nEdgesFillCount) && dense(B.f, m.nFacesFillCount) && dense(B.b, m.nBoundaryLoopsFillCount), "elements are numbered densely");
  vf_assert(m.nHalfedgesCapacityCount == m.nHalfedgesFillCount || was, "no spare storage is left");
  vf_assert(A.out == B.out, "every connectivity relation between surviving elements is as before, in the same order");
  vf_assert(countProblem(m).empty(), countProblem(m).c_str());
  th.check(B.h, "halfedge containers follow");
  tv.check(B.v, "vertex containers follow");
  te.check(B.e, "edge containers follow");
  tf.check(B.f, "face containers follow");
  tb.check(B.b, "boundary loop containers follow");
  tc.check(B.h, "corner containers follow");
  if (!was) vf_reach("something was deleted");
  Snap S = snap(m);
  m.compress();
  vf_assert(sameConn(S, snap(m)) && calls == (was ? 0u : 1u), "compressing again changes nothing");
  m.compressCallbackList.clear();
}
// delete one connected component of a general mesh
inline void dropComponent(SurfaceMesh& m) {
  auto vs = liveVerts(m);
  if (vs.empty()) return;
  std::set<size_t> comp{pick("component", vs)};
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t f : liveFaces(m)) {
      bool any = false, allIn = true;
      for (Vertex v : m.face(f).adjacentVertices()) (comp.count(v.getIndex()) ? any : allIn) = comp.count(v.getIndex()) ? true : false;
      if (any && !allIn) {
        for (Vertex v : m.face(f).adjacentVertices()) comp.insert(v.getIndex());
        ch = true;
      }
    }
  }
  std::vector<size_t> fs, es;
  for (size_t f : liveFaces(m)) if (comp.count(m.face(f).halfedge().vertex().getIndex())) fs.push_back(f);
  for (size_t e : liveEdges(m)) if (comp.count(m.edge(e).halfedge().vertex().getIndex())) es.push_back(e);
  for (size_t e : es) m.deleteEdgeBundle(m.edge(e));
  for (size_t f : fs) m.deleteElement(m.face(f));
  for (size_t v : comp) m.deleteElement(m.vertex(v));
}
} // namespace cn
