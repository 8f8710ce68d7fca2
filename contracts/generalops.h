// Native only: edits of a general surface mesh with their effect checked (C16, bounded).
#pragma once
#include "meshops.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
namespace zoo {
struct GRun {
  SurfaceMesh& m;
  bool check;
  std::vector<size_t> nx, ve, fa, si, ed;
  std::vector<char> orient;
  GRun(SurfaceMesh& m_, bool c) : m(m_), check(c) { save(); }
  template <class T> std::vector<T> used(const std::vector<T>& v) { return std::vector<T>(v.begin(), v.begin() + m.nHalfedgesFillCount); } // without spare storage
  void save() { nx = used(m.heNextArr); ve = used(m.heVertexArr); fa = used(m.heFaceArr); si = used(m.heSiblingArr); ed = used(m.heEdgeArr); orient = used(m.heOrientArr); }
  void want(bool c, const char* l) { if (check) vf_assert(c, l); }
  bool same() { return nx == used(m.heNextArr) && ve == used(m.heVertexArr) && fa == used(m.heFaceArr) && si == used(m.heSiblingArr) && ed == used(m.heEdgeArr) && orient == used(m.heOrientArr); }
  std::vector<size_t> poly(size_t f) { return tails(m, faceCycle(m, m.fHalfedgeArr[f])); }
  static std::vector<size_t> unoriented(std::vector<size_t> c) {
    std::vector<size_t> r(c.rbegin(), c.rend());
    return std::min(canon(c), canon(r));
  }
  size_t edgeDegree(size_t e) {
    size_t n = 0;
    for (size_t h = 0; h < m.nHalfedgesFillCount; h++) n += m.heNextArr[h] != INV && m.heEdgeArr[h] == e;
    return n;
  }
  void invert() {
    size_t f = pick("f", liveFaces(m));
    auto p = poly(f);
    m.invertOrientation(m.face(f));
    auto q = poly(f);
    std::reverse(q.begin(), q.end());
    want(canon(p) == canon(q), "the face is reversed");
    for (size_t h = 0; h < nx.size(); h++)
      if (nx[h] != INV && fa[h] != f) want(m.heNextArr[h] == nx[h] && m.heVertexArr[h] == ve[h] && m.heOrientArr[h] == orient[h], "other faces are unchanged");
    want(fa == used(m.heFaceArr) && si == used(m.heSiblingArr) && ed == used(m.heEdgeArr), "halfedges keep their faces and edges");
    if (check && vf_bool("again")) {
      want(problemGeneral(m).empty(), problemGeneral(m).c_str());
      m.invertOrientation(m.face(f));
      want(same(), "inverting twice restores the mesh");
    }
  }
  void duplicate() {
    size_t f = pick("f", liveFaces(m)), nF = m.nFaces(), nH = m.nHalfedges();
    auto p = poly(f);
    auto cyc = faceCycle(m, m.fHalfedgeArr[f]);
    std::vector<size_t> deg;
    for (size_t h : cyc) deg.push_back(edgeDegree(ed[h]));
    Face g = m.duplicateFace(m.face(f));
    want(g.getIndex() != f && m.nFaces() == nF + 1 && m.nHalfedges() == nH + cyc.size(), "one face more");
    want(canon(poly(g.getIndex())) == canon(p), "with the same vertices in the same order");
    for (size_t i = 0; i < cyc.size(); i++) {
      size_t more = 0;
      for (size_t h : cyc) more += ed[h] == ed[cyc[i]];
      want(edgeDegree(ed[cyc[i]]) == deg[i] + more, "on the same edges");
    }
    for (size_t h = 0; h < nx.size(); h++)
      if (nx[h] != INV) want(m.heNextArr[h] == nx[h] && m.heVertexArr[h] == ve[h] && m.heFaceArr[h] == fa[h] && m.heEdgeArr[h] == ed[h] && m.heOrientArr[h] == orient[h], "old halfedges are unchanged");
  }
  void separate() {
    size_t h = pick("h", liveHes(m));
    std::vector<size_t> o;
    for (size_t x = 0; x < nx.size(); x++)
      if (nx[x] != INV && x != h && ed[x] == ed[h]) o.push_back(x);
    vf_assume(!o.empty());
    size_t g = pick("g", o), e = ed[h], d = edgeDegree(e), nE = m.nEdges();
    Edge r = m.separateToNewEdge(m.halfedge(h), m.halfedge(g));
    if (d <= 2) {
      want(same() && r.getIndex() == e && m.nEdges() == nE, "nothing to separate");
      return;
    }
    want(m.nEdges() == nE + 1 && edgeDegree(e) == d - 2 && edgeDegree(r.getIndex()) == 2, "two halfedges move to an edge of their own");
    want(m.heEdgeArr[h] == r.getIndex() && m.heEdgeArr[g] == r.getIndex(), "these two halfedges move");
    want(nx == used(m.heNextArr) && ve == used(m.heVertexArr) && fa == used(m.heFaceArr), "faces are unchanged");
  }
  void flip() {
    size_t e = pick("e", liveEdges(m)), h = m.eHalfedgeArr[e], g = m.heSiblingArr[h];
    bool tri = edgeDegree(e) == 2 && nx[nx[nx[h]]] == h && nx[nx[nx[g]]] == g && nx[h] != g && nx[g] != h;
    if (!tri) {
      bool r = m.flip(m.edge(e), false);
      want(!r && same(), "only edges between two triangles are flipped");
      return;
    }
    size_t a = ve[h], b = ve[nx[h]], c = ve[nx[nx[h]]], d = ve[nx[nx[g]]], f = fa[h], k = fa[g];
    auto pf = poly(f), pk = poly(k);
    bool r = m.flip(m.edge(e), false);
    want(r, "edges between two triangles are flipped");
    auto p = unoriented(poly(f)), q = unoriented(poly(k)), s = unoriented({c, d, a}), t = unoriented({d, c, b});
    want((p == s && q == t) || (p == t && q == s), "the two triangles at the other diagonal");
    want(edgeDegree(e) == 2, "the edge keeps two halfedges");
    for (size_t x = 0; x < nx.size(); x++)
      if (nx[x] != INV && fa[x] != f && fa[x] != k) want(m.heNextArr[x] == nx[x] && m.heVertexArr[x] == ve[x] && m.heFaceArr[x] == fa[x] && m.heOrientArr[x] == orient[x], "other faces are unchanged");
    want(si == used(m.heSiblingArr) && ed == used(m.heEdgeArr), "halfedges keep their edges");
  }
  void separateEdges() {
    m.separateNonmanifoldEdges();
    for (size_t e : liveEdges(m)) want(edgeDegree(e) <= 2, "every edge has at most two halfedges");
    want(nx == used(m.heNextArr) && ve == used(m.heVertexArr) && fa == used(m.heFaceArr), "faces are unchanged");
    want(m.isEdgeManifold(), "the mesh is edge-manifold");
  }
  void separateVertices() {
    for (size_t e : liveEdges(m)) vf_assume(edgeDegree(e) <= 2);
    VertexData<Vertex> parent = m.separateNonmanifoldVertices();
    for (size_t h = 0; h < nx.size(); h++)
      if (nx[h] != INV) want(parent[Vertex(&m, m.heVertexArr[h])].getIndex() == ve[h], "every copy knows its original");
    want(nx == used(m.heNextArr) && fa == used(m.heFaceArr) && ed == used(m.heEdgeArr) && si == used(m.heSiblingArr), "faces and edges are unchanged");
    want(m.isManifold(), "the mesh is manifold");
  }
  void orient_() {
    std::vector<std::vector<size_t>> before;
    for (size_t f : liveFaces(m)) before.push_back(unoriented(poly(f)));
    // faces are nodes, edges between two faces say whether one of them has to be turned: consistent iff orientable
    size_t F = m.nFacesFillCount;
    std::vector<int> turn(F, -1);
    bool possible = true;
    for (size_t s : liveFaces(m)) {
      if (turn[s] >= 0) continue;
      turn[s] = 0;
      std::vector<size_t> todo{s};
      while (!todo.empty()) {
        size_t f = todo.back();
        todo.pop_back();
        for (size_t h : faceCycle(m, m.fHalfedgeArr[f])) {
          size_t g = si[h];
          if (g == h || si[g] != h) continue;
          int t = turn[f] ^ (orient[h] == orient[g]);
          if (turn[fa[g]] < 0) { turn[fa[g]] = t; todo.push_back(fa[g]); }
          else possible &= turn[fa[g]] == t;
        }
      }
    }
    m.greedilyOrientFaces();
    size_t i = 0;
    for (size_t f : liveFaces(m)) want(unoriented(poly(f)) == before[i++], "faces are the same up to orientation");
    want(fa == used(m.heFaceArr) && si == used(m.heSiblingArr) && ed == used(m.heEdgeArr), "halfedges keep their faces and edges");
    if (possible)
      for (size_t e : liveEdges(m)) {
        size_t h = m.eHalfedgeArr[e], g = m.heSiblingArr[h];
        if (g != h && m.heSiblingArr[g] == h) want(m.edge(e).isOriented() && m.heOrientArr[h] != m.heOrientArr[g], "an orientable mesh becomes oriented");
      }
  }
  void finish() {
    std::string p = problemGeneral(m);
    if (check) {
      vf_assert(p.empty(), p.c_str());
      std::string q = countProblem(m);
      vf_assert(q.empty(), q.c_str());
    } else vf_assume(p.empty());
  }
};
static const int NGENERAL = 7;
inline void runGeneral(SurfaceMesh& m, int op, bool check) {
  GRun r(m, check);
  switch (op) {
  case 0: r.invert(); break;
  case 1: r.duplicate(); break;
  case 2: r.separate(); break;
  case 3: r.flip(); break;
  case 4: r.separateEdges(); break;
  case 5: r.separateVertices(); break;
  case 6: r.orient_(); break;
  }
  r.finish();
}
inline void generalHistory(SurfaceMesh& m, size_t maxOps) {
  size_t n = vf_size("history", 0, maxOps);
  for (size_t i = 0; i < n; i++) {
    size_t op = vf_size("hop", 0, NGENERAL);
    if (op == NGENERAL) m.compress();
    else runGeneral(m, (int)op, false);
  }
}
} // namespace zoo
