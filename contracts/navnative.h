// Bounded native oracle for C06: every range, loop, predicate and index getter against the raw connectivity arrays.
#pragma once
#include "meshops.h"
namespace zoo {
typedef std::multiset<size_t> MS;
template <class R> MS collect(R r) {
  MS s;
  size_t guard = 0;
  for (auto e : r) {
    s.insert(e.getIndex());
    if (++guard > 100000) break;
  }
  return s;
}
template <class R> std::vector<size_t> collectV(R r) {
  std::vector<size_t> s;
  for (auto e : r) {
    s.push_back(e.getIndex());
    if (s.size() > 100000) break;
  }
  return s;
}
inline MS ms(const std::vector<size_t>& v) { return MS(v.begin(), v.end()); }
#define REQ(c, w)                                                                                                      \
  do {                                                                                                                 \
    if (!(c)) return std::string(w);                                                                                   \
  } while (0)
inline std::string navProblem(SurfaceMesh& m) {
  size_t H = m.nHalfedgesFillCount, V = m.nVerticesFillCount, E = m.nEdgesFillCount, F = m.nFacesFillCount, C = m.nFacesCapacityCount, B = m.nBoundaryLoopsFillCount;
  bool im = m.useImplicitTwinFlag;
  auto live = [&](size_t h) { return m.heNextArr[h] != INV; };
  auto tip = [&](size_t h) { return m.heVertexArr[m.heNextArr[h]]; };
  auto edge = [&](size_t h) { return im ? h / 2 : m.heEdgeArr[h]; };
  auto interior = [&](size_t h) { return m.heFaceArr[h] < F; };
  std::vector<size_t> hs, ih, xh, vs, es, fs, bs;
  std::vector<std::vector<size_t>> out(V), in(V), eh(E);
  for (size_t h = 0; h < H; h++)
    if (live(h)) {
      hs.push_back(h);
      (interior(h) ? ih : xh).push_back(h);
      out[m.heVertexArr[h]].push_back(h);
      in[tip(h)].push_back(h);
      eh[edge(h)].push_back(h);
    }
  vs = liveVerts(m); es = liveEdges(m); fs = liveFaces(m);
  for (size_t b = 0; b < B; b++)
    if (m.fHalfedgeArr[C - 1 - b] != INV) bs.push_back(b);
  // ranges
  REQ(collectV(m.halfedges()) == hs, "halfedges() visits each live halfedge once");
  REQ(collectV(m.interiorHalfedges()) == ih, "interiorHalfedges() visits each live interior halfedge once");
  REQ(collectV(m.exteriorHalfedges()) == xh, "exteriorHalfedges() visits each live exterior halfedge once");
  REQ(collectV(m.corners()) == ih, "corners() visits each live corner once");
  REQ(collectV(m.vertices()) == vs, "vertices() visits each live vertex once");
  REQ(collectV(m.edges()) == es, "edges() visits each live edge once");
  REQ(collectV(m.faces()) == fs, "faces() visits each live face once");
  REQ(collectV(m.boundaryLoops()) == bs, "boundaryLoops() visits each live boundary loop once");
  REQ(hs.size() == m.nHalfedges() && ih.size() == m.nInteriorHalfedges() && xh.size() == m.nExteriorHalfedges() && ih.size() == m.nCorners() && vs.size() == m.nVertices() &&
          es.size() == m.nEdges() && fs.size() == m.nFaces() && bs.size() == m.nBoundaryLoops(), "ranges have the reported sizes");
  // halfedges
  for (size_t i : hs) {
    Halfedge h = m.halfedge(i);
    REQ(h.next().getIndex() == m.heNextArr[i] && h.vertex().getIndex() == m.heVertexArr[i] && h.tailVertex() == h.vertex() && h.tipVertex().getIndex() == tip(i), "successor, tail and tip");
    REQ(h.edge().getIndex() == edge(i) && h.face().getIndex() == m.heFaceArr[i] && h.corner().getIndex() == i && h.corner().halfedge() == h && h.corner().vertex() == h.vertex() && h.corner().face() == h.face(), "edge, face and corner");
    REQ(h.prevOrbitFace().next() == h, "prevOrbitFace");
    REQ(h.isInterior() == interior(i), "isInterior");
    if (im) {
      REQ(h.twin().twin() == h && h.twin() != h && h.prevOrbitVertex() == h.prevOrbitFace() && h.orientation() != h.twin().orientation(), "twin and orientation");
      REQ(h.nextOutgoingNeighbor() == h.twin().next() && h.nextIncomingNeighbor() == h.next().twin(), "neighbours around a vertex");
    }
    REQ(h.nextOutgoingNeighbor().vertex() == h.vertex() && h.nextIncomingNeighbor().tipVertex() == h.tipVertex(), "neighbours share the vertex");
  }
  // vertices
  for (size_t i : vs) {
    Vertex v = m.vertex(i);
    REQ(collect(v.outgoingHalfedges()) == ms(out[i]), "outgoingHalfedges visits each outgoing halfedge once");
    REQ(collect(v.incomingHalfedges()) == ms(in[i]), "incomingHalfedges visits each incoming halfedge once");
    MS ed, nb, fa, co;
    bool bd = false;
    for (size_t e : es) {
      size_t h = im ? 2 * e : m.eHalfedgeArr[e];
      size_t a = m.heVertexArr[h], b = tip(h);
      if (a == i) ed.insert(e), nb.insert(b);
      if (b == i) ed.insert(e), nb.insert(a);
      if ((a == i || b == i) && (im ? !interior(2 * e) || !interior(2 * e + 1) : eh[e].size() == 1)) bd = true;
    }
    for (size_t h : out[i])
      if (interior(h)) fa.insert(m.heFaceArr[h]), co.insert(h);
    REQ(collect(v.adjacentEdges()) == ed, "adjacentEdges visits each incident edge end once");
    REQ(collect(v.adjacentVertices()) == nb, "adjacentVertices visits the other end of each incident edge");
    REQ(collect(v.adjacentFaces()) == fa, "adjacentFaces visits each incident face corner once");
    REQ(collect(v.adjacentCorners()) == co, "adjacentCorners visits each incident corner once");
    REQ(v.degree() == ed.size() && v.faceDegree() == fa.size(), "degrees count the incident elements");
    REQ(v.isBoundary() == bd, "a vertex is on the boundary iff one of its edges is");
    REQ(v.halfedge().vertex() == v, "halfedge of a vertex");
    std::set<size_t> conn;
    for (size_t j : vs) {
      Edge c = m.connectingEdge(v, m.vertex(j));
      if (nb.count(j)) REQ(c != Edge() && ((c.firstVertex() == v && c.secondVertex().getIndex() == j) || (c.secondVertex() == v && c.firstVertex().getIndex() == j)), "connectingEdge joins the two vertices");
      else REQ(c == Edge(), "connectingEdge finds nothing between vertices without an edge");
    }
  }
  // edges
  size_t nonman = 0, nonor = 0, bnd = 0;
  std::map<size_t, bool> eMan, eOr;
  for (size_t i : es) {
    Edge e = m.edge(i);
    MS ih2, fa;
    for (size_t h : eh[i])
      if (interior(h)) ih2.insert(h), fa.insert(m.heFaceArr[h]);
    REQ(collect(e.adjacentHalfedges()) == ms(eh[i]), "adjacentHalfedges of an edge");
    REQ(collect(e.adjacentInteriorHalfedges()) == ih2, "adjacentInteriorHalfedges of an edge");
    REQ(collect(e.adjacentFaces()) == fa, "adjacentFaces of an edge");
    REQ(e.degree() == ih2.size(), "degree of an edge");
    REQ(e.halfedge().edge() == e && e.firstVertex() == e.halfedge().tailVertex() && e.secondVertex() == e.halfedge().tipVertex(), "end points of an edge");
    REQ(e.otherVertex(e.firstVertex()) == e.secondVertex() && e.otherVertex(e.secondVertex()) == e.firstVertex(), "otherVertex");
    bool b = ih2.size() == 1;
    REQ(e.isBoundary() == b, "boundary edges have one side");
    eMan[i] = ih2.size() <= 2;
    REQ(e.isManifold() == eMan[i], "manifold edges have at most two sides");
    eOr[i] = eMan[i];
    if (ih2.size() == 2) {
      size_t p = *ih2.begin(), q = *++ih2.begin();
      if (m.heVertexArr[p] != tip(p)) eOr[i] = m.heVertexArr[p] != m.heVertexArr[q];
      else eOr[i] = e.isOriented();
    }
    REQ(e.isOriented() == eOr[i], "the sides of an oriented edge run in opposite directions");
    nonman += !eMan[i]; nonor += !eOr[i]; bnd += b;
  }
  // faces
  bool tri = true;
  std::vector<std::vector<size_t>> lists;
  std::map<size_t, size_t> dense;
  for (size_t k = 0; k < vs.size(); k++) dense[vs[k]] = k;
  for (size_t i : fs) {
    Face f = m.face(i);
    std::vector<size_t> c = faceCycle(m, m.fHalfedgeArr[i]), vv, ee, pl;
    MS ff;
    for (size_t h : c) {
      vv.push_back(m.heVertexArr[h]);
      pl.push_back(dense[m.heVertexArr[h]]);
      ee.push_back(edge(h));
      for (size_t g : eh[edge(h)])
        if (g != h && interior(g)) ff.insert(m.heFaceArr[g]);
    }
    lists.push_back(pl);
    REQ(collectV(f.adjacentHalfedges()) == c && collectV(f.adjacentVertices()) == vv && collectV(f.adjacentEdges()) == ee && collectV(f.adjacentCorners()) == c, "loops around a face visit its sides in order");
    REQ(collect(f.adjacentFaces()) == ff, "adjacentFaces of a face");
    REQ(f.degree() == c.size() && f.isTriangle() == (c.size() == 3) && !f.isBoundaryLoop(), "degree of a face");
    tri = tri && c.size() == 3;
  }
  for (size_t i : bs) {
    BoundaryLoop l = m.boundaryLoop(i);
    std::vector<size_t> c = faceCycle(m, m.fHalfedgeArr[C - 1 - i]), vv, ee;
    for (size_t h : c) vv.push_back(m.heVertexArr[h]), ee.push_back(edge(h));
    REQ(collectV(l.adjacentHalfedges()) == c && collectV(l.adjacentVertices()) == vv && collectV(l.adjacentEdges()) == ee && l.degree() == c.size(), "loops around a boundary loop visit its sides in order");
    REQ(l.asFace().isBoundaryLoop() && l.asFace().asBoundaryLoop() == l && l.halfedge().face() == l.asFace(), "a boundary loop as a face");
  }
  // the whole mesh
  REQ(m.hasBoundary() == (bnd > 0), "hasBoundary");
  REQ(m.isTriangular() == tri, "isTriangular");
  REQ(m.isEdgeManifold() == (nonman == 0), "isEdgeManifold");
  REQ(m.isOriented() == (nonor == 0), "isOriented");
  REQ(m.getFaceVertexList() == lists, "getFaceVertexList");
  // vertex manifoldness: all edges manifold and the face corners joined through edges at the vertex; distinct vertices per face
  bool distinct = true, allMan = nonman == 0;
  for (auto l : lists) { std::set<size_t> s(l.begin(), l.end()); distinct = distinct && s.size() == l.size(); }
  if (distinct) {
    auto st = m.getVertexManifoldStatus();
    for (size_t i : vs) {
      std::map<size_t, size_t> comp; // face -> component
      std::map<size_t, std::vector<size_t>> byEdge;
      bool man = true, ori = true;
      for (size_t e : es) {
        size_t h = im ? 2 * e : m.eHalfedgeArr[e];
        if (m.heVertexArr[h] != i && tip(h) != i) continue;
        if (!eMan[e]) man = false;
        if (!eOr[e]) ori = false;
        for (size_t g : eh[e]) if (interior(g)) { comp[m.heFaceArr[g]] = m.heFaceArr[g]; byEdge[e].push_back(m.heFaceArr[g]); }
      }
      for (size_t r = 0; r < comp.size(); r++)
        for (auto& x : byEdge) {
          size_t lo = INV;
          for (size_t f : x.second) lo = std::min(lo, comp[f]);
          for (size_t f : x.second) comp[f] = lo;
        }
      std::set<size_t> cs;
      for (auto& x : comp) cs.insert(x.second);
      if (cs.size() != 1) man = false;
      REQ(m.vertex(i).isManifold() == man, "a vertex is manifold iff its faces form one fan");
      REQ(st[m.vertex(i)] == man, "getVertexManifoldStatus");
      REQ(m.vertex(i).isManifoldAndOriented() == (man && ori), "isManifoldAndOriented");
      allMan = allMan && man;
    }
    REQ(m.isManifold() == allMan, "isManifold");
  }
  // components
  std::map<size_t, size_t> comp;
  for (size_t v : vs) comp[v] = v;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t h : hs) {
      size_t &a = comp[m.heVertexArr[h]], &b = comp[tip(h)];
      if (a != b) a = b = std::min(a, b), ch = true;
    }
  }
  std::set<size_t> cs;
  for (auto& x : comp) cs.insert(x.second);
  REQ(m.nConnectedComponents() == cs.size(), "nConnectedComponents");
  size_t niv = 0;
  auto vi = m.getVertexIndices();
  auto ivi = m.getInteriorVertexIndices();
  auto vb = m.getVertexBoundaryStatus();
  for (size_t k = 0; k < vs.size(); k++) {
    Vertex v = m.vertex(vs[k]);
    REQ(vi[v] == k, "getVertexIndices");
    REQ(vb[v] == v.isBoundary(), "getVertexBoundaryStatus");
    REQ(ivi[v] == (v.isBoundary() ? INV : niv), "getInteriorVertexIndices");
    niv += !v.isBoundary();
  }
  REQ(m.nInteriorVertices() == niv, "nInteriorVertices");
  auto hi = m.getHalfedgeIndices();
  for (size_t k = 0; k < hs.size(); k++) REQ(hi[m.halfedge(hs[k])] == k, "getHalfedgeIndices");
  auto ci = m.getCornerIndices();
  for (size_t k = 0; k < ih.size(); k++) REQ(ci[m.corner(ih[k])] == k, "getCornerIndices");
  auto ei = m.getEdgeIndices();
  auto em = m.getEdgeManifoldStatus();
  auto eo = m.getEdgeOrientedStatus();
  for (size_t k = 0; k < es.size(); k++) {
    REQ(ei[m.edge(es[k])] == k, "getEdgeIndices");
    REQ(em[m.edge(es[k])] == eMan[es[k]] && eo[m.edge(es[k])] == eOr[es[k]], "edge status");
  }
  auto fi = m.getFaceIndices();
  for (size_t k = 0; k < fs.size(); k++) REQ(fi[m.face(fs[k])] == k, "getFaceIndices");
  auto bi = m.getBoundaryLoopIndices();
  for (size_t k = 0; k < bs.size(); k++) REQ(bi[m.boundaryLoop(bs[k])] == k, "getBoundaryLoopIndices");
  // flat iteration cache
  for (int inc = 0; inc < 2; inc++) {
    std::vector<size_t> he, st;
    m.generateVertexIterationCache(he, st, inc, true);
    REQ(st.size() == V + 1, "iteration cache size");
    for (size_t v = 0; v < V; v++) {
      REQ(st[v] <= st[v + 1] && st[v + 1] <= he.size(), "iteration cache offsets");
      MS s(he.begin() + st[v], he.begin() + st[v + 1]);
      REQ(s == ms(inc ? in[v] : out[v]), "iteration cache lists the halfedges of each vertex");
    }
  }
  return "";
}
#undef REQ
} // namespace zoo
