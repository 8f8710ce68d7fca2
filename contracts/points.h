// surface points on a symbolic triangle mesh
#pragma once
#include "rings.h"
#include "geometrycentral/surface/surface_point.h"
using namespace sm;
static SurfacePoint anyPoint(AM& a, size_t type) {
  switch (type) {
  case 0: return SurfacePoint(a.m().vertex(anyVertex(a, "pv")));
  case 1: {
    size_t e = anyEdge(a, "pe");
    return SurfacePoint(a.m().edge(e), vf_real("pt"));
  }
  default: {
    size_t f = anyFace(a, "pf");
    Vector3 c{vf_real("px"), vf_real("py"), vf_real("pz")};
    return SurfacePoint(a.m().face(f), c);
  }
  }
}
// the cycle of the face of h, for the proof
static void triangle(AM& a, size_t h) {
  vf_instantiate("next", h);
  vf_instantiate("rankF", h);
  vf_instantiate("rankF", a.nx[h]);
  vf_instantiate("rankF", a.nx[a.nx[h]]);
  vf_rewrite("next", a.nx[a.nx[h]], h);
}
static VertexData<double>& values(AM& a) { return anyData<Vertex>(a, "val", a.m().nVerticesCapacityCount); }
static double at(AM& a, VertexData<double>& d, size_t v) { return d.raw()[v]; }

static bool sideOf(AM& a, size_t h, size_t e) { // edge e is a side of the triangle of h
  size_t t = a.fh[a.fa[h]], n = a.nx[t], o = a.nx[n];
  return (t / 2 == e) | (n / 2 == e) | (o / 2 == e);
}

static bool cornerOf(AM& a, size_t f, size_t v) {
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n];
  return (a.ve[h] == v) | (a.ve[n] == v) | (a.ve[o] == v);
}
static bool onEdge(AM& a, const SurfacePoint& p, size_t e) {
  if (p.type == SurfacePointType::Vertex) return (a.ve[2 * e] == p.vertex.getIndex()) | (a.ve[2 * e + 1] == p.vertex.getIndex());
  return (p.type == SurfacePointType::Edge) & (p.edge.getIndex() == e);
}
static bool onFace(AM& a, const SurfacePoint& p, size_t f) {
  if (p.type == SurfacePointType::Vertex) return cornerOf(a, f, p.vertex.getIndex());
  if (p.type == SurfacePointType::Edge) return sideOf(a, a.fh[f], p.edge.getIndex());
  return p.face.getIndex() == f;
}

struct Adj { AM* a; Ring* r; size_t s, k, v, w; };
// while circulating from s: x is the current halfedge, first: still at the beginning, found: the answer so far
static bool circ(void* c, size_t x, bool first, bool found) {
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  bool at = (x < a.H) & (a.nx[x] != NONE) & (a.ve[x] == a.ve[j.s]);
  if (j.k == NONE) return at & !found; // nothing to be found
  return at & imp(first, x == j.s) & imp(!first & ((x == j.s) | (j.r->rel(j.s, j.k) < j.r->rel(j.s, x))), found);
}
static bool noNeighbour(void* c, size_t h) { // no halfedge from v to w
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  return imp((h < a.H) & (a.nx[h] != NONE) & (a.ve[h] == j.v), a.ve[h ^ 1] != j.w);
}
// faces of a vertex: the iterator passes over boundary loops
static bool passOver(void* c, size_t x, size_t e) { // from e to x, neither k nor the start s is passed over
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  bool at = (x < a.H) & (a.nx[x] != NONE) & (a.ve[x] == a.ve[j.s]) & ((j.r->rel(e, j.s) >= j.r->rel(e, x)));
  if (j.k != NONE) at = at & imp(a.fa[j.k] < a.F, j.r->rel(e, j.k) >= j.r->rel(e, x));
  return at;
}
static bool circE(void* c, size_t x, bool first, bool) { // nothing found yet
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  bool at = (x < a.H) & (a.nx[x] != NONE) & (a.ve[x] == a.ve[j.s]);
  if (j.k == NONE) return at;
  return at & imp(first, x == j.s) & imp(!first, (x != j.s) & (j.r->rel(j.s, j.k) >= j.r->rel(j.s, x)));
}

#ifdef VF_NATIVE
typedef std::map<size_t, double> Loc;
static SurfacePoint pickPoint(SurfaceMesh& m) {
  switch (vf_size("type", 0, 2)) {
  case 0: return SurfacePoint(m.vertex(zoo::pick("v", zoo::liveVerts(m))));
  case 1: return SurfacePoint(m.edge(zoo::pick("e", zoo::liveEdges(m))), std::ldexp(vf_size("t", 0, 64), -6));
  }
  double x = std::ldexp(vf_size("x", 0, 64), -6), y = (1 - x) * std::ldexp(vf_size("y", 0, 64), -6);
  return SurfacePoint(m.face(zoo::pick("f", zoo::liveFaces(m))), Vector3{x, y, 1 - x - y});
}
static std::vector<size_t> sidesOf(SurfaceMesh& m, size_t f) { return zoo::faceCycle(m, m.fHalfedgeArr[f]); }
static Loc where(const SurfacePoint& p) {
  Loc l;
  if (p.type == SurfacePointType::Vertex) l[p.vertex.getIndex()] = 1;
  if (p.type == SurfacePointType::Edge) {
    Halfedge h = p.edge.halfedge();
    SurfaceMesh& m = *p.edge.getMesh();
    l[m.heVertexArr[h.getIndex()]] += 1 - p.tEdge;
    l[m.heVertexArr[m.heNextArr[h.getIndex()]]] += p.tEdge;
  }
  if (p.type == SurfacePointType::Face) {
    SurfaceMesh& m = *p.face.getMesh();
    auto s = sidesOf(m, p.face.getIndex());
    for (size_t i = 0; i < 3; i++) l[m.heVertexArr[s[i]]] += p.faceCoords[i];
  }
  for (auto it = l.begin(); it != l.end();) it = std::fabs(it->second) < 1e-12 ? l.erase(it) : std::next(it);
  return l;
}
static bool close(const Loc& a, const Loc& b) {
  if (a.size() != b.size()) return false;
  for (auto& x : a)
    if (!b.count(x.first) || std::fabs(b.at(x.first) - x.second) > 1e-9) return false;
  return true;
}
static bool touches(SurfaceMesh& m, const SurfacePoint& p, size_t f) { // f is adjacent to the element of p
  if (p.type == SurfacePointType::Face) return p.face.getIndex() == f;
  for (size_t h : sidesOf(m, f)) {
    if (p.type == SurfacePointType::Vertex && m.heVertexArr[h] == p.vertex.getIndex()) return true;
    if (p.type == SurfacePointType::Edge && m.halfedge(h).edge() == p.edge) return true;
  }
  return false;
}
static std::set<size_t> ends(SurfaceMesh& m, size_t e) {
  size_t h = m.edge(e).halfedge().getIndex();
  return {m.heVertexArr[h], m.heVertexArr[m.heNextArr[h]]};
}
static std::set<size_t> edgesOf(SurfaceMesh& m, const SurfacePoint& p) { // the edges p is on
  std::set<size_t> r;
  for (size_t e : zoo::liveEdges(m))
    if ((p.type == SurfacePointType::Edge && p.edge.getIndex() == e) || (p.type == SurfacePointType::Vertex && ends(m, e).count(p.vertex.getIndex()))) r.insert(e);
  return r;
}
#endif
