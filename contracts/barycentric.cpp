// C11: barycentric vectors on every valid triangle mesh.
#include "points.h"
#include "geometrycentral/surface/barycentric_vector.h"
#ifdef VF_NATIVE
#include "geometrycentral/surface/edge_length_geometry.h"
#endif
typedef BarycentricVector BV;
static AM* M; // the mesh, for the contracts of the callees
static BV anyVec(AM& a, size_t type, bool second = false) {
  switch (type) {
  case 0: return BV(a.m().vertex(anyVertex(a, second ? "wv" : "uv")));
  case 1: {
    size_t e = anyEdge(a, second ? "we" : "ue");
    double c = vf_real(second ? "wc" : "uc");
    return BV(a.m().edge(e), Vector2{-c, c});
  }
  default: {
    size_t f = anyFace(a, second ? "wf" : "uf");
    double x = vf_real(second ? "wx" : "ux"), y = vf_real(second ? "wy" : "uy");
    return BV(a.m().face(f), Vector3{x, y, -x - y});
  }
  }
}
// the change of a quantity at vertices along the vector
static double along(AM& a, const BV& u, VertexData<double>& d) {
  if (u.type == BarycentricVectorType::Vertex) return 0;
  if (u.type == BarycentricVectorType::Edge) {
    size_t e = u.edge.getIndex();
    return u.edgeCoords.x * at(a, d, a.ve[2 * e]) + u.edgeCoords.y * at(a, d, a.ve[2 * e + 1]);
  }
  size_t h = a.fh[u.face.getIndex()];
  return u.faceCoords.x * at(a, d, a.ve[h]) + u.faceCoords.y * at(a, d, a.ve[a.nx[h]]) + u.faceCoords.z * at(a, d, a.ve[a.nx[a.nx[h]]]);
}
static bool onEdge(AM& a, const BV& u, size_t e) {
  if (u.type == BarycentricVectorType::Vertex) return (a.ve[2 * e] == u.vertex.getIndex()) | (a.ve[2 * e + 1] == u.vertex.getIndex());
  return (u.type == BarycentricVectorType::Edge) & (u.edge.getIndex() == e);
}
static bool onFace(AM& a, const BV& u, size_t f) {
  if (u.type == BarycentricVectorType::Vertex) return cornerOf(a, f, u.vertex.getIndex());
  if (u.type == BarycentricVectorType::Edge) return sideOf(a, a.fh[f], u.edge.getIndex());
  return u.face.getIndex() == f;
}
// contracts of sharedEdge / sharedFace: nothing, or an element both are on (proved for points below C10, for vectors below)
static bool foundE, foundF;
static size_t sharedF;
template <class T> Edge sharedEdgeC(const T& p, const T& q) {
  foundE = vf_bool("foundEdge");
  if (!foundE) return Edge();
  size_t e = anyEdge(*M, "sharedEdge");
  vf_assume(onEdge(*M, p, e));
  vf_assume(onEdge(*M, q, e));
  return M->m().edge(e);
}
template <class T> Face sharedFaceC(const T& p, const T& q) {
  foundF = vf_bool("foundFace");
  if (!foundF) return Face();
  size_t f = anyFace(*M, "sharedFace");
  triangle(*M, M->fh[f]);
  vf_assume(onFace(*M, p, f));
  vf_assume(onFace(*M, q, f));
  sharedF = f;
  return M->m().face(f);
}
template <class T> static void modular(AM& a) {
  M = &a;
  foundE = foundF = false;
  if (std::is_same<T, BV>::value) {
    vf_replace("geometrycentral::surface::sharedEdge(geometrycentral::surface::BarycentricVector", (void (*)()) & sharedEdgeC<T>, 0);
    vf_replace("geometrycentral::surface::sharedFace(geometrycentral::surface::BarycentricVector", (void (*)()) & sharedFaceC<T>, 0);
  } else {
    vf_replace("geometrycentral::surface::sharedEdge(geometrycentral::surface::SurfacePoint", (void (*)()) & sharedEdgeC<T>, 0);
    vf_replace("geometrycentral::surface::sharedFace(geometrycentral::surface::SurfacePoint", (void (*)()) & sharedFaceC<T>, 0);
  }
}

// ------------------------------------------------------------------------------------------------ construction, re-expression
static void difference(size_t tp, size_t tq) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  SurfacePoint p = anyPoint(a, tp), q;
  if (tq == 0) q = SurfacePoint(a.m().vertex(anyVertex(a, "qv")));
  if (tq == 1) { size_t e = anyEdge(a, "qe"); q = SurfacePoint(a.m().edge(e), vf_real("qt")); }
  if (tq == 2) { size_t f = anyFace(a, "qf"); Vector3 c{vf_real("qx"), vf_real("qy"), vf_real("qz")}; q = SurfacePoint(a.m().face(f), c); }
  modular<SurfacePoint>(a);
  bool threw = false;
  BV u;
  try {
    u = BV(p, q);
  } catch (...) {
    threw = true;
  }
  if (threw) {
    vf_assert(!foundE & !foundF, "refused only when the points share no face");
    return;
  }
  vf_eq(along(a, u, d), q.interpolate(d) - p.interpolate(d), "the difference of the points");
  vf_assert((u.type == BarycentricVectorType::Vertex) | (u.type == BarycentricVectorType::Edge) | (u.type == BarycentricVectorType::Face), "a valid type");
  vf_reach("built");
}
VF_CONTRACT(C11, points_vv) { difference(0, 0); }
VF_CONTRACT(C11, points_ve) { difference(0, 1); }
VF_CONTRACT(C11, points_vf) { difference(0, 2); }
VF_CONTRACT(C11, points_ev) { difference(1, 0); }
VF_CONTRACT(C11, points_ee) { difference(1, 1); }
VF_CONTRACT(C11, points_ef) { difference(1, 2); }
VF_CONTRACT(C11, points_fv) { difference(2, 0); }
VF_CONTRACT(C11, points_fe) { difference(2, 1); }
VF_CONTRACT(C11, points_ff) { difference(2, 2); }

static void someFace(size_t type) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  BV u = anyVec(a, type);
  if (type == 0) vf_assume(a.fa[a.vh[u.vertex.getIndex()]] < a.F);
  if (type == 1) triangle(a, 2 * u.edge.getIndex());
  BV w = u.inSomeFace();
  vf_assert((w.type == BarycentricVectorType::Face) & (w.face.getMesh() == &a.m()), "a face vector");
  vf_assert(w.face.getIndex() < a.F, "in a real face");
  vf_eq(along(a, w, d), along(a, u, d), "the same vector");
  vf_eq(w.faceCoords.x + w.faceCoords.y + w.faceCoords.z, 0, "coordinates sum to zero");
}
VF_CONTRACT(C11, inSomeFace_vertex) { someFace(0); }
VF_CONTRACT(C11, inSomeFace_edge) { someFace(1); }
VF_CONTRACT(C11, inSomeFace_face) { someFace(2); }
static void inFace(size_t type) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  BV u = anyVec(a, type);
  size_t f = anyFace(a, "target");
  triangle(a, a.fh[f]);
  BV w;
  bool threw = false;
  try {
    w = u.inFace(a.m().face(f));
  } catch (...) {
    threw = true;
  }
  vf_assert(threw == !onFace(a, u, f), "refused exactly when the face is not adjacent");
  if (threw) return;
  vf_assert((w.type == BarycentricVectorType::Face) & (w.face == a.m().face(f)) & (w.face.getMesh() == &a.m()), "in the requested face");
  vf_eq(along(a, w, d), along(a, u, d), "the same vector");
  vf_eq(w.faceCoords.x + w.faceCoords.y + w.faceCoords.z, 0, "coordinates sum to zero");
  vf_reach("converted");
}
VF_CONTRACT(C11, inFace_vertex) { inFace(0); }
VF_CONTRACT(C11, inFace_edge) { inFace(1); }
VF_CONTRACT(C11, inFace_face) { inFace(2); }
VF_CONTRACT(C11, inEdge) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t type = vf_size("type", 0, 2);
  BV u = anyVec(a, type), w;
  size_t e = anyEdge(a, "target");
  bool threw = false;
  try {
    w = u.inEdge(a.m().edge(e));
  } catch (...) {
    threw = true;
  }
  vf_assert(threw == !onEdge(a, u, e), "refused exactly when the vector is not on the edge");
  if (threw) return;
  vf_assert((w.type == BarycentricVectorType::Edge) & (w.edge == a.m().edge(e)), "in the requested edge");
  vf_eq(along(a, w, d), along(a, u, d), "the same vector");
  vf_eq(w.edgeCoords.x + w.edgeCoords.y, 0, "coordinates sum to zero");
}
VF_CONTRACT(C11, sideVector) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t h = anyHe(a), f = anyFace(a);
  triangle(a, a.fh[f]);
  bool side = sideOf(a, a.fh[f], h / 2), threw = false;
  if (side) vf_assume(a.ve[h] != a.ve[h ^ 1]);
  BV u;
  try {
    u = BV(a.m().halfedge(h), a.m().face(f));
  } catch (...) {
    threw = true;
  }
  vf_assert(threw == !side, "refused exactly when the halfedge is not on a side of the face");
  if (threw) return;
  vf_assert((u.type == BarycentricVectorType::Face) & (u.face == a.m().face(f)), "in the face");
  vf_eq(along(a, u, d), at(a, d, a.ve[h ^ 1]) - at(a, d, a.ve[h]), "from the tail to the tip of the halfedge");
  vf_reach("built");
}
VF_CONTRACT(C11, zero) {
  AM& a = *anyTriMesh();
  size_t f = anyFace(a);
  BV u(a.m().face(f));
  vf_assert((u.type == BarycentricVectorType::Face) & (u.face == a.m().face(f)), "in the face");
  vf_assert((u.faceCoords.x == 0) & (u.faceCoords.y == 0) & (u.faceCoords.z == 0), "the zero vector");
}

// ------------------------------------------------------------------------------------------------ vector space
static void linear(size_t tu, size_t tw) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  BV u = anyVec(a, tu), w = anyVec(a, tw, true), r;
  size_t op = vf_size("op", 0, 3);
  modular<BV>(a);
  bool threw = false;
  try {
    if (op == 0) r = u + w;
    else if (op == 1) r = u - w;
    else {
      r = u;
      BV& s = op == 2 ? (r += w) : (r -= w);
      vf_assert(&s == &r, "returns itself");
    }
  } catch (...) {
    threw = true;
  }
  if (threw) {
    vf_assert(!foundE & !foundF, "refused only when the vectors share no face");
    return;
  }
  vf_eq(along(a, r, d), op % 2 == 0 ? along(a, u, d) + along(a, w, d) : along(a, u, d) - along(a, w, d), "sum or difference");
  vf_reach("added");
}
VF_CONTRACT(C11, linear_vv) { linear(0, 0); }
VF_CONTRACT(C11, linear_ve) { linear(0, 1); }
VF_CONTRACT(C11, linear_vf) { linear(0, 2); }
VF_CONTRACT(C11, linear_ev) { linear(1, 0); }
VF_CONTRACT(C11, linear_ee) { linear(1, 1); }
VF_CONTRACT(C11, linear_ef) { linear(1, 2); }
VF_CONTRACT(C11, linear_fv) { linear(2, 0); }
VF_CONTRACT(C11, linear_fe) { linear(2, 1); }
VF_CONTRACT(C11, linear_ff) { linear(2, 2); }
VF_CONTRACT(C11, scaling) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t type = vf_size("type", 0, 2);
  BV u = anyVec(a, type);
  double s = vf_real("s"), x = along(a, u, d);
  vf_eq(along(a, u * s, d), x * s, "times a number");
  vf_eq(along(a, s * u, d), s * x, "a number times");
  vf_eq(along(a, -u, d), -x, "negative");
  BV r = u;
  vf_assert(&(r *= s) == &r, "returns itself");
  vf_eq(along(a, r, d), x * s, "scaled in place");
  vf_assert((u * s).type == u.type, "same element");
  vf_assume(s != 0);
  vf_eq(along(a, u / s, d) * s, x, "divided by a number");
  BV q = u;
  vf_assert(&(q /= s) == &q, "returns itself");
  vf_eq(along(a, q, d) * s, x, "divided in place");
}
VF_CONTRACT(C11, normalize) {
  AM& a = *anyTriMesh();
  size_t e = anyEdge(a), f = anyFace(a);
  Vector3 c{vf_real("x"), vf_real("y"), vf_real("z")};
  Vector2 b{vf_real("s"), vf_real("t")};
  BV u(a.m().face(f), c), w(a.m().edge(e), b);
  BV un = u.normalizedDisplacement(), wn = w.normalizedDisplacement();
  vf_eq(un.faceCoords.x + un.faceCoords.y + un.faceCoords.z, 0, "sums to zero");
  vf_eq(un.faceCoords.x - un.faceCoords.y, c.x - c.y, "shifted uniformly");
  vf_eq(un.faceCoords.y - un.faceCoords.z, c.y - c.z, "shifted uniformly");
  vf_eq(wn.edgeCoords.x + wn.edgeCoords.y, 0, "sums to zero");
  vf_eq(wn.edgeCoords.x - wn.edgeCoords.y, b.x - b.y, "shifted uniformly");
  vf_assert((un.face == u.face) & (wn.edge == w.edge), "on the same element");
  u.normalizeDisplacement();
  w.normalizeDisplacement();
  vf_assert((u == un) & (w == wn), "in place");
}
VF_CONTRACT(C11, equality) {
  AM& a = *anyTriMesh();
  size_t tu = vf_size("tu", 0, 2), tw = vf_size("tw", 0, 2);
  BV u = anyVec(a, tu), w = anyVec(a, tw, true);
  bool same = tu == tw && (tu == 0 ? u.vertex.getIndex() == w.vertex.getIndex()
                         : tu == 1 ? (u.edge.getIndex() == w.edge.getIndex()) & (u.edgeCoords.x == w.edgeCoords.x) & (u.edgeCoords.y == w.edgeCoords.y)
                                   : (u.face.getIndex() == w.face.getIndex()) & (u.faceCoords.x == w.faceCoords.x) & (u.faceCoords.y == w.faceCoords.y) & (u.faceCoords.z == w.faceCoords.z));
  vf_assert((u == w) == same, "equal vectors have the same element and coordinates");
  vf_assert((u != w) == !same, "different means not equal");
}

// ------------------------------------------------------------------------------------------------ shared elements
static void shared(size_t tu, size_t tw) { // all but two vertices
  AM& a = *anyTriMesh();
  BV u = anyVec(a, tu), w = anyVec(a, tw, true);
  if (tu == 2) triangle(a, a.fh[u.face.getIndex()]);
  if (tw == 2) triangle(a, a.fh[w.face.getIndex()]);
  size_t c = tu == 1 ? u.edge.getIndex() : tw == 1 ? w.edge.getIndex() : 0;
  if (tu != 2 && tw != 2) {
    triangle(a, 2 * c);
    triangle(a, 2 * c + 1);
  }
  Edge e = sharedEdge(u, w);
  bool wantE = ((tu == 1) | (tw == 1)) && onEdge(a, u, c) && onEdge(a, w, c);
  vf_assert((e != Edge()) == wantE, "a shared edge is found exactly when there is one");
  if (wantE) vf_assert(e == a.m().edge(c), "the shared edge");
  Face f = sharedFace(u, w);
  bool want;
  if (tu == 2) want = onFace(a, w, u.face.getIndex());
  else if (tw == 2) want = onFace(a, u, w.face.getIndex());
  else want = ((a.fa[2 * c] < a.F) && onFace(a, u, a.fa[2 * c]) && onFace(a, w, a.fa[2 * c])) || ((a.fa[2 * c + 1] < a.F) && onFace(a, u, a.fa[2 * c + 1]) && onFace(a, w, a.fa[2 * c + 1]));
  vf_assert((f != Face()) == want, "a shared face is found exactly when there is one");
  if (!want) return;
  vf_assert((f.getIndex() < a.F) & (f.getMesh() == &a.m()), "a face of the mesh");
  vf_assert(!f.isDead(), "a live face");
  vf_assert(onFace(a, u, f.getIndex()), "adjacent to the first vector");
  vf_assert(onFace(a, w, f.getIndex()), "adjacent to the second vector");
  vf_reach("found");
}
VF_CONTRACT(C11, shared_ve) { shared(0, 1); }
VF_CONTRACT(C11, shared_vf) { shared(0, 2); }
VF_CONTRACT(C11, shared_ev) { shared(1, 0); }
VF_CONTRACT(C11, shared_ee) { shared(1, 1); }
VF_CONTRACT(C11, shared_ef) { shared(1, 2); }
VF_CONTRACT(C11, shared_fv) { shared(2, 0); }
VF_CONTRACT(C11, shared_fe) { shared(2, 1); }
VF_CONTRACT(C11, shared_ff) { shared(2, 2); }
static void sharedVV(bool adjacent) {
  AM& a = *anyTriMesh();
  Ring& r = *rings(a);
  size_t v = anyVertex(a, "v"), w = anyVertex(a, "w");
  size_t k = adjacent ? anyHe(a, "k") : NONE;
  Adj& j = *new Adj{&a, &r, a.vh[v], k, v, w};
  if (adjacent) {
    vf_assume((a.ve[k] == v) & (a.ve[k ^ 1] == w));
    vf_instantiate("pos", k);
  } else
    all("next,vert", noNeighbour, &j, a.H);
  vf_instantiate("pos", j.s);
  vf_loop_flags("sharedEdge(geometrycentral::surface::BarycentricVector", circE, &j);
  Edge e = sharedEdge(BV(a.m().vertex(v)), BV(a.m().vertex(w)));
  size_t i = e.getIndex();
  if (!adjacent && e != Edge()) {
    vf_instantiate("next", 2 * i);
    vf_instantiate("next", 2 * i + 1);
  }
  vf_assert((e != Edge()) == adjacent, "a shared edge is found exactly when there is one");
  vf_reach("answered");
  if (!adjacent) return;
  vf_assert(i < a.E, "an edge of the mesh");
  vf_assert(((a.ve[2 * i] == v) & (a.ve[2 * i + 1] == w)) | ((a.ve[2 * i] == w) & (a.ve[2 * i + 1] == v)), "it joins the vertices");
}
VF_CONTRACT(C11, shared_vv_yes) { sharedVV(true); }
VF_CONTRACT(C11, shared_vv_no) { sharedVV(false); }

// ------------------------------------------------------------------------------------------------ metric
static IntrinsicGeometryInterface& lengths(AM& a) {
#ifdef VF_NATIVE
  EdgeData<double> l(a.m());
  for (Edge e : a.m().edges()) l[e] = 1. + std::ldexp((double)vf_size("l", 0, 900), -10);
  auto* g = new EdgeLengthGeometry(a.m(), l);
  if (vf_bool("required")) g->requireEdgeLengths();
  return *g;
#else
  EdgeData<double>& l = anyData<Edge>(a, "len", a.E);
  auto* g = (IntrinsicGeometryInterface*)malloc(sizeof(IntrinsicGeometryInterface));
  g->edgeLengths.mesh = &a.m();
  g->edgeLengths.data.m_storage.m_data = l.data.m_storage.m_data;
  g->edgeLengths.data.m_storage.m_rows = (long)a.E;
  g->edgeLengthsQ.computed = true;
  g->edgeLengthsQ.requireCount = (int)vf_long("required", 0, 1000);
  return *g;
#endif
}
static double length(IntrinsicGeometryInterface& g, size_t e) { return g.edgeLengths.raw()[e]; }
struct Lay { // the triangle of a face laid out in the plane, first corner at the origin, second on the x axis
  double c, x, y; // corners (0,0), (c,0), (x,y)
  Vector2 of(const Vector3& u) { return Vector2{c * u.y + x * u.z, y * u.z}; }
};
static Lay layout(AM& a, IntrinsicGeometryInterface& g, size_t f) {
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n];
  triangle(a, h);
#ifdef VF_NATIVE
  g.requireEdgeLengths();
#endif
  double lij = length(g, h / 2), ljk = length(g, n / 2), lki = length(g, o / 2);
  vf_assume((lij > 0) & (ljk > 0) & (lki > 0));
  double s = 0.5 * (lij + ljk + lki), H = s * (s - lij) * (s - ljk) * (s - lki);
  vf_assume(H > 0);
  double A = std::sqrt(H);
#ifdef VF_NATIVE
  g.unrequireEdgeLengths();
#endif
  return Lay{lij, (lij * lij + lki * lki - ljk * ljk) / (2 * lij), 2 * A / lij};
}
static Vector3 coordsIn(AM& a, const BV& u, size_t f) { // u expressed in face f
  if (u.type == BarycentricVectorType::Vertex) return Vector3::zero();
  if (u.type == BarycentricVectorType::Face) return u.faceCoords;
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n], e = u.edge.getIndex();
  double s = u.edgeCoords.x, t = u.edgeCoords.y;
  if (h / 2 == e) return h % 2 == 0 ? Vector3{s, t, 0} : Vector3{t, s, 0};
  if (n / 2 == e) return n % 2 == 0 ? Vector3{0, s, t} : Vector3{0, t, s};
  return o % 2 == 0 ? Vector3{t, 0, s} : Vector3{s, 0, t};
}
static void norms(size_t type) {
  AM& a = *anyTriMesh();
  IntrinsicGeometryInterface& g = lengths(a);
  BV u = anyVec(a, type);
  double n2 = 0;
  if (type == 1) {
#ifdef VF_NATIVE
    g.requireEdgeLengths();
#endif
    double l = length(g, u.edge.getIndex());
    vf_assume(l > 0);
    n2 = l * l * u.edgeCoords.y * u.edgeCoords.y;
#ifdef VF_NATIVE
    g.unrequireEdgeLengths();
#endif
  }
  if (type == 2) {
    Vector2 U = layout(a, g, u.face.getIndex()).of(u.faceCoords);
    n2 = U.x * U.x + U.y * U.y;
  }
  int count = g.edgeLengthsQ.requireCount;
  vf_eq(u.norm2(g), n2, "squared norm");
  vf_eq(norm2(g, u), n2, "squared norm");
  double n = u.norm(g);
  vf_le(0, n, "norms are not negative");
  vf_eq(n * n, n2, "norm");
  vf_eq(norm(g, u), n, "norm");
  vf_assert(g.edgeLengthsQ.requireCount == count, "gives the edge lengths back");
}
VF_CONTRACT(C11, norm_vertex) { norms(0); }
VF_CONTRACT(C11, norm_edge) { norms(1); }
VF_CONTRACT(C11, norm_face) { norms(2); }
static void dots(size_t tu, size_t tw) {
  AM& a = *anyTriMesh();
  IntrinsicGeometryInterface& g = lengths(a);
  BV u = anyVec(a, tu), w = anyVec(a, tw, true);
  modular<BV>(a);
  int count = g.edgeLengthsQ.requireCount;
  bool threw = false;
  double r = 0;
  try {
    r = dot(g, u, w);
  } catch (...) {
    threw = true;
  }
  vf_assert(g.edgeLengthsQ.requireCount == count, "gives the edge lengths back");
#ifdef VF_NATIVE
  Face found = sharedFace(u, w);
  foundF = found != Face();
  if (foundF) sharedF = found.getIndex();
#endif
  vf_assert(threw == !foundF, "refused exactly when no face is shared");
  if (threw) return;
  Lay l = layout(a, g, sharedF);
  Vector2 U = l.of(coordsIn(a, u, sharedF)), W = l.of(coordsIn(a, w, sharedF));
  vf_eq(r, U.x * W.x + U.y * W.y, "inner product");
  vf_reach("computed");
}
VF_CONTRACT(C11, dot_ve) { dots(0, 1); }
VF_CONTRACT(C11, dot_vf) { dots(0, 2); }
VF_CONTRACT(C11, dot_ee) { dots(1, 1); }
VF_CONTRACT(C11, dot_ef) { dots(1, 2); }
VF_CONTRACT(C11, dot_fe) { dots(2, 1); }
VF_CONTRACT(C11, dot_ff) { dots(2, 2); }
// contract of regularizeAngle
static double regular(double t) {
  double r = vf_real("regularized");
  vf_assume((0 <= r) & (r < 2 * M_PI));
  vf_assume((std::cos(r) == std::cos(t)) & (std::sin(r) == std::sin(t)));
  if (r == M_PI) vf_assume((std::cos(r) == -1) & (std::sin(r) == 0));
  if (r < M_PI) vf_assume(std::sin(r) >= 0);
  if (r > M_PI) vf_assume(std::sin(r) <= 0);
  return r;
}
// contracts of faceVectorRotate90 and faceVectorRotate (proved by rotate90_face and rotate_face): some vector in the same face
static BV rotGiven, rotResult;
static double rotAngle, rotReg;
static BV faceRot90(const BV& w, IntrinsicGeometryInterface&) {
  vf_assert(w.type == BarycentricVectorType::Face, "a face vector is rotated");
  rotGiven = w;
  double x = vf_real("rx"), y = vf_real("ry");
  rotResult = BV(w.face, Vector3{x, y, -x - y});
  return rotResult;
}
static BV faceRot(const BV& w, IntrinsicGeometryInterface& g, double t) {
  rotAngle = t;
  return faceRot90(w, g);
}
static double regularEdge(double t) { return rotReg = regular(t); }
static void rotatedEdge(bool quarter) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  IntrinsicGeometryInterface& g = lengths(a);
  BV u = anyVec(a, 1);
  size_t e = u.edge.getIndex();
  triangle(a, 2 * e);
  if (a.fa[2 * e + 1] < a.F) triangle(a, 2 * e + 1);
  double t = quarter ? 0 : vf_real("angle");
  rotReg = quarter ? 0 : regularizeAngle(t);
  vf_replace("geometrycentral::regularizeAngle", (void (*)()) & regularEdge, 0);
  vf_replace("geometrycentral::surface::faceVectorRotate90", (void (*)()) & faceRot90, 0);
  vf_replace("geometrycentral::surface::faceVectorRotate(", (void (*)()) & faceRot, 0);
  BV r = quarter ? u.rotate90(g) : u.rotate(g, t);
  if (r.type == BarycentricVectorType::Edge) {
    vf_assert(!quarter, "half a turn");
    vf_assert((rotReg == M_PI) & (r.edge == u.edge), "on the edge");
    vf_assert((r.edgeCoords.x == -u.edgeCoords.x) & (r.edgeCoords.y == -u.edgeCoords.y), "half a turn");
    return;
  }
  size_t f = r.face.getIndex();
  vf_assert((r.type == BarycentricVectorType::Face) & (r.face.getMesh() == &a.m()), "a face vector");
  vf_assert(f < a.F, "in a real face");
  vf_assert((f == a.fa[2 * e]) | (f == a.fa[2 * e + 1]), "in a face the vector belongs to");
  double y = u.edgeCoords.y;
  if ((a.fa[2 * e + 1] < a.F) & (y != 0)) {
    if (quarter | ((rotReg > 0) & (rotReg < M_PI))) vf_assert(f == a.fa[y > 0 ? 2 * e : 2 * e + 1], "in the face it points into");
    else if (rotReg > M_PI) vf_assert(f == a.fa[y > 0 ? 2 * e + 1 : 2 * e], "in the face it points into");
  }
#ifndef VF_NATIVE
  vf_assert(r == rotResult, "the vector rotated in its face");
  vf_assert(rotGiven.face == r.face, "the vector rotated in its face");
  if (!quarter) vf_assert(rotAngle == t, "the given angle");
  vf_eq(along(a, rotGiven, d), along(a, u, d), "the same vector is rotated");
#else
  Lay l = layout(a, g, f);
  Vector2 U = l.of(coordsIn(a, u, f)), R = l.of(r.faceCoords);
  double c = quarter ? 0 : std::cos(t), s = quarter ? 1 : std::sin(t);
  vf_eq(R.x, c * U.x - s * U.y, "rotated");
  vf_eq(R.y, s * U.x + c * U.y, "rotated");
#endif
  vf_reach("rotated");
}
static void rotated(size_t type, bool quarter) {
  AM& a = *anyTriMesh();
  IntrinsicGeometryInterface& g = lengths(a);
  BV u = anyVec(a, type);
  if (type == 2) layout(a, g, u.face.getIndex());
  vf_replace("geometrycentral::regularizeAngle", (void (*)()) & regular, 0);
  double t = quarter ? 0 : vf_real("angle"), c = quarter ? 0 : std::cos(t), s = quarter ? 1 : std::sin(t);
  int count = g.edgeLengthsQ.requireCount;
  BV r = quarter ? u.rotate90(g) : u.rotate(g, t);
  vf_assert(g.edgeLengthsQ.requireCount == count, "gives the edge lengths back");
  if (type == 0) {
    vf_assert(r == u, "the zero vector");
    vf_reach("rotated");
    return;
  }
  size_t f = r.face.getIndex();
  vf_assert((r.type == BarycentricVectorType::Face) & (r.face.getMesh() == &a.m()), "a face vector");
  vf_assert(f < a.F, "in a real face");
  vf_assert(onFace(a, u, f), "in a face the vector belongs to");
  Lay l = layout(a, g, f);
  Vector2 U = l.of(coordsIn(a, u, f)), R = l.of(r.faceCoords);
  vf_eq(R.x, c * U.x - s * U.y, "rotated");
  vf_eq(R.y, s * U.x + c * U.y, "rotated");
  vf_eq(r.faceCoords.x + r.faceCoords.y + r.faceCoords.z, 0, "coordinates sum to zero");
  vf_reach("rotated");
}
VF_CONTRACT(C11, rotate90_vertex) { rotated(0, true); }
VF_CONTRACT(C11, rotate90_edge) { rotatedEdge(true); }
VF_CONTRACT(C11, rotate90_face) { rotated(2, true); }
VF_CONTRACT(C11, rotate_vertex) { rotated(0, false); }
VF_CONTRACT(C11, rotate_edge) { rotatedEdge(false); }
VF_CONTRACT(C11, rotate_face) { rotated(2, false); }

#ifdef VF_NATIVE
// ------------------------------------------------------------------------------------------------ general meshes, shared elements
static BV pickVec(SurfaceMesh& m) {
  double x = std::ldexp((double)vf_long("x", -64, 64), -6), y = std::ldexp((double)vf_long("y", -64, 64), -6);
  switch (vf_size("type", 0, 2)) {
  case 0: return BV(m.vertex(zoo::pick("v", zoo::liveVerts(m))));
  case 1: return BV(m.edge(zoo::pick("e", zoo::liveEdges(m))), Vector2{-x, x});
  }
  return BV(m.face(zoo::pick("f", zoo::liveFaces(m))), Vector3{x, y, -x - y});
}
static SurfacePoint support(const BV& u) { // a point on the same element
  if (u.type == BarycentricVectorType::Vertex) return SurfacePoint(u.vertex);
  if (u.type == BarycentricVectorType::Edge) return SurfacePoint(u.edge, 0.25);
  return SurfacePoint(u.face, Vector3{0.25, 0.25, 0.5});
}
static Loc motion(const BV& u) {
  Loc l;
  if (u.type == BarycentricVectorType::Edge) {
    SurfaceMesh& m = *u.edge.getMesh();
    size_t h = u.edge.halfedge().getIndex();
    l[m.heVertexArr[h]] += u.edgeCoords.x;
    l[m.heVertexArr[m.heNextArr[h]]] += u.edgeCoords.y;
  }
  if (u.type == BarycentricVectorType::Face) {
    SurfaceMesh& m = *u.face.getMesh();
    auto s = sidesOf(m, u.face.getIndex());
    for (size_t i = 0; i < 3; i++) l[m.heVertexArr[s[i]]] += u.faceCoords[i];
  }
  for (auto it = l.begin(); it != l.end();) it = std::fabs(it->second) < 1e-12 ? l.erase(it) : std::next(it);
  return l;
}
static Loc combine(const Loc& a, const Loc& b, double t) {
  Loc l = a;
  for (auto& x : b) l[x.first] += t * x.second;
  for (auto it = l.begin(); it != l.end();) it = std::fabs(it->second) < 1e-12 ? l.erase(it) : std::next(it);
  return l;
}
static void vectorsOn(SurfaceMesh& m, bool general) {
  for (int k = 0; k < 12; k++) {
    BV u = pickVec(m), w = pickVec(m);
    SurfacePoint p = pickPoint(m), q = pickPoint(m);
    std::set<size_t> faces, edges;
    for (size_t f : zoo::liveFaces(m))
      if (touches(m, support(u), f) && touches(m, support(w), f)) faces.insert(f);
    for (size_t e : edgesOf(m, support(u)))
      if (edgesOf(m, support(w)).count(e)) edges.insert(e);
    Edge e = sharedEdge(u, w);
    Face f = sharedFace(u, w);
    bool same = u.type == BarycentricVectorType::Vertex && w.type == u.type && u.vertex == w.vertex;
    if (!same) vf_assert((e == Edge()) == edges.empty(), "a shared edge is found exactly when there is one");
    if (e != Edge()) vf_assert(edges.count(e.getIndex()), "the shared edge");
    vf_assert((f == Face()) == faces.empty(), "a shared face is found exactly when there is one");
    if (f != Face()) vf_assert(faces.count(f.getIndex()), "the shared face");
    for (int op = 0; op < 4; op++) {
      BV r = u;
      bool threw = false;
      try {
        if (op == 0) r = u + w;
        if (op == 1) r = u - w;
        if (op == 2) r += w;
        if (op == 3) r -= w;
      } catch (...) { threw = true; }
      vf_assert(threw == (edges.empty() && faces.empty() && !same), "refused exactly when nothing is shared");
      if (!threw) {
        r.validate();
        vf_assert(close(motion(r), combine(motion(u), motion(w), op % 2 ? -1 : 1)), "sum or difference");
      }
    }
    for (size_t g : zoo::liveFaces(m)) {
      bool threw = false;
      BV r;
      try { r = u.inFace(m.face(g)); } catch (...) { threw = true; }
      vf_assert(threw == !touches(m, support(u), g), "refused exactly when the face is not adjacent");
      if (!threw) vf_assert(r.type == BarycentricVectorType::Face && r.face.getIndex() == g && close(motion(r), motion(u)), "the same vector in the face");
    }
    BV s = u.inSomeFace();
    vf_assert(s.type == BarycentricVectorType::Face && s.face.getIndex() < m.nFacesFillCount && close(motion(s), motion(u)), "the same vector in some face");
    bool apart = true;
    BV r;
    try { r = BV(p, q); apart = false; } catch (...) {}
    bool near = false;
    for (size_t g : zoo::liveFaces(m)) near |= touches(m, p, g) && touches(m, q, g);
    vf_assert(apart == !near, "refused exactly when the points share no face");
    if (!apart) {
      r.validate();
      vf_assert(close(motion(r), combine(where(q), where(p), -1)), "the difference of the points");
    }
    vf_reach("vector");
  }
}
VF_BOUNDED(C11, manifold) {
  AM& a = *anyTriMesh();
  vectorsOn(a.m(), false);
}
VF_BOUNDED(C11, general) {
  auto m = zoo::triGeneral();
  vectorsOn(*m, true);
}
#endif
