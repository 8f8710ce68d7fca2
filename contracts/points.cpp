// C10, C17: surface points on every valid triangle mesh; handles.
#include "rings.h"
#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/surface_point.h"
#include "points.h"
using namespace sm;

VF_CONTRACT(C10, interpolate) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  SurfacePoint pv = anyPoint(a, 0), pe = anyPoint(a, 1), pf = anyPoint(a, 2);
  vf_assert((pv.type == SurfacePointType::Vertex) & (pe.type == SurfacePointType::Edge) & (pf.type == SurfacePointType::Face), "types");
  vf_eq(pv.interpolate(d), at(a, d, pv.vertex.getIndex()), "a vertex point takes the value of the vertex");
  size_t e = pe.edge.getIndex();
  vf_eq(pe.interpolate(d), (1 - pe.tEdge) * at(a, d, a.ve[2 * e]) + pe.tEdge * at(a, d, a.ve[2 * e + 1]), "an edge point runs from the tail to the tip");
  size_t h = a.fh[pf.face.getIndex()];
  vf_eq(pf.interpolate(d), pf.faceCoords.x * at(a, d, a.ve[h]) + pf.faceCoords.y * at(a, d, a.ve[a.nx[h]]) + pf.faceCoords.z * at(a, d, a.ve[a.nx[a.nx[h]]]), "a face point weighs the corners in order");
}
VF_CONTRACT(C10, halfedgePoint) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t h = anyHe(a);
  double t = vf_real("t");
  SurfacePoint p(a.m().halfedge(h), t);
  vf_assert((p.type == SurfacePointType::Edge) & (p.edge.getIndex() == h / 2) & (p.edge.getMesh() == &a.m()), "on the edge of the halfedge");
  vf_eq(p.interpolate(d), (1 - t) * at(a, d, a.ve[h]) + t * at(a, d, a.ve[h ^ 1]), "measured along the halfedge");
}
static void someFace(size_t type) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  SurfacePoint p = anyPoint(a, type);
  if (type == 0) vf_assume(a.fa[a.vh[p.vertex.getIndex()]] < a.F);
  if (type == 0) triangle(a, a.vh[p.vertex.getIndex()]);
  if (type == 1) triangle(a, 2 * p.edge.getIndex());
  SurfacePoint q = p.inSomeFace();
  vf_assert((q.type == SurfacePointType::Face) & (q.face.getMesh() == &a.m()), "a face point");
  vf_assert(q.face.getIndex() < a.F, "in a real face");
  vf_assert(!q.face.isDead(), "in a live face");
  vf_eq(q.interpolate(d), p.interpolate(d), "the same location");
  vf_eq(q.faceCoords.x + q.faceCoords.y + q.faceCoords.z, type == 2 ? p.faceCoords.x + p.faceCoords.y + p.faceCoords.z : 1, "coordinates sum to one");
}
VF_CONTRACT(C10, inSomeFace_vertex) { someFace(0); }
VF_CONTRACT(C10, inSomeFace_edge) { someFace(1); }
VF_CONTRACT(C10, inSomeFace_face) { someFace(2); }

static void inFace(size_t type) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  SurfacePoint p = anyPoint(a, type);
  size_t f = anyFace(a, "target"), h = a.fh[f], n = a.nx[h], o = a.nx[n];
  Face F = a.m().face(f);
  SurfacePoint q;
  bool threw = false;
  try {
    q = p.inFace(F);
  } catch (...) {
    threw = true;
  }
  bool adj = type == 0 ? (a.ve[h] == p.vertex.getIndex()) | (a.ve[n] == p.vertex.getIndex()) | (a.ve[o] == p.vertex.getIndex())
           : type == 1 ? (h / 2 == p.edge.getIndex()) | (n / 2 == p.edge.getIndex()) | (o / 2 == p.edge.getIndex())
                       : f == p.face.getIndex();
  vf_assert(threw == !adj, "refused exactly when the face is not adjacent");
  if (threw) return;
  vf_assert((q.type == SurfacePointType::Face) & (q.face == F) & (q.face.getMesh() == &a.m()), "in the requested face");
  vf_eq(q.interpolate(d), p.interpolate(d), "the same location");
  vf_eq(q.faceCoords.x + q.faceCoords.y + q.faceCoords.z, type == 2 ? p.faceCoords.x + p.faceCoords.y + p.faceCoords.z : 1, "coordinates sum to one");
  vf_reach("converted");
}
VF_CONTRACT(C10, inFace_vertex) { inFace(0); }
VF_CONTRACT(C10, inFace_edge) { inFace(1); }
VF_CONTRACT(C10, inFace_face) { inFace(2); }

VF_CONTRACT(C10, inEdge) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t type = vf_size("type", 0, 2);
  SurfacePoint p = anyPoint(a, type);
  size_t e = anyEdge(a, "target");
  Edge E = a.m().edge(e);
  SurfacePoint q;
  bool threw = false;
  try {
    q = p.inEdge(E);
  } catch (...) {
    threw = true;
  }
  bool adj = type == 0 ? (a.ve[2 * e] == p.vertex.getIndex()) | (a.ve[2 * e + 1] == p.vertex.getIndex()) : type == 1 ? e == p.edge.getIndex() : false;
  vf_assert(threw == !adj, "refused exactly when the point is not on the edge");
  if (threw) return;
  vf_assert((q.type == SurfacePointType::Edge) & (q.edge == E) & (q.edge.getMesh() == &a.m()), "in the requested edge");
  vf_eq(q.interpolate(d), p.interpolate(d), "the same location");
  vf_reach("converted");
}
VF_CONTRACT(C10, nearestVertex) {
  AM& a = *anyTriMesh();
  size_t type = vf_size("type", 0, 2);
  SurfacePoint p = anyPoint(a, type);
  Vertex v = p.nearestVertex();
  if (type == 0) vf_assert(v == p.vertex, "a vertex is nearest to itself");
  if (type == 1) {
    size_t e = p.edge.getIndex(), i = a.ve[2 * e], j = a.ve[2 * e + 1];
    vf_assert((v.getIndex() == i) | (v.getIndex() == j), "an end point");
    vf_assert(!(p.tEdge < .5) | (v.getIndex() == i), "the tail when closer to it");
    vf_assert(!(p.tEdge > .5) | (v.getIndex() == j), "the tip when closer to it");
  }
  if (type == 2) {
    size_t h = a.fh[p.face.getIndex()], i = a.ve[h], j = a.ve[a.nx[h]], k = a.ve[a.nx[a.nx[h]]];
    Vector3 c = p.faceCoords;
    vf_assert((v.getIndex() == i) | (v.getIndex() == j) | (v.getIndex() == k), "a corner");
    vf_assert(!((c.x > c.y) & (c.x > c.z)) | (v.getIndex() == i), "the first corner when its weight is largest");
    vf_assert(!((c.y > c.x) & (c.y > c.z)) | (v.getIndex() == j), "the second corner when its weight is largest");
    vf_assert(!((c.z > c.x) & (c.z > c.y)) | (v.getIndex() == k), "the third corner when its weight is largest");
    vf_assert((v.getIndex() == i) | (c.x <= c.y) | (c.x <= c.z), "never a corner of smaller weight");
  }
  vf_assert(v.getMesh() == &a.m(), "on the mesh");
}
VF_CONTRACT(C10, permute) {
  AM& a = *anyTriMesh();
  VertexData<double>& d = values(a);
  size_t h = anyHe(a);
  vf_assume(a.fa[h] < a.F);
  triangle(a, h);
  Halfedge he = a.m().halfedge(h);
  Vector3 c{vf_real("x"), vf_real("y"), vf_real("z")};
  int i = halfedgeIndexInTriangle(he);
  size_t r = a.fh[a.fa[h]];
  vf_assert(i == (h == r ? 0 : h == a.nx[r] ? 1 : 2), "the index of a halfedge counts from the halfedge of the face");
  Vector3 p = permuteBarycentricToCanonical(c, he);
  vf_eq(SurfacePoint(he.face(), p).interpolate(d), c.x * at(a, d, a.ve[h]) + c.y * at(a, d, a.ve[a.nx[h]]) + c.z * at(a, d, a.ve[a.nx[a.nx[h]]]), "the same location");
  Vector3 q = permuteBarycentricFromCanonical(p, he);
  vf_eq(q.x, c.x, "inverse, x");
  vf_eq(q.y, c.y, "inverse, y");
  vf_eq(q.z, c.z, "inverse, z");
  Vector3 g = permuteBarycentricFromCanonical(c, he);
  Vector3 k = permuteBarycentricToCanonical(g, he);
  vf_eq(k.x, c.x, "inverse on the other side, x");
  vf_eq(k.y, c.y, "inverse on the other side, y");
  vf_eq(k.z, c.z, "inverse on the other side, z");
}
VF_CONTRACT(C10, normalize) {
  Vector3 c{vf_real("x"), vf_real("y"), vf_real("z")};
  double s = c.x + c.y + c.z;
  Vector3 n = normalizeBarycentric(c);
  vf_le(std::fabs(n.x + n.y + n.z - 1), 1e-15, "sums to one");
  vf_eq(n.x * s, s == 0 ? 0 : c.x, "proportional, x");
  vf_eq(n.y * s, s == 0 ? 0 : c.y, "proportional, y");
  vf_eq(n.z * s, s == 0 ? 0 : c.z, "proportional, z");
  Vector3 m = normalizeBarycentricDisplacement(c);
  vf_eq(m.x + m.y + m.z, 0, "a displacement sums to zero");
  vf_eq(m.x - m.y, c.x - c.y, "shifted uniformly, x y");
  vf_eq(m.y - m.z, c.y - c.z, "shifted uniformly, y z");
}
VF_CONTRACT(C10, project) {
  Vector3 c{vf_real("x"), vf_real("y"), vf_real("z")};
  Vector3 p = projectInsideTriangle(c);
  vf_le(std::fabs(p.x + p.y + p.z - 1), 1e-15, "sums to one");
  vf_assert((p.x >= 0) & (p.y >= 0) & (p.z >= 0), "inside the triangle");
  vf_assert(isInsideTriangle(p), "recognised as inside");
  vf_assert(isInsideTriangle(c) == ((c.x >= 0) & (c.y >= 0) & (c.z >= 0)), "inside means no negative coordinate");
  if (isInsideTriangle(c) && c.x + c.y + c.z == 1) {
    vf_eq(p.x, c.x, "a point inside stays, x");
    vf_eq(p.y, c.y, "a point inside stays, y");
    vf_eq(p.z, c.z, "a point inside stays, z");
    vf_reach("inside");
  }
  vf_assert(!((c.x <= 0) & ((c.y > 0) | (c.z > 0))) | (p.x == 0), "a negative coordinate is clamped, x");
  vf_assert(!((c.y <= 0) & ((c.x > 0) | (c.z > 0))) | (p.y == 0), "a negative coordinate is clamped, y");
  vf_assert(!((c.z <= 0) & ((c.x > 0) | (c.y > 0))) | (p.z == 0), "a negative coordinate is clamped, z");
}
VF_CONTRACT(C10, displacement) {
  double ax = vf_real("ax"), ay = vf_real("ay"), bx = vf_real("bx"), by = vf_real("by"), cx = vf_real("cx"), cy = vf_real("cy");
  std::array<Vector2, 3> P{Vector2{ax, ay}, Vector2{bx, by}, Vector2{cx, cy}};
  Vector3 u{vf_real("u"), vf_real("v"), 0};
  u.z = -u.x - u.y;
  Vector2 w = barycentricDisplacementToCartesian(P, u);
  vf_eq(w.x, u.x * ax + u.y * bx + u.z * cx, "cartesian displacement, x");
  vf_eq(w.y, u.x * ay + u.y * by + u.z * cy, "cartesian displacement, y");
  Vector3 l{vf_real("la"), vf_real("lb"), vf_real("lc")}; // opposite edge lengths
  l.x = std::sqrt((cx - bx) * (cx - bx) + (cy - by) * (cy - by));
  l.y = std::sqrt((ax - cx) * (ax - cx) + (ay - cy) * (ay - cy));
  l.z = std::sqrt((bx - ax) * (bx - ax) + (by - ay) * (by - ay));
  double L = displacementLength2(u, l), wx = vf_define("wx", w.x), wy = vf_define("wy", w.y), W = wx * wx + wy * wy;
  vf_eq(L, W, "squared length from the opposite edge lengths");
  vf_le(0, W, "not negative");
  vf_le(0, L, "the squared length is not negative");
  double len = displacementLength(u, l);
  vf_le(0, len, "lengths are not negative");
  vf_eq(len * len, L, "length");
}

// ------------------------------------------------------------------------------------------------ adjacency
// Which points share a simplex.  k: an arbitrary halfedge that makes them adjacent (so the answer has to be yes); without
// any such halfedge the answer has to be no.
static void vertexVertex(bool adjacent) {
  AM& a = *anyTriMesh();
  Ring& r = *rings(a);
  size_t v = anyVertex(a, "v"), w = anyVertex(a, "w");
  size_t k = adjacent ? anyHe(a, "k") : NONE;
  Adj& j = *new Adj{&a, &r, a.vh[v], k, v, w};
  if (adjacent) {
    vf_assume((a.ve[k] == v) & (a.ve[k ^ 1] == w));
    vf_instantiate("pos", k);
  } else
    all("next,vert", noNeighbour, &j, a.H);
  vf_instantiate("pos", j.s);
  vf_loop_flags("checkAdjacent(geometrycentral::surface::Vertex, geometrycentral::surface::Vertex)", circ, &j);
  bool c = checkAdjacent(SurfacePoint(a.m().vertex(v)), SurfacePoint(a.m().vertex(w)));
  vf_assert(c == adjacent, "vertices are adjacent exactly when an edge joins them");
  vf_reach("checked");
}
VF_CONTRACT(C10, adjacent_vv_yes) { vertexVertex(true); }
VF_CONTRACT(C10, adjacent_vv_no) { vertexVertex(false); }

static bool circF(void* c, size_t x, bool first, bool found) {
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  return circ(c, x, first, found) & (a.fa[x] < a.F);
}
static bool notInFace(void* c, size_t h) { // no corner of v in face w
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
  return imp((h < a.H) & (a.nx[h] != NONE) & (a.ve[h] == j.v), a.fa[h] != j.w);
}
static void vertexFace(bool adjacent) {
  AM& a = *anyTriMesh();
  Ring& r = *rings(a);
  size_t v = anyVertex(a, "v"), w = anyFace(a, "w");
  size_t k = adjacent ? anyHe(a, "k") : NONE;
  Adj& j = *new Adj{&a, &r, a.vh[v], k, v, w};
  if (adjacent) {
    vf_assume((a.ve[k] == v) & (a.fa[k] == w));
    vf_instantiate("pos", k);
  } else
    all("next,vert,face", notInFace, &j, a.H);
  vf_assume(a.fa[j.s] < a.F);
  vf_instantiate("pos", j.s);
  vf_loop_keep("NavigationIteratorBase", passOver, &j);
  vf_loop_flags("checkAdjacent(geometrycentral::surface::Vertex, geometrycentral::surface::Face)", circF, &j);
  SurfacePoint p(a.m().vertex(v)), q(a.m().face(w), Vector3{vf_real("x"), vf_real("y"), vf_real("z")});
  bool c = vf_bool("swap") ? checkAdjacent(p, q) : checkAdjacent(q, p);
  vf_assert(c == adjacent, "a vertex and a face are adjacent exactly when the vertex is a corner of the face");
  vf_reach("checked");
}
VF_CONTRACT(C10, adjacent_vf_yes) { vertexFace(true); }
VF_CONTRACT(C10, adjacent_vf_no) { vertexFace(false); }

VF_CONTRACT(C10, adjacent_ee) {
  AM& a = *anyTriMesh();
  size_t e = anyEdge(a, "e"), g = anyEdge(a, "g");
  bool c = checkAdjacent(SurfacePoint(a.m().edge(e), vf_real("t")), SurfacePoint(a.m().edge(g), vf_real("s")));
  size_t f0 = a.fa[2 * e], f1 = a.fa[2 * e + 1], g0 = a.fa[2 * g], g1 = a.fa[2 * g + 1];
  vf_assert(c == (((f0 == g0) & (f0 < a.F)) | ((f0 == g1) & (f0 < a.F)) | ((f1 == g0) & (f1 < a.F)) | ((f1 == g1) & (f1 < a.F))), "edges are adjacent exactly when they share a face");
}
VF_CONTRACT(C10, adjacent_ef) {
  AM& a = *anyTriMesh();
  size_t e = anyEdge(a, "e"), f = anyFace(a, "f");
  triangle(a, a.fh[f]);
  SurfacePoint p(a.m().edge(e), vf_real("t")), q(a.m().face(f), Vector3{vf_real("x"), vf_real("y"), vf_real("z")});
  bool c = vf_bool("swap") ? checkAdjacent(p, q) : checkAdjacent(q, p);
  vf_assert(c == sideOf(a, a.fh[f], e), "an edge and a face are adjacent exactly when the edge is a side of the face");
  size_t g = anyFace(a, "g");
  vf_assert(checkAdjacent(q, SurfacePoint(a.m().face(g), Vector3::zero())) == (f == g), "faces are adjacent only to themselves");
}
VF_CONTRACT(C10, sameElement) {
  AM& a = *anyTriMesh();
  size_t tp = vf_size("tp", 0, 2), tq = vf_size("tq", 0, 2);
  size_t v = anyVertex(a, "v"), w = anyVertex(a, "w"), e = anyEdge(a, "e"), g = anyEdge(a, "g"), f = anyFace(a, "f"), k = anyFace(a, "k");
  SurfacePoint p = tp == 0 ? SurfacePoint(a.m().vertex(v)) : tp == 1 ? SurfacePoint(a.m().edge(e), vf_real("t")) : SurfacePoint(a.m().face(f), Vector3{vf_real("x"), vf_real("y"), 0});
  SurfacePoint q = tq == 0 ? SurfacePoint(a.m().vertex(w)) : tq == 1 ? SurfacePoint(a.m().edge(g), vf_real("s")) : SurfacePoint(a.m().face(k), Vector3{vf_real("u"), vf_real("v"), 0});
  vf_assert(onSameElement(p, q) == ((tp == tq) & (tp == 0 ? v == w : tp == 1 ? e == g : f == k)), "same element");
  vf_assert((p == q) == ((tp == tq) & (tp == 0 ? v == w : tp == 1 ? (e == g) & (p.tEdge == q.tEdge) : (f == k) & (p.faceCoords.x == q.faceCoords.x) & (p.faceCoords.y == q.faceCoords.y))), "equal points have the same element and coordinates");
  vf_assert((p != q) == !(p == q), "different means not equal");
}

// ------------------------------------------------------------------------------------------------ shared edge
static void shared(size_t tp, size_t tq, bool adjacent) {
  AM& a = *anyTriMesh();
  Ring& r = *rings(a);
  size_t v = anyVertex(a, "v"), w = tq == 0 ? anyVertex(a, "w") : anyEdge(a, "w");
  size_t k = adjacent ? anyHe(a, "k") : NONE;
  Adj& j = *new Adj{&a, &r, a.vh[v], k, v, w};
  if (adjacent) {
    vf_assume(a.ve[k] == v);
    vf_assume(tq == 0 ? a.ve[k ^ 1] == w : k / 2 == w);
    vf_instantiate("pos", k);
  } else if (tq == 0)
    all("next,vert", noNeighbour, &j, a.H);
  else
    vf_assume((a.ve[2 * w] != v) & (a.ve[2 * w + 1] != v));
  vf_instantiate("pos", j.s);
  vf_loop_flags("sharedEdge(geometrycentral::surface::SurfacePoint", circE, &j);
  SurfacePoint p(a.m().vertex(v)), q = tq == 0 ? SurfacePoint(a.m().vertex(w)) : SurfacePoint(a.m().edge(w), vf_real("t"));
  Edge e = tp == 0 ? sharedEdge(p, q) : sharedEdge(q, p);
  size_t i = e.getIndex();
  if (!adjacent && e != Edge()) {
    vf_instantiate("next", 2 * i);
    vf_instantiate("next", 2 * i + 1);
  }
  vf_assert((e != Edge()) == adjacent, "a shared edge is found exactly when there is one");
  vf_reach("answered");
  if (!adjacent) return;
  vf_assert(i < a.E, "an edge of the mesh");
  vf_assert((e.getMesh() == &a.m()) & !e.isDead(), "a live edge");
  if (tq == 0) vf_assert(((a.ve[2 * i] == v) & (a.ve[2 * i + 1] == w)) | ((a.ve[2 * i] == w) & (a.ve[2 * i + 1] == v)), "it joins the vertices");
  else vf_assert(i == w, "it is the edge");
}
VF_CONTRACT(C10, sharedEdge_vv_yes) { shared(0, 0, true); }
VF_CONTRACT(C10, sharedEdge_vv_no) { shared(0, 0, false); }
VF_CONTRACT(C10, sharedEdge_ve_yes) { shared(0, 1, true); }
VF_CONTRACT(C10, sharedEdge_ve_no) { shared(0, 1, false); }
VF_CONTRACT(C10, sharedEdge_ev_yes) { shared(1, 1, true); }
VF_CONTRACT(C10, sharedEdge_ev_no) { shared(1, 1, false); }
VF_CONTRACT(C10, sharedEdge_others) {
  AM& a = *anyTriMesh();
  size_t e = anyEdge(a, "e"), g = anyEdge(a, "g"), f = anyFace(a);
  SurfacePoint p(a.m().edge(e), vf_real("t")), q(a.m().edge(g), vf_real("s")), x(a.m().face(f), Vector3::zero());
  Edge s = sharedEdge(p, q);
  vf_assert(e == g ? s == a.m().edge(e) : s == Edge(), "edge points share only their own edge");
  vf_assert((sharedEdge(p, x) == Edge()) & (sharedEdge(x, p) == Edge()) & (sharedEdge(x, x) == Edge()), "face points are on no edge");
}

// ------------------------------------------------------------------------------------------------ shared face
static bool circFE(void* c, size_t x, bool first, bool f2) {
  Adj& j = *(Adj*)c;
  return circE(c, x, first, f2) & (j.a->fa[x] < j.a->F);
}
static SurfacePoint* Q;
static bool noCorner(void* c, size_t h) { // q is on no face of v
  Adj& j = *(Adj*)c;
  AM& a = *j.a;
#ifdef VF_NATIVE
  if (a.nx[h] == NONE || a.fa[h] >= a.F) return true;
#endif
  return imp((h < a.H) & (a.nx[h] != NONE) & (a.ve[h] == j.v) & (a.fa[h] < a.F), !onFace(a, *Q, a.fa[h]));
}
// contract of checkAdjacent() for a face point (proved above, for an edge and a vertex: bounded)
static AM* MA;
static bool faceAdjacentC(const SurfacePoint& p, const SurfacePoint& q) {
  vf_assert(p.type == SurfacePointType::Face, "adjacency with a face");
  return onFace(*MA, q, p.face.getIndex());
}
static SurfacePoint second(AM& a, size_t type) {
  if (type == 0) return SurfacePoint(a.m().vertex(anyVertex(a, "qv")));
  size_t i = type == 1 ? anyEdge(a, "qe") : anyFace(a, "qf");
  if (type == 1) return SurfacePoint(a.m().edge(i), vf_real("qt"));
  return SurfacePoint(a.m().face(i), Vector3{vf_real("qx"), vf_real("qy"), vf_real("qz")});
}
static void sharedFaceOf(size_t tp, size_t tq) {
  AM& a = *anyTriMesh();
  MA = &a;
  SurfacePoint p = anyPoint(a, tp), q = second(a, tq);
  vf_replace("geometrycentral::surface::checkAdjacent(geometrycentral::surface::SurfacePoint", (void (*)()) & faceAdjacentC, 0);
  Face f = sharedFace(p, q);
  size_t e = tp == 1 ? p.edge.getIndex() : 0;
  bool want = tp == 2 ? onFace(a, q, p.face.getIndex()) : ((a.fa[2 * e] < a.F) && onFace(a, q, a.fa[2 * e])) || ((a.fa[2 * e + 1] < a.F) && onFace(a, q, a.fa[2 * e + 1]));
  vf_assert((f != Face()) == want, "a shared face is found exactly when there is one");
  if (!want) return;
  vf_assert((f.getIndex() < a.F) & (f.getMesh() == &a.m()), "a face of the mesh");
  vf_assert(!f.isDead(), "a live face");
  vf_assert(onFace(a, q, f.getIndex()), "adjacent to the second point");
  vf_assert(tp == 2 ? f == p.face : (f.getIndex() == a.fa[2 * e]) | (f.getIndex() == a.fa[2 * e + 1]), "adjacent to the first point");
  vf_reach("found");
}
VF_CONTRACT(C10, sharedFace_ev) { sharedFaceOf(1, 0); }
VF_CONTRACT(C10, sharedFace_ee) { sharedFaceOf(1, 1); }
VF_CONTRACT(C10, sharedFace_ef) { sharedFaceOf(1, 2); }
VF_CONTRACT(C10, sharedFace_fv) { sharedFaceOf(2, 0); }
VF_CONTRACT(C10, sharedFace_fe) { sharedFaceOf(2, 1); }
VF_CONTRACT(C10, sharedFace_ff) { sharedFaceOf(2, 2); }
static void sharedFaceAt(size_t tq, bool adjacent) {
  AM& a = *anyTriMesh();
  MA = &a;
  Ring& r = *rings(a);
  size_t v = anyVertex(a, "v");
  SurfacePoint p(a.m().vertex(v)), q = second(a, tq);
  Q = &q;
  size_t k = adjacent ? anyHe(a, "k") : NONE;
  Adj& j = *new Adj{&a, &r, a.vh[v], k, v, 0};
  if (adjacent) {
    vf_assume((a.ve[k] == v) & (a.fa[k] < a.F));
    vf_assume(onFace(a, q, a.fa[k]));
    vf_instantiate("pos", k);
  } else
    all("next,vert,face", noCorner, &j, a.H);
  vf_assume(a.fa[j.s] < a.F);
  vf_instantiate("pos", j.s);
  vf_loop_keep("NavigationIteratorBase", passOver, &j);
  vf_loop_flags("sharedFace(geometrycentral::surface::SurfacePoint", circFE, &j);
  vf_replace("geometrycentral::surface::checkAdjacent(geometrycentral::surface::SurfacePoint", (void (*)()) & faceAdjacentC, 0);
  Face f = sharedFace(p, q);
  vf_assert((f != Face()) == adjacent, "a shared face is found exactly when there is one");
  vf_reach("answered");
  if (!adjacent) return;
  vf_assert((f.getIndex() < a.F) & (f.getMesh() == &a.m()), "a face of the mesh");
  vf_assert(!f.isDead(), "a live face");
  vf_assert(onFace(a, q, f.getIndex()), "adjacent to the second point");
}
VF_CONTRACT(C10, sharedFace_vv_yes) { sharedFaceAt(0, true); }
VF_CONTRACT(C10, sharedFace_vv_no) { sharedFaceAt(0, false); }
VF_CONTRACT(C10, sharedFace_ve_yes) { sharedFaceAt(1, true); }
VF_CONTRACT(C10, sharedFace_ve_no) { sharedFaceAt(1, false); }
VF_CONTRACT(C10, sharedFace_vf_yes) { sharedFaceAt(2, true); }
VF_CONTRACT(C10, sharedFace_vf_no) { sharedFaceAt(2, false); }

// ------------------------------------------------------------------------------------------------ bounded stand-ins
#ifdef VF_NATIVE
static void pointRun(SurfaceMesh& m) {
  SurfacePoint p = pickPoint(m), q = pickPoint(m);
  Loc lp = where(p);
  bool isolated = p.type == SurfacePointType::Vertex && edgesOf(m, p).empty();
  if (!isolated) {
    SurfacePoint s = p.inSomeFace();
    vf_assert(s.type == SurfacePointType::Face && !s.face.isBoundaryLoop(), "some face is a face");
    vf_assert(close(where(s), lp), "the same location in some face");
  }
  for (size_t f : zoo::liveFaces(m)) {
    bool threw = false;
    SurfacePoint s;
    try { s = p.inFace(m.face(f)); } catch (...) { threw = true; }
    vf_assert(threw == !touches(m, p, f), "refused exactly when the face is not adjacent");
    if (!threw) vf_assert(s.type == SurfacePointType::Face && s.face == m.face(f) && close(where(s), lp), "the same location in the face");
  }
  for (size_t e : zoo::liveEdges(m)) {
    bool threw = false;
    SurfacePoint s;
    try { s = p.inEdge(m.edge(e)); } catch (...) { threw = true; }
    bool on = p.type != SurfacePointType::Face && edgesOf(m, p).count(e);
    vf_assert(threw == !on, "refused exactly when the point is not on the edge");
    if (!threw) vf_assert(s.type == SurfacePointType::Edge && s.edge == m.edge(e) && close(where(s), lp), "the same location in the edge");
  }
  size_t h = zoo::pick("h", zoo::liveHes(m));
  double t = std::ldexp(vf_size("ht", 0, 64), -6);
  Loc lh;
  lh[m.heVertexArr[h]] += 1 - t;
  lh[m.heVertexArr[m.heNextArr[h]]] += t;
  for (auto it = lh.begin(); it != lh.end();) it = std::fabs(it->second) < 1e-12 ? lh.erase(it) : std::next(it);
  vf_assert(close(where(SurfacePoint(m.halfedge(h), t)), lh), "measured along the halfedge");
  double best = -1;
  for (auto& x : lp) best = std::max(best, x.second);
  size_t nv = p.nearestVertex().getIndex();
  std::set<size_t> sup;
  for (auto& x : lp) sup.insert(x.first);
  vf_assert(sup.count(nv) || best < .5, "the nearest vertex is one of the vertices of the point");
  if (p.type == SurfacePointType::Edge) vf_assert(lp.at(nv) >= .5 - 1e-9, "the nearest vertex has the largest weight");
  if (p.type == SurfacePointType::Face && std::set<size_t>{m.heVertexArr[sidesOf(m, p.face.getIndex())[0]], m.heVertexArr[sidesOf(m, p.face.getIndex())[1]], m.heVertexArr[sidesOf(m, p.face.getIndex())[2]]}.size() == 3)
    vf_assert(lp.at(nv) >= best - 1e-9, "the nearest vertex has the largest weight");
  // adjacency
  bool shareF = false, shareE = false;
  for (size_t f : zoo::liveFaces(m)) shareF = shareF || (touches(m, p, f) && touches(m, q, f));
  std::set<size_t> ep = edgesOf(m, p), eq = edgesOf(m, q), both;
  for (size_t e : ep)
    if (eq.count(e)) both.insert(e);
  bool vv = p.type == SurfacePointType::Vertex && q.type == SurfacePointType::Vertex;
  if (vv) { // joined by an edge, not merely both on one
    std::set<size_t> j;
    for (size_t e : both) {
      auto x = ends(m, e);
      if (x == std::set<size_t>{p.vertex.getIndex(), q.vertex.getIndex()}) j.insert(e);
    }
    both = j;
  }
  shareE = !both.empty();
  if (!isolated && !(q.type == SurfacePointType::Vertex && eq.empty())) {
    vf_assert(checkAdjacent(p, q) == (vv ? shareE : shareF), "adjacent exactly when they are in a common simplex");
    Face f = sharedFace(p, q);
    bool want = shareF;
    vf_assert((f != Face()) == want, "a shared face is found exactly when there is one");
    if (want) vf_assert(!f.isBoundaryLoop() && touches(m, p, f.getIndex()) && touches(m, q, f.getIndex()), "the shared face is adjacent to both");
    Edge e = sharedEdge(p, q);
    vf_assert((e != Edge()) == shareE, "a shared edge is found exactly when there is one");
    if (shareE) vf_assert(both.count(e.getIndex()) > 0, "both are on the shared edge");
  }
}
VF_BOUNDED(C10, manifold) {
  AM& a = *anyTriMesh();
  pointRun(a.m());
}
VF_BOUNDED(C10, general) {
  auto m = zoo::triGeneral();
  pointRun(*m);
}
#endif
