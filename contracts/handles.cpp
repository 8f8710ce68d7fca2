// C17: element handles, surface points and barycentric vectors as values.
#include "points.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/surface/barycentric_vector.h"
#include "geometrycentral/utilities/combining_hash_functions.h"
#ifdef VF_NATIVE
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#endif
static size_t ind(const char* n) {
#ifdef VF_NATIVE
  return vf_bool("small") ? vf_size(n, 0, 3) : vf_size(n, 0, INVALID_IND - 1);
#else
  return vf_size(n, 0, INVALID_IND - 1);
#endif
}
template <class E> static void handle() {
  typedef typename E::ParentMeshT M;
  M* m = (M*)malloc(sizeof(M));
  size_t i = ind("i"), j = ind("j"), k = ind("k");
  E a(m, i), b(m, j), c(m, k), none;
  vf_assert((a.getIndex() == i) & (a.getMesh() == m), "a handle denotes the element it was made for");
  vf_assert((a == b) == (i == j), "equal exactly when they denote the same element");
  vf_assert((a != b) == !(a == b), "different means not equal");
  vf_assert((a == a) & !(a != a), "equal to itself");
  vf_assert((a == b) == (b == a), "equality is symmetric");
  vf_assert(imp((a == b) & (b == c), a == c), "equality is transitive");
  vf_assert((a < b) + (b < a) + (a == b) == 1, "exactly one of less, greater, equal");
  vf_assert(imp((a < b) & (b < c), a < c), "the order is transitive");
  vf_assert(((a > b) == (b < a)) & ((a <= b) == !(b < a)) & ((a >= b) == !(a < b)), "the comparison operators agree");
  std::hash<E> H;
  vf_assert(imp(a == b, H(a) == H(b)), "equal handles hash equally");
  vf_assert(!(a == none) & (none == E()) & !(none != E()) & (none != a), "a default handle equals no element");
  E d(a), e;
  e = a;
  vf_assert((d == a) & (d.getMesh() == m) & (d.getIndex() == i), "a copy denotes the same element");
  vf_assert((e == a) & (e.getMesh() == m) & (e.getIndex() == i), "an assigned handle denotes the same element");
  e = b;
  vf_assert((e == b) & (a.getIndex() == i) & (b.getIndex() == j), "assigning one handle leaves the others alone");
  std::hash<std::pair<E, E>> HP;
  vf_assert(imp((a == b) & (c == d), HP(std::make_pair(a, c)) == HP(std::make_pair(b, d))), "equal pairs hash equally");
  vf_reach("end");
}
VF_CONTRACT(C17, vertex) { handle<Vertex>(); }
VF_CONTRACT(C17, halfedge) { handle<Halfedge>(); }
VF_CONTRACT(C17, corner) { handle<Corner>(); }
VF_CONTRACT(C17, edge) { handle<Edge>(); }
VF_CONTRACT(C17, face) { handle<Face>(); }
VF_CONTRACT(C17, boundaryLoop) { handle<BoundaryLoop>(); }
VF_CONTRACT(C17, point) { handle<pointcloud::Point>(); }

// handles made by a mesh, and changes of kind
VF_CONTRACT(C17, made) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t h = anyHe(a), v = anyVertex(a), e = anyEdge(a), f = anyFace(a);
  vf_assert((m.halfedge(h).getIndex() == h) & (m.halfedge(h).getMesh() == &m), "halfedge");
  vf_assert((m.corner(h).getIndex() == h) & (m.corner(h).getMesh() == &m), "corner");
  vf_assert((m.vertex(v).getIndex() == v) & (m.vertex(v).getMesh() == &m), "vertex");
  vf_assert((m.edge(e).getIndex() == e) & (m.edge(e).getMesh() == &m), "edge");
  vf_assert((m.face(f).getIndex() == f) & (m.face(f).getMesh() == &m), "face");
  vf_assert(!m.face(f).isBoundaryLoop(), "a face is not a boundary loop");
  vf_assert((m.corner(h).halfedge() == m.halfedge(h)) & (m.halfedge(h).corner() == m.corner(h)), "corner of a halfedge");
  vf_reach("end");
}
VF_CONTRACT(C17, loop) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t b = anyIndex("b", a.B), c = anyIndex("c", a.B), f = anyFace(a);
  vf_assume((b < a.B) & (c < a.B));
  BoundaryLoop B = m.boundaryLoop(b), C = m.boundaryLoop(c);
  vf_assert((B.getIndex() == b) & (B.getMesh() == &m), "boundary loop");
  Face g = B.asFace(), k = C.asFace();
  vf_assert((g.getMesh() == &m) & g.isBoundaryLoop(), "a boundary loop is a boundary face");
  BoundaryLoop D = g.asBoundaryLoop();
  vf_assert((D == B) & (D.getMesh() == &m), "back to the boundary loop");
  vf_assert((g == k) == (B == C), "different loops are different faces");
  vf_assert(g != m.face(f), "no face is a boundary loop");
  bool threw = false;
  try {
    m.face(f).asBoundaryLoop();
  } catch (...) {
    threw = true;
  }
  vf_assert(threw, "a face is not accepted as a boundary loop");
  vf_reach("end");
}
static SurfacePoint anyPoint2(AM& a, size_t type) {
  if (type == 0) return SurfacePoint(a.m().vertex(anyVertex(a, "qv")));
  if (type == 1) {
    size_t e = anyEdge(a, "qe");
    return SurfacePoint(a.m().edge(e), vf_real("qt"));
  }
  size_t f = anyFace(a, "qf");
  Vector3 c{vf_real("qx"), vf_real("qy"), vf_real("qz")};
  return SurfacePoint(a.m().face(f), c);
}
VF_CONTRACT(C17, surfacePoint) {
  AM& a = *anyMesh();
  size_t tp = vf_size("tp", 0, 2), tq = vf_size("tq", 0, 2);
  SurfacePoint p = anyPoint(a, tp), q = vf_bool("copy") ? p : anyPoint2(a, tq);
  bool same = p.type == q.type && (p.type == SurfacePointType::Vertex ? p.vertex.getIndex() == q.vertex.getIndex()
                                   : p.type == SurfacePointType::Edge ? (p.edge.getIndex() == q.edge.getIndex()) & (p.tEdge == q.tEdge)
                                                                      : (p.face.getIndex() == q.face.getIndex()) & (p.faceCoords.x == q.faceCoords.x) & (p.faceCoords.y == q.faceCoords.y) & (p.faceCoords.z == q.faceCoords.z));
  vf_assert((p == q) == same, "equal exactly when type, element and coordinates agree");
  vf_assert((p != q) == !same, "different means not equal");
  vf_assert((q == p) == same, "symmetric");
  vf_assert(p == p, "reflexive");
}
VF_CONTRACT(C17, barycentricVector) {
  AM& a = *anyMesh();
  size_t tp = vf_size("tp", 0, 2), tq = vf_size("tq", 0, 2);
  auto vec = [&](size_t t, const char* e, const char* x, const char* y, const char* z) {
    if (t == 0) return BarycentricVector(a.m().vertex(anyVertex(a, e)));
    if (t == 1) {
      size_t i = anyEdge(a, e);
      Vector2 c{vf_real(x), vf_real(y)};
      return BarycentricVector(a.m().edge(i), c);
    }
    size_t i = anyFace(a, e);
    Vector3 c{vf_real(x), vf_real(y), vf_real(z)};
    return BarycentricVector(a.m().face(i), c);
  };
  BarycentricVector p = vec(tp, "pe", "px", "py", "pz"), q = vf_bool("copy") ? p : vec(tq, "qe", "qx", "qy", "qz");
  bool same = p.type == q.type && (p.type == BarycentricVectorType::Vertex ? p.vertex.getIndex() == q.vertex.getIndex()
                                   : p.type == BarycentricVectorType::Edge ? (p.edge.getIndex() == q.edge.getIndex()) & (p.edgeCoords.x == q.edgeCoords.x) & (p.edgeCoords.y == q.edgeCoords.y)
                                                                           : (p.face.getIndex() == q.face.getIndex()) & (p.faceCoords.x == q.faceCoords.x) & (p.faceCoords.y == q.faceCoords.y) & (p.faceCoords.z == q.faceCoords.z));
  vf_assert((p == q) == same, "equal exactly when type, element and coordinates agree");
  vf_assert((p != q) == !same, "different means not equal");
  vf_assert((q == p) == same, "symmetric");
  vf_assert(p == p, "reflexive");
}
#ifdef VF_NATIVE
// handles as keys of ordered and unordered containers, printing
template <class E, class R> static void keys(R range, const char* prefix) {
  std::unordered_map<E, size_t> h;
  std::map<E, size_t> o;
  std::set<std::string> names;
  size_t n = 0;
  for (E e : range) {
    vf_assert(!h.count(e) && !o.count(e), "each element is a new key");
    h[e] = o[e] = n++;
    std::ostringstream s;
    s << e;
    vf_assert(s.str() == std::to_string(e), "printing");
    names.insert(s.str());
  }
  vf_assert(h.size() == n && o.size() == n && names.size() == n, "one key for each element");
  size_t k = 0;
  for (E e : range) {
    vf_assert(h.at(e) == k && o.at(e) == k, "found again");
    k++;
  }
  vf_assert(!h.count(E()) && !o.count(E()), "the default handle is no key");
}
VF_BOUNDED(C17, keys) {
  auto p = zoo::baseMesh();
  zoo::history(*p, 3);
  SurfaceMesh& m = *p;
  keys<Vertex>(m.vertices(), "v");
  keys<Halfedge>(m.halfedges(), "h");
  keys<Corner>(m.corners(), "c");
  keys<Edge>(m.edges(), "e");
  keys<Face>(m.faces(), "f");
  keys<BoundaryLoop>(m.boundaryLoops(), "b");
  vf_reach("end");
}
#endif
