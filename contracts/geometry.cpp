// C14: per-element geometric quantities of a triangle mesh.
#include "points.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#ifdef VF_NATIVE
#include "meshops.h"
#endif
using namespace sm;
typedef EdgeLengthGeometry ELG;
typedef VertexPositionGeometry VPG;

// ------------------------------------------------------------------------------------------------ geometries with arbitrary input
#ifdef VF_NATIVE
static ELG& lengths(AM& a) {
  EdgeData<double> l(a.m());
  for (Edge e : a.m().edges()) l[e] = 1. + std::ldexp((double)vf_size("l", 0, 900), -10);
  return *new ELG(a.m(), l);
}
static VPG& positions(AM& a) {
  VertexData<Vector3> p(a.m());
  auto c = []() { return std::ldexp((double)vf_size("coord", 0, 1 << 12), -10); };
  for (Vertex v : a.m().vertices()) { double x = c(), y = c(), z = c(); p[v] = Vector3{x, y, z}; }
  return *new VPG(a.m(), p);
}
#else
template <class G> static G& blank(AM& a) {
  G* g = (G*)malloc(sizeof(G));
  *(SurfaceMesh**)((char*)g + 8) = &a.m(); // BaseGeometryInterface::mesh
  return *g;
}
template <class E, class T> static void holdsArray(AM& a, MeshData<E, T>& d, T* data, size_t n) {
  d.mesh = &a.m();
  d.data.m_storage.m_data = data;
  d.data.m_storage.m_rows = (long)n;
}
template <class E> static void anyReals(AM& a, MeshData<E, double>& d, const char* n, size_t size) {
  auto* s = new std::vector<double>();
  vf_sym_reals(s, n, size);
  holdsArray(a, d, s->data(), size);
}
template <class E> static void anyVecs(AM& a, MeshData<E, Vector3>& d, const char* n, size_t size) {
  auto* s = new std::vector<Vector3>();
  vf_sym_vecs(s, n, size, 3);
  holdsArray(a, d, s->data(), size);
}
template <class E> static void anyVecs(AM& a, MeshData<E, Vector2>& d, const char* n, size_t size) {
  auto* s = new std::vector<Vector2>();
  vf_sym_vecs(s, n, size, 2);
  holdsArray(a, d, s->data(), size);
}
static ELG& lengths(AM& a) {
  ELG& g = blank<ELG>(a);
  anyReals(a, g.edgeLengths, "len", a.m().nEdgesCapacityCount);
  return g;
}
static VPG& positions(AM& a) {
  VPG& g = blank<VPG>(a);
  anyVecs(a, g.vertexPositions, "pos", a.m().nVerticesCapacityCount);
  return g;
}
#endif
// the triangle of an interior halfedge: corners i, j, k; side lengths; the values the definitions speak about
static Vector3 pos(AM& a, VPG& g, size_t h) { return g.vertexPositions.raw()[a.ve[h]]; }
static double len(ELG& g, size_t h) { return g.edgeLengths.raw()[h / 2]; }
struct Sides { double ij, jk, ki; };
static double sq(double x) { return x * x; }
static double heron16(const Sides& s) { return (s.ij + s.jk + s.ki) * (s.jk + s.ki - s.ij) * (s.ij + s.ki - s.jk) * (s.ij + s.jk - s.ki); } // (4 area)^2
static Sides sides(AM& a, ELG& g, size_t h) { // of a nondegenerate triangle
  triangle(a, h);
  size_t n = a.nx[h], o = a.nx[n];
  Sides s{len(g, h), len(g, n), len(g, o)};
  vf_assume((s.ij > 0) & (s.jk > 0) & (s.ki > 0));
  vf_assume((s.ij < s.jk + s.ki) & (s.jk < s.ki + s.ij) & (s.ki < s.ij + s.jk));
  vf_le(0, heron16(s), "the square of the area is not negative");
  return s;
}
struct Corners { Vector3 u, w, n; }; // at the corner of h: the two sides and their cross product
static Corners corners(AM& a, VPG& g, size_t h) {
  triangle(a, h);
  size_t n = a.nx[h], o = a.nx[n];
  Vector3 p = pos(a, g, h), q = pos(a, g, n), r = pos(a, g, o);
  Corners c{Vector3{q.x - p.x, q.y - p.y, q.z - p.z}, Vector3{r.x - p.x, r.y - p.y, r.z - p.z}, Vector3{0, 0, 0}};
  c.n = Vector3{c.u.y * c.w.z - c.u.z * c.w.y, c.u.z * c.w.x - c.u.x * c.w.z, c.u.x * c.w.y - c.u.y * c.w.x};
  return c;
}
static double dot3(const Vector3& u, const Vector3& w) { return u.x * w.x + u.y * w.y + u.z * w.z; }
static void proper(const Corners& c) { vf_assume(dot3(c.n, c.n) > 0.001); } // not degenerate
static size_t interiorHe(AM& a) {
  size_t h = anyHe(a, "h");
  vf_assume(a.fa[h] < a.F);
  return h;
}
static size_t onFaceHe(AM& a, size_t f) { return a.fh[f]; }

// ------------------------------------------------------------------------------------------------ values on demand, from edge lengths
static void specArea(const Sides& s, double A) {
  vf_le(0, A, "areas are not negative");
  vf_eq(16 * A * A, heron16(s), "area of the triangle with these side lengths");
}
VF_CONTRACT(C14, len_faceArea) {
  AM& a = *anyTriMesh();
  ELG& g = lengths(a);
  size_t f = anyFace(a);
  Sides s = sides(a, g, a.fh[f]);
  specArea(s, g.faceArea(a.m().face(f)));
  vf_reach("area");
}
static void specAngle(double la, double lb, double lopp, double t) { // law of cosines
  vf_le(0, t, "angles are between zero");
  vf_le(t, 3.1415926536, "and pi");
  vf_eq(2 * la * lb * std::cos(t), la * la + lb * lb - lopp * lopp, "angle between the sides");
}
VF_CONTRACT(C14, len_cornerAngle) {
  AM& a = *anyTriMesh();
  ELG& g = lengths(a);
  size_t h = interiorHe(a);
  Sides s = sides(a, g, h);
  specAngle(s.ij, s.ki, s.jk, g.cornerAngle(a.m().corner(h)));
  vf_reach("angle");
}
static void specCot(const Sides& s, double A, double w) { // half the cotangent of the opposite angle, in a triangle of area A
  vf_eq(8 * A * w, sq(s.jk) + sq(s.ki) - sq(s.ij), "half the cotangent of the opposite angle");
}
#ifndef VF_NATIVE
static double area; // of the one triangle
static double areaC(const ELG* g, Face f) { return area; } // contract of faceArea
#endif
static double areaOf(ELG& g, Sides& s, size_t f) {
#ifdef VF_NATIVE
  return g.faceArea(Face(&g.mesh, f));
#else
  area = vf_real("area");
  vf_assume((area > 0) & (16 * area * area == heron16(s)));
  vf_replace("geometrycentral::surface::EdgeLengthGeometry::faceArea(", (void (*)()) & areaC, 0);
  return area;
#endif
}
VF_CONTRACT(C14, len_halfedgeCotan) {
  AM& a = *anyTriMesh();
  ELG& g = lengths(a);
  size_t h = interiorHe(a);
  Sides s = sides(a, g, h);
  double A = areaOf(g, s, a.fa[h]);
  specCot(s, A, g.halfedgeCotanWeight(a.m().halfedge(h)));
  vf_reach("cotan");
}
VF_CONTRACT(C14, len_exteriorCotan) {
  AM& a = *anyTriMesh();
  ELG& g = lengths(a);
  size_t h = anyHe(a, "h");
  vf_assume(a.fa[h] >= a.F);
  vf_eq(g.halfedgeCotanWeight(a.m().halfedge(h)), 0, "no weight outside the mesh");
  vf_reach("cotan");
}
static double half(Sides& s, double A) { return (sq(s.jk) + sq(s.ki) - sq(s.ij)) / (8 * A); }
VF_CONTRACT(C14, len_circumradius) {
  AM& a = *anyTriMesh();
  ELG& g = lengths(a);
  size_t f = anyFace(a);
  Sides s = sides(a, g, a.fh[f]);
  double A = areaOf(g, s, f), r = g.faceCircumradius(a.m().face(f));
  vf_eq(4 * A * r, s.ij * s.jk * s.ki, "radius of the circle through the corners");
  vf_reach("radius");
}
#ifndef VF_NATIVE
static double halfCot[2]; // of the two sides of an edge
static double halfCotC(const void*, Halfedge he) { return halfCot[he.getIndex() % 2]; }
#endif
template <class G> static void edgeCotan(AM& a, G& g, const char* fn) { // sum over the interior sides
  size_t e = anyEdge(a), h = 2 * e;
#ifdef VF_NATIVE
  double w0 = g.halfedgeCotanWeight(Halfedge(&g.mesh, h)), w1 = g.halfedgeCotanWeight(Halfedge(&g.mesh, h + 1));
  vf_assume(std::isfinite(w0) && std::isfinite(w1));
#else
  double w0 = vf_real("cot0"), w1 = vf_real("cot1");
  halfCot[0] = w0; halfCot[1] = w1;
  vf_replace(fn, (void (*)()) & halfCotC, 0);
  vf_instantiate("next", h);
  vf_instantiate("next", h + 1);
#endif
  bool in0 = a.fa[h] < a.F, in1 = a.fa[h + 1] < a.F;
  double w = g.edgeCotanWeight(a.m().edge(e));
  vf_eq(w, (in0 ? w0 : 0) + (in1 ? w1 : 0), "sum over the triangles at the edge");
  vf_reach(in0 & in1 ? "interior edge" : "boundary edge");
}
VF_CONTRACT(C14, len_edgeCotan) {
  AM& a = *anyTriMesh();
  edgeCotan(a, lengths(a), "geometrycentral::surface::EdgeLengthGeometry::halfedgeCotanWeight(");
}
// ------------------------------------------------------------------------------------------------ values on demand, from positions
VF_CONTRACT(C14, pos_edgeLength) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t e = anyEdge(a);
  vf_instantiate("next", 2 * e);
  Vector3 p = pos(a, g, 2 * e), q = pos(a, g, 2 * e + 1), d{q.x - p.x, q.y - p.y, q.z - p.z};
  double l = g.edgeLength(a.m().edge(e));
  vf_le(0, l, "lengths are not negative");
  vf_eq(l * l, dot3(d, d), "distance of the endpoints");
  Vector3 v = g.halfedgeVector(a.m().halfedge(2 * e)), w = g.halfedgeVector(a.m().halfedge(2 * e + 1));
  vf_eq(v.x, d.x, "halfedge vectors point from tail to tip");
  vf_eq(v.y, d.y, "halfedge vectors point from tail to tip");
  vf_eq(v.z, d.z, "halfedge vectors point from tail to tip");
  vf_eq(w.x, -d.x, "the vector of the twin is opposite");
  vf_eq(w.y, -d.y, "the vector of the twin is opposite");
  vf_eq(w.z, -d.z, "the vector of the twin is opposite");
  vf_reach("length");
}
static void specArea3(const Corners& c, double A) {
  vf_le(0, A, "areas are not negative");
  vf_eq(4 * A * A, dot3(c.n, c.n), "area of the triangle");
}
VF_CONTRACT(C14, pos_faceArea) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t f = anyFace(a);
  specArea3(corners(a, g, a.fh[f]), g.faceArea(a.m().face(f)));
  vf_reach("area");
}
// unit vectors along the sides of one corner, for the contract of unit() (C09)
struct Units { Vector3 u, w, eu, ew; double lu, lw; };
static Units un;
static Vector3 along(const Vector3& u, double l) { return Vector3{u.x / l, u.y / l, u.z / l}; }
static double anyLength(const Vector3& u, const char* n) { // of u
#ifdef VF_NATIVE
  return std::sqrt(dot3(u, u));
#else
  double l = vf_real(n);
  vf_assume((l > 0) & (l * l == dot3(u, u)));
  return l;
#endif
}
static Vector3 anyUnit(const Vector3& u, double l, const char* n) { // unit vector of u, which has length l
#ifdef VF_NATIVE
  return along(u, l);
#else
  Vector3 e{vf_real(n), vf_real(n), vf_real(n)};
  vf_assume((e.x * l == u.x) & (e.y * l == u.y) & (e.z * l == u.z) & (dot3(e, e) == 1));
  return e;
#endif
}
#ifndef VF_NATIVE
static bool sameVec(const Vector3& a, const Vector3& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static Vector3 unitC(Vector3 v) {
  if (sameVec(v, un.u)) return un.eu;
  if (sameVec(v, un.w)) return un.ew;
  double l = anyLength(v, "length");
  return anyUnit(v, l, "unit");
}
#endif
static void units(const Vector3& u, const Vector3& w) {
  un.u = u;
  un.w = w;
  un.lu = anyLength(u, "lengthU");
  un.lw = anyLength(w, "lengthW");
  un.eu = anyUnit(u, un.lu, "unitU");
  un.ew = anyUnit(w, un.lw, "unitW");
#ifndef VF_NATIVE
  vf_replace("geometrycentral::unit(geometrycentral::Vector3", (void (*)()) & unitC, 0);
#endif
}
static double unitProduct() { // between -1 and 1 (lemma)
  double q = dot3(un.eu, un.ew);
#ifndef VF_NATIVE
  vf_assume((q <= 1) & (q >= -1));
#endif
  return q;
}
VF_CONTRACT(C14, lemma_unitProduct) { // of any unit vectors
  Vector3 e{vf_real("ex"), vf_real("ey"), vf_real("ez")}, f{vf_real("fx"), vf_real("fy"), vf_real("fz")};
#ifdef VF_NATIVE
  vf_assume((dot3(e, e) > 0) & (dot3(f, f) > 0));
  e = along(e, std::sqrt(dot3(e, e)));
  f = along(f, std::sqrt(dot3(f, f)));
#else
  vf_assume((dot3(e, e) == 1) & (dot3(f, f) == 1));
#endif
  Vector3 c{e.y * f.z - e.z * f.y, e.z * f.x - e.x * f.z, e.x * f.y - e.y * f.x};
  double q = dot3(e, f), r = dot3(c, c);
  vf_eq(1 - q * q, r, "Lagrange's identity");
  vf_le(0, r, "squares");
  vf_le(q, 1, "Cauchy-Schwarz");
  vf_le(-1, q, "Cauchy-Schwarz");
}
static void specAngle3(const Corners& c, double t) {
  vf_le(0, t, "angles are between zero");
  vf_le(t, 3.1415926536, "and pi");
  vf_eq(std::cos(t) * un.lu * un.lw, dot3(c.u, c.w), "angle between the sides");
}
VF_CONTRACT(C14, pos_cornerAngle) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t h = interiorHe(a);
  Corners c = corners(a, g, h);
  proper(c);
  units(c.u, c.w);
  unitProduct();
  specAngle3(c, g.cornerAngle(a.m().corner(h)));
  vf_reach("angle");
}
static void specCot3(const Corners& c, double w) {
  double n = std::sqrt(dot3(c.n, c.n));
  vf_eq(2 * w * n, dot3(c.u, c.w), "half the cotangent of the angle");
}
VF_CONTRACT(C14, pos_halfedgeCotan) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t h = interiorHe(a);
  triangle(a, h);
  Corners c = corners(a, g, a.nx[a.nx[h]]); // opposite corner
  proper(c);
  specCot3(c, g.halfedgeCotanWeight(a.m().halfedge(h)));
  vf_reach("cotan");
}
VF_CONTRACT(C14, pos_exteriorCotan) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t h = anyHe(a, "h");
  vf_assume(a.fa[h] >= a.F);
  vf_eq(g.halfedgeCotanWeight(a.m().halfedge(h)), 0, "no weight outside the mesh");
  vf_reach("cotan");
}
VF_CONTRACT(C14, pos_edgeCotan) {
  AM& a = *anyTriMesh();
  edgeCotan(a, positions(a), "geometrycentral::surface::VertexPositionGeometry::halfedgeCotanWeight(");
}
static void specNormal(const Corners& c, const Vector3& n) {
  double r = std::sqrt(dot3(c.n, c.n));
  vf_eq(n.x * r, c.n.x, "unit vector along the cross product of the sides");
  vf_eq(n.y * r, c.n.y, "unit vector along the cross product of the sides");
  vf_eq(n.z * r, c.n.z, "unit vector along the cross product of the sides");
}
VF_CONTRACT(C14, pos_faceNormal) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t f = anyFace(a);
  Corners c = corners(a, g, a.fh[f]);
  proper(c);
  specNormal(c, g.faceNormal(a.m().face(f)));
  vf_reach("normal");
}
#ifndef VF_NATIVE
static Vector3 normalOf[2];
static size_t dihedralE;
static AM* dihedralM;
static Vector3 normalC(const void*, Face f) { // contract of faceNormal
  bool first = f.getIndex() == dihedralM->fa[2 * dihedralE];
  return first ? normalOf[0] : normalOf[1];
}
#endif
static void specDihedral(const Vector3& e, const Vector3& n, const Vector3& m, double t) { // signed angle about the direction e of the edge
  double x = dot3(n, m);
  Vector3 c{n.y * m.z - n.z * m.y, n.z * m.x - n.x * m.z, n.x * m.y - n.y * m.x};
  double y = dot3(e, c), r = std::sqrt(x * x + y * y);
  vf_eq(std::cos(t) * r, x, "angle between the face normals");
  vf_eq(std::sin(t) * r, y, "positive when the edge is convex");
}
VF_CONTRACT(C14, pos_dihedral) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t e = anyEdge(a), h = 2 * e;
  vf_instantiate("next", h);
  vf_instantiate("next", h + 1);
  vf_assume((a.fa[h] < a.F) & (a.fa[h + 1] < a.F) & (a.fa[h] != a.fa[h + 1]));
  Vector3 p = pos(a, g, h), q = pos(a, g, h + 1), d{q.x - p.x, q.y - p.y, q.z - p.z};
  vf_assume(dot3(d, d) > 0.001);
#ifdef VF_NATIVE
  Vector3 n = g.faceNormal(Face(&g.mesh, a.fa[h])), m = g.faceNormal(Face(&g.mesh, a.fa[h + 1]));
  vf_assume(isfinite(n) && isfinite(m));
#else
  Vector3 n{vf_real("nx"), vf_real("ny"), vf_real("nz")}, m{vf_real("mx"), vf_real("my"), vf_real("mz")};
  normalOf[0] = n; normalOf[1] = m; dihedralE = e; dihedralM = &a;
  vf_assume(dot3(n, m) != 0); // (the right angle is covered natively)
  vf_replace("geometrycentral::surface::VertexPositionGeometry::faceNormal(", (void (*)()) & normalC, 0);
#endif
  units(d, d);
  specDihedral(un.eu, n, m, g.edgeDihedralAngle(a.m().edge(e)));
  vf_reach("angle");
}
VF_CONTRACT(C14, pos_boundaryDihedral) {
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  size_t e = anyEdge(a), h = 2 * e;
  vf_assume((a.fa[h] >= a.F) | (a.fa[h + 1] >= a.F));
  vf_eq(g.edgeDihedralAngle(a.m().edge(e)), 0, "no angle at the boundary");
  vf_reach("angle");
}

// ------------------------------------------------------------------------------------------------ cached values, from edge lengths
// One arbitrary iteration of the loop of computeX: at its end the element of the iteration has the value of the definition, and every other
// slot what it had before. The range visits the live elements, each once (C05).
struct It { // of an iteration: the mesh, its geometry, an arbitrary slot and the value there when it began
  AM* a; ELG* l; VPG* p;
  size_t n, slot;
  double old, old2, old3;
  double (*zero)(It&); // what must be zero before the first iteration
  bool ahead;           // and while the iterations have not come to the slot
};
static bool faceLive(AM& a, size_t f) { return a.fh[f] != NONE; }
static bool vertLive(AM& a, size_t v) { return a.vh[v] != NONE; }
static bool edgeLive(AM& a, size_t e) { return a.nx[2 * e] != NONE; }
static bool sideLive(AM& a, size_t h) { return (a.nx[h] != NONE) & (a.fa[h] < a.F); }
static bool cornerLive(AM& a, size_t h) { return sideLive(a, h); }
static size_t edgesEnd(AM& a) { return a.H / 2; }
static bool outerLive(AM& a, size_t h) { return (a.nx[h] != NONE) & (a.fa[h] >= a.F); }
typedef bool (*LiveF)(AM&, size_t);
typedef void (*ItF)(It&, size_t);
typedef IntrinsicGeometryInterface IG;
typedef EmbeddedGeometryInterface EG;
#ifndef VF_NATIVE
static unsigned have; // the quantities that are available
static void* needs[4];
static void ensured(void* q) { have |= (q == needs[0] ? 1u : 0u) | (q == needs[1] ? 2u : 0u) | (q == needs[2] ? 4u : 0u) | (q == needs[3] ? 8u : 0u); }
template <LiveF LIVE> static bool cursorLive(void* c, size_t v, size_t) { It& i = *(It*)c; return (v == i.n) | ((v < i.n) & LIVE(*i.a, v)); }
static bool startsAtZero(void* c, size_t v, size_t entry) { It& i = *(It*)c; return imp((v == entry) | (i.ahead & (i.slot >= v)), i.zero(i) == 0); }
template <ItF BEGIN> static void beginIt(void* c, size_t v) { BEGIN(*(It*)c, v); }
template <ItF END> static void endIt(void* c, size_t v) {
  END(*(It*)c, v);
  vf_reach("iteration");
}
template <class D> static void cold(D& d) { d.mesh = nullptr; d.data.m_storage.m_data = nullptr; d.data.m_storage.m_rows = 0; }
#endif
static It& iteration(AM& a, ELG* l, VPG* p, size_t n) {
  It& i = *new It{&a, l, p, n, 0, 0, 0, 0, nullptr, false};
#ifndef VF_NATIVE
  i.slot = vf_size("slot", 0, NONE);
#endif
  return i;
}
template <LiveF LIVE, ItF BEGIN, ItF END, class G, class D> static void cached(It& i, G& g, D& out, const char* fn, void (*run)(G&), void* q0, void* q1 = nullptr, void* q2 = nullptr) {
#ifdef VF_NATIVE
  run(g);
  for (size_t v = 0; v < i.n; v++)
    if (LIVE(*i.a, v)) { i.slot = v; END(i, v); }
#else
  cold(out);
  needs[0] = q0; needs[1] = q1; needs[2] = q2;
  have = 0;
  vf_replace("geometrycentral::DependentQuantity::ensureHave(", (void (*)()) & ensured, 0);
  vf_loop_keep("RangeIteratorBase", cursorLive<LIVE>, &i);
  vf_loop_outer(fn);
  vf_loop_keep(fn, cursorLive<LIVE>, &i);
  if (i.zero) vf_loop_keep(fn, startsAtZero, &i);
  vf_loop_body(fn, beginIt<BEGIN>, endIt<END>, &i);
  run(g);
  vf_assert(((have & 1) != 0) & ((q1 == nullptr) | ((have & 2) != 0)) & ((q2 == nullptr) | ((have & 4) != 0)), "what the values depend on is available");
  vf_assert(out.mesh == &i.a->m(), "the values belong to the mesh");
  vf_reach("done");
#endif
}
#ifdef VF_NATIVE
#define RUN(G, NAME) [](G& g) { g.require##NAME(); }
#define CPP(G, NAME) ""
#else
#define RUN(G, NAME) [](G& g) { g.G::compute##NAME(); }
#endif
#define INTRINSIC(NAME) "IntrinsicGeometryInterface::compute" #NAME, RUN(IG, NAME)
#define EMBEDDED(NAME) "EmbeddedGeometryInterface::compute" #NAME, RUN(EG, NAME)
template <class D> static double val(D& d, size_t k) { return d.raw()[(long)k]; }
template <class D> static void before(It& i, D& d) { // remember the value of the arbitrary slot
  vf_assume(i.slot < (size_t)d.raw().rows());
  i.old = val(d, i.slot);
}
template <class D> static void others(It& i, size_t v, D& d) {
#ifndef VF_NATIVE
  if (i.slot != v) vf_eq(val(d, i.slot), i.old, "no other value changes");
#endif
}
#define LENGTHS AM& a = *anyTriMesh(); ELG& g = lengths(a)
#define POSITIONS AM& a = *anyTriMesh(); VPG& g = positions(a)

static void bArea(It& i, size_t f) { before(i, i.l->faceAreas); sides(*i.a, *i.l, i.a->fh[f]); }
static void eArea(It& i, size_t f) {
  specArea(sides(*i.a, *i.l, i.a->fh[f]), val(i.l->faceAreas, f));
  others(i, f, i.l->faceAreas);
}
VF_CONTRACT(C14, len_faceAreas) {
  LENGTHS;
  cached<faceLive, bArea, eArea, IG>(iteration(a, &g, nullptr, a.F), g, g.faceAreas, INTRINSIC(FaceAreas), &g.edgeLengthsQ);
}
static void bAngle(It& i, size_t h) { before(i, i.l->cornerAngles); sides(*i.a, *i.l, h); }
static void eAngle(It& i, size_t h) {
  Sides s = sides(*i.a, *i.l, h);
  specAngle(s.ij, s.ki, s.jk, val(i.l->cornerAngles, h));
  others(i, h, i.l->cornerAngles);
}
VF_CONTRACT(C14, len_cornerAngles) {
  LENGTHS;
  cached<cornerLive, bAngle, eAngle, IG>(iteration(a, &g, nullptr, a.H), g, g.cornerAngles, INTRINSIC(CornerAngles), &g.edgeLengthsQ);
}
// what an earlier quantity holds, in the iteration
#ifdef VF_NATIVE
#define GIVEN(...)
#else
#define GIVEN(...) __VA_ARGS__
#endif
static double areaAt(It& i, Sides& s, size_t f) {
  double A = val(i.l->faceAreas, f);
#ifndef VF_NATIVE
  vf_assume((A > 0) & (16 * A * A == heron16(s)));
#endif
  return A;
}
static void bCot(It& i, size_t h) {
  before(i, i.l->halfedgeCotanWeights);
  Sides s = sides(*i.a, *i.l, h);
  areaAt(i, s, i.a->fa[h]);
}
static void eCot(It& i, size_t h) {
  Sides s = sides(*i.a, *i.l, h);
  specCot(s, areaAt(i, s, i.a->fa[h]), val(i.l->halfedgeCotanWeights, h));
  others(i, h, i.l->halfedgeCotanWeights);
}
VF_CONTRACT(C14, len_halfedgeCotans) {
  LENGTHS;
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  cached<sideLive, bCot, eCot, IG>(iteration(a, &g, nullptr, a.H), g, g.halfedgeCotanWeights, INTRINSIC(HalfedgeCotanWeights), &g.edgeLengthsQ, &g.faceAreasQ);
}
static void bEdgeCot(It& i, size_t e) {
  AM& a = *i.a;
  before(i, i.l->edgeCotanWeights);
  vf_instantiate("next", 2 * e);
  vf_instantiate("next", 2 * e + 1);
  triangle(a, 2 * e);
  triangle(a, 2 * e + 1);
  vf_assume(imp(a.fa[2 * e] < a.F, val(i.l->faceAreas, a.fa[2 * e]) > 0) & imp(a.fa[2 * e + 1] < a.F, val(i.l->faceAreas, a.fa[2 * e + 1]) > 0));
}
static double halfCotAt(It& i, size_t h) { // half the cotangent opposite of h
  AM& a = *i.a;
  if (a.fa[h] >= a.F) return 0;
  size_t n = a.nx[h], o = a.nx[n];
  return (sq(len(*i.l, n)) + sq(len(*i.l, o)) - sq(len(*i.l, h))) / (8 * val(i.l->faceAreas, a.fa[h]));
}
static void eEdgeCot(It& i, size_t e) {
  vf_eq(val(i.l->edgeCotanWeights, e), halfCotAt(i, 2 * e) + halfCotAt(i, 2 * e + 1), "sum of the halves over the triangles at the edge");
  others(i, e, i.l->edgeCotanWeights);
}
VF_CONTRACT(C14, len_edgeCotans) {
  LENGTHS;
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  cached<edgeLive, bEdgeCot, eEdgeCot, IG>(iteration(a, &g, nullptr, edgesEnd(a)), g, g.edgeCotanWeights, INTRINSIC(EdgeCotanWeights), &g.edgeLengthsQ, &g.faceAreasQ);
}
// sums over the triangles at a vertex: an arbitrary one adds its share to its corners
static double zDual(It& i) { return val(i.l->vertexDualAreas, i.slot); }
static void bDual(It& i, size_t f) { before(i, i.l->vertexDualAreas); triangle(*i.a, i.a->fh[f]); }
static void eDual(It& i, size_t f) {
#ifdef VF_NATIVE
  double all = 0;
  for (size_t v = 0; v < i.a->V; v++) if (vertLive(*i.a, v)) all += val(i.l->vertexDualAreas, v);
  for (size_t k = 0; k < i.a->F; k++) if (faceLive(*i.a, k)) all -= val(i.l->faceAreas, k);
  vf_eq(all, 0, "the areas of the triangles are distributed");
  double sum = 0;
  for (size_t k = 0; k < i.a->F; k++) 
    if (faceLive(*i.a, k))
      for (Vertex v : i.a->m().face(k).adjacentVertices())
        if (v.getIndex() == i.a->ve[i.a->fh[f]]) sum += val(i.l->faceAreas, k) / 3;
  vf_eq(val(i.l->vertexDualAreas, i.a->ve[i.a->fh[f]]), sum, "a third of every triangle at the vertex");
#else
  AM& a = *i.a;
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n];
  double share = val(i.l->faceAreas, f) / 3, s = (a.ve[h] == i.slot ? share : 0) + (a.ve[n] == i.slot ? share : 0) + (a.ve[o] == i.slot ? share : 0);
  vf_eq(val(i.l->vertexDualAreas, i.slot), i.old + s, "a third of the area for each corner");
#endif
}
VF_CONTRACT(C14, len_vertexDualAreas) {
  LENGTHS;
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  It& i = iteration(a, &g, nullptr, a.F);
  GIVEN(vf_assume(i.slot < a.m().nVerticesCapacityCount));
  i.zero = zDual;
  cached<faceLive, bDual, eDual, IG>(i, g, g.vertexDualAreas, INTRINSIC(VertexDualAreas), &g.faceAreasQ);
}
static double zSum(It& i) { return val(i.l->vertexAngleSums, i.slot); }
static void bSum(It& i, size_t h) { before(i, i.l->vertexAngleSums); vf_instantiate("next", h); }
static void eSum(It& i, size_t h) {
  AM& a = *i.a;
#ifdef VF_NATIVE
  double s = 0;
  for (size_t k = 0; k < a.H; k++) if (sideLive(a, k) && a.ve[k] == a.ve[h]) s += val(i.l->cornerAngles, k);
  vf_eq(val(i.l->vertexAngleSums, a.ve[h]), s, "the sum of the angles at the vertex");
#else
  vf_eq(val(i.l->vertexAngleSums, i.slot), i.old + (a.ve[h] == i.slot ? val(i.l->cornerAngles, h) : 0), "the angle counts for its vertex");
#endif
}
VF_CONTRACT(C14, len_vertexAngleSums) {
  LENGTHS;
  GIVEN(anyReals(a, g.cornerAngles, "angles", a.m().nHalfedgesCapacityCount));
  It& i = iteration(a, &g, nullptr, a.H);
  GIVEN(vf_assume(i.slot < a.m().nVerticesCapacityCount));
  i.zero = zSum;
  cached<cornerLive, bSum, eSum, IG>(i, g, g.vertexAngleSums, INTRINSIC(VertexAngleSums), &g.cornerAnglesQ);
}
static bool onBoundary(AM& a, size_t v) { return Vertex(&a.m(), v).isBoundary(); } // (decided by C02)
static void bScaled(It& i, size_t h) {
  before(i, i.l->cornerScaledAngles);
  vf_instantiate("next", h);
  vf_assume(val(i.l->vertexAngleSums, i.a->ve[h]) > 0);
}
static void eScaled(It& i, size_t h) {
  AM& a = *i.a;
  vf_eq(val(i.l->cornerScaledAngles, h) * val(i.l->vertexAngleSums, a.ve[h]), (onBoundary(a, a.ve[h]) ? 1 : 2) * PI * val(i.l->cornerAngles, h), "angles in proportion, adding up to a half or whole turn");
  others(i, h, i.l->cornerScaledAngles);
}
VF_CONTRACT(C14, len_cornerScaledAngles) {
  LENGTHS;
  GIVEN(anyReals(a, g.cornerAngles, "angles", a.m().nHalfedgesCapacityCount));
  GIVEN(anyReals(a, g.vertexAngleSums, "sums", a.m().nVerticesCapacityCount));
  cached<cornerLive, bScaled, eScaled, IG>(iteration(a, &g, nullptr, a.H), g, g.cornerScaledAngles, INTRINSIC(CornerScaledAngles), &g.cornerAnglesQ, &g.vertexAngleSumsQ);
}
static double zDefect(It& i) { return val(i.l->vertexGaussianCurvatures, i.slot); }
static void bDefect(It& i, size_t v) { before(i, i.l->vertexGaussianCurvatures); vf_instantiate("vert", v); }
static void eDefect(It& i, size_t v) {
  if (onBoundary(*i.a, v)) vf_eq(val(i.l->vertexGaussianCurvatures, v), GIVEN(i.slot != v ? val(i.l->vertexGaussianCurvatures, v) :) 0, "none at the boundary");
  else vf_eq(val(i.l->vertexGaussianCurvatures, v), 2 * PI - val(i.l->vertexAngleSums, v), "what the angles lack to a whole turn");
  others(i, v, i.l->vertexGaussianCurvatures);
}
VF_CONTRACT(C14, len_vertexGaussian) {
  LENGTHS;
  GIVEN(anyReals(a, g.vertexAngleSums, "sums", a.m().nVerticesCapacityCount));
  It& i = iteration(a, &g, nullptr, a.V);
  GIVEN(vf_assume(i.slot < a.m().nVerticesCapacityCount));
  i.zero = zDefect;
  i.ahead = true;
  cached<vertLive, bDefect, eDefect, IG>(i, g, g.vertexGaussianCurvatures, INTRINSIC(VertexGaussianCurvatures), &g.vertexAngleSumsQ);
}
static void bFaceGauss(It& i, size_t f) { before(i, i.l->faceGaussianCurvatures); triangle(*i.a, i.a->fh[f]); }
static void eFaceGauss(It& i, size_t f) {
  AM& a = *i.a;
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n];
  auto& c = i.l->cornerScaledAngles;
  vf_eq(val(i.l->faceGaussianCurvatures, f), val(c, h) + val(c, n) + val(c, o) - PI, "excess of the scaled angles");
  others(i, f, i.l->faceGaussianCurvatures);
}
VF_CONTRACT(C14, len_faceGaussian) {
  LENGTHS;
  GIVEN(anyReals(a, g.cornerScaledAngles, "angles", a.m().nHalfedgesCapacityCount));
  cached<faceLive, bFaceGauss, eFaceGauss, IG>(iteration(a, &g, nullptr, a.F), g, g.faceGaussianCurvatures, INTRINSIC(FaceGaussianCurvatures), &g.cornerScaledAnglesQ);
}
static Vector2 vec(ELG& g, size_t h) { return g.halfedgeVectorsInFace.raw()[(long)h]; }
static void bVectors(It& i, size_t f) {
  Sides s = sides(*i.a, *i.l, i.a->fh[f]);
  areaAt(i, s, f);
  vf_assume(i.slot < (size_t)i.l->halfedgeVectorsInFace.raw().rows());
  i.old = vec(*i.l, i.slot).x;
  i.old2 = vec(*i.l, i.slot).y;
}
static void cut(double a, double b, const char* label) {
  vf_eq(a, b, label);
#ifndef VF_NATIVE
  vf_assume(a == b);
#endif
}
static void cutLe(double a, double b, const char* label) {
  vf_le(a, b, label);
#ifndef VF_NATIVE
  vf_assume(a <= b);
#endif
}
static void eVectors(It& i, size_t f) {
  AM& a = *i.a;
  size_t h = a.fh[f], n = a.nx[h], o = a.nx[n];
  Sides s = sides(a, *i.l, h);
  double A = areaAt(i, s, f);
  Vector2 u = vec(*i.l, h), v = vec(*i.l, n), w = vec(*i.l, o);
  vf_eq(u.x, s.ij, "the first side is along the x axis");
  vf_eq(u.y, 0, "the first side is along the x axis");
  vf_eq(u.x + v.x + w.x, 0, "the sides close up");
  vf_eq(u.y + v.y + w.y, 0, "the sides close up");
  double S = s.ij * s.ij + s.ki * s.ki - s.jk * s.jk, W = -w.x, H = -w.y, R = s.ki * s.ki - H * H;
#ifdef VF_NATIVE
  vf_eq(w.x * w.x + w.y * w.y, s.ki * s.ki, "the sides have their lengths");
  vf_eq(v.x * v.x + v.y * v.y, s.jk * s.jk, "the sides have their lengths");
#else
  // implies the lengths of the sides (lemma_altitude)
  vf_eq(H * s.ij, 2 * A, "height of the triangle");
  vf_assert(((R <= 0) & (W == 0)) | ((R >= 0) & (W * W == R)), "foot of the altitude");
  vf_assert(((S < 0) & (W <= 0)) | ((S >= 0) & (W >= 0)), "on the right side");
#endif
  vf_eq(u.x * v.y - u.y * v.x, 2 * A, "counterclockwise");
#ifndef VF_NATIVE
  if ((i.slot != h) & (i.slot != n) & (i.slot != o)) {
    vf_eq(vec(*i.l, i.slot).x, i.old, "no other value changes");
    vf_eq(vec(*i.l, i.slot).y, i.old2, "no other value changes");
  }
#endif
}
static void transport(It& i, HalfedgeData<Vector2>& out, HalfedgeData<Vector2>& in, size_t h) {
  Vector2 p = in.raw()[(long)h], q = in.raw()[(long)(h ^ 1)], r = out.raw()[(long)h], b = out.raw()[(long)(h ^ 1)];
  // r turns the direction of p into the direction opposite of q: r p is a positive multiple of -q
  double x = r.x * p.x - r.y * p.y, y = r.x * p.y + r.y * p.x;
  vf_eq(x * q.y - y * q.x, 0, "parallel to the other description of the edge");
  vf_le(x * q.x + y * q.y, 0, "and opposite, as the halfedges are");
  vf_eq(r.x * r.x + r.y * r.y, 1, "a rotation");
  vf_eq(b.x, r.x, "back is the inverse");
  vf_eq(b.y, -r.y, "back is the inverse");
}
static void nondegenerate(HalfedgeData<Vector2>& in, size_t h) {
  Vector2 p = in.raw()[(long)h], q = in.raw()[(long)(h ^ 1)];
  vf_assume((p.x * p.x + p.y * p.y > 0) & (q.x * q.x + q.y * q.y > 0));
}
static void bAcross(It& i, size_t e) {
  auto& out = i.l->transportVectorsAcrossHalfedge;
  vf_assume(i.slot < (size_t)out.raw().rows());
  i.old = out.raw()[(long)i.slot].x;
  i.old2 = out.raw()[(long)i.slot].y;
  vf_instantiate("next", 2 * e);
  vf_instantiate("next", 2 * e + 1);
  nondegenerate(i.l->halfedgeVectorsInFace, 2 * e);
}
static void eAcross(It& i, size_t e) {
  AM& a = *i.a;
  auto& out = i.l->transportVectorsAcrossHalfedge;
  bool inner = (a.fa[2 * e] < a.F) & (a.fa[2 * e + 1] < a.F);
  if (inner) transport(i, out, i.l->halfedgeVectorsInFace, 2 * e);
#ifndef VF_NATIVE
  if (!inner | (i.slot / 2 != e)) {
    vf_eq(out.raw()[(long)i.slot].x, i.old, "no other value changes");
    vf_eq(out.raw()[(long)i.slot].y, i.old2, "no other value changes");
  }
#endif
}
VF_CONTRACT(C14, len_transportAcross) {
  LENGTHS;
  GIVEN(anyVecs(a, g.halfedgeVectorsInFace, "vectors", a.m().nHalfedgesCapacityCount));
  cached<edgeLive, bAcross, eAcross, IG>(iteration(a, &g, nullptr, edgesEnd(a)), g, g.transportVectorsAcrossHalfedge, INTRINSIC(TransportVectorsAcrossHalfedge), &g.halfedgeVectorsInFaceQ);
}
static void bAlong(It& i, size_t e) {
  auto& out = i.l->transportVectorsAlongHalfedge;
  vf_assume(i.slot < (size_t)out.raw().rows());
  i.old = out.raw()[(long)i.slot].x;
  i.old2 = out.raw()[(long)i.slot].y;
  vf_instantiate("next", 2 * e);
  vf_instantiate("next", 2 * e + 1);
  nondegenerate(i.l->halfedgeVectorsInVertex, 2 * e);
}
static void eAlong(It& i, size_t e) {
  auto& out = i.l->transportVectorsAlongHalfedge;
  transport(i, out, i.l->halfedgeVectorsInVertex, 2 * e);
#ifndef VF_NATIVE
  if (i.slot / 2 != e) {
    vf_eq(out.raw()[(long)i.slot].x, i.old, "no other value changes");
    vf_eq(out.raw()[(long)i.slot].y, i.old2, "no other value changes");
  }
#endif
}
VF_CONTRACT(C14, len_transportAlong) {
  LENGTHS;
  GIVEN(anyVecs(a, g.halfedgeVectorsInVertex, "vectors", a.m().nHalfedgesCapacityCount));
  cached<edgeLive, bAlong, eAlong, IG>(iteration(a, &g, nullptr, edgesEnd(a)), g, g.transportVectorsAlongHalfedge, INTRINSIC(TransportVectorsAlongHalfedge), &g.halfedgeVectorsInVertexQ);
}
static void bExterior(It& i, size_t) {
  vf_assume(i.slot < (size_t)i.l->halfedgeVectorsInFace.raw().rows());
  i.old = vec(*i.l, i.slot).x;
  i.old2 = vec(*i.l, i.slot).y;
}
static void eExterior(It& i, size_t h) {
#ifndef VF_NATIVE
  if (i.slot != h) {
    vf_eq(vec(*i.l, i.slot).x, i.old, "no other value changes");
    vf_eq(vec(*i.l, i.slot).y, i.old2, "no other value changes");
  }
#endif
}
VF_CONTRACT(C14, lemma_altitude) { // a triangle with sides ij, jk, ki and area A; height H and foot W of the altitude on ij
  double ij = vf_real("ij"), jk = vf_real("jk"), ki = vf_real("ki"), A, H, W, S = ij * ij + ki * ki - jk * jk, Q = 4 * ij * ij * ki * ki - S * S;
  vf_assume((ij > 0) & (Q >= 0));
#ifdef VF_NATIVE
  A = std::sqrt(Q) / 4;
  H = 2 * A / ij;
  W = std::sqrt(std::max(0., ki * ki - H * H)) * (S < 0 ? -1 : 1);
#else
  A = vf_real("A"); H = vf_real("H"); W = vf_real("W");
  double R = ki * ki - H * H;
  vf_assume((16 * A * A == Q) & (H * ij == 2 * A) & (((R <= 0) & (W == 0)) | ((R >= 0) & (W * W == R))));
  vf_assume(((S < 0) & (W <= 0)) | ((S >= 0) & (W >= 0)));
#endif
  cut(4 * ij * ij * (ki * ki - H * H), S * S, "Heron's formula");
  cutLe(0, ki * ki - H * H, "Heron's formula");
  double X = 2 * ij * W;
  cut(X * X, S * S, "foot of the altitude");
  cutLe(0, X * S, "on the right side");
  cut(X, S, "foot of the altitude");
  vf_eq(W * W + H * H, ki * ki, "the third side has its length");
  vf_eq((W - ij) * (W - ij) + H * H, jk * jk, "the second side has its length");
}
VF_CONTRACT(C14, len_halfedgeVectors) {
  LENGTHS;
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  It& i = iteration(a, &g, nullptr, a.F);
#ifndef VF_NATIVE
  It& o = iteration(a, &g, nullptr, a.H);
  const char* second = "IntrinsicGeometryInterface::computeHalfedgeVectorsInFace#2";
  vf_loop_keep("RangeIteratorBase<geometrycentral::surface::HalfedgeExterior", cursorLive<outerLive>, &o);
  vf_loop_keep(second, cursorLive<outerLive>, &o);
  vf_loop_outer(second);
  vf_loop_body(second, beginIt<bExterior>, endIt<eExterior>, &o);
#endif
  cached<faceLive, bVectors, eVectors, IG>(i, g, g.halfedgeVectorsInFace, "IntrinsicGeometryInterface::computeHalfedgeVectorsInFace#1", RUN(IG, HalfedgeVectorsInFace), &g.edgeLengthsQ, &g.faceAreasQ);
}

// ------------------------------------------------------------------------------------------------ cached values, from positions
static Vector3 at3(VertexData<Vector3>& d, size_t v) { return d.raw()[(long)v]; }
static Vector3 minus(const Vector3& q, const Vector3& p) { return Vector3{q.x - p.x, q.y - p.y, q.z - p.z}; }
static void bLength(It& i, size_t e) { before(i, i.p->edgeLengths); vf_instantiate("next", 2 * e); }
static void eLength(It& i, size_t e) {
  AM& a = *i.a;
  Vector3 d = minus(pos(a, *i.p, 2 * e + 1), pos(a, *i.p, 2 * e));
  double l = val(i.p->edgeLengths, e);
  vf_le(0, l, "lengths are not negative");
  vf_eq(l * l, dot3(d, d), "distance of the endpoints");
  others(i, e, i.p->edgeLengths);
}
VF_CONTRACT(C14, pos_edgeLengths) {
  POSITIONS;
  cached<edgeLive, bLength, eLength, EG>(iteration(a, nullptr, &g, edgesEnd(a)), g, g.edgeLengths, EMBEDDED(EdgeLengths), &g.vertexPositionsQ);
}
static void bArea3(It& i, size_t f) { before(i, i.p->faceAreas); triangle(*i.a, i.a->fh[f]); }
static void eArea3(It& i, size_t f) {
  specArea3(corners(*i.a, *i.p, i.a->fh[f]), val(i.p->faceAreas, f));
  others(i, f, i.p->faceAreas);
}
VF_CONTRACT(C14, pos_faceAreas) {
  POSITIONS;
  cached<faceLive, bArea3, eArea3, EG>(iteration(a, nullptr, &g, a.F), g, g.faceAreas, EMBEDDED(FaceAreas), &g.vertexPositionsQ);
}
static void bCot3(It& i, size_t h) {
  before(i, i.p->halfedgeCotanWeights);
  triangle(*i.a, h);
  proper(corners(*i.a, *i.p, i.a->nx[i.a->nx[h]]));
}
static bool flat(const Corners& c) { // tests only: no statement about degenerate triangles
#ifdef VF_NATIVE
  return !(dot3(c.n, c.n) > 1e-16 * dot3(c.u, c.u) * dot3(c.w, c.w));
#else
  return false;
#endif
}
static void eCot3(It& i, size_t h) {
  if (flat(corners(*i.a, *i.p, i.a->nx[i.a->nx[h]]))) return;
  specCot3(corners(*i.a, *i.p, i.a->nx[i.a->nx[h]]), val(i.p->halfedgeCotanWeights, h));
  others(i, h, i.p->halfedgeCotanWeights);
}
VF_CONTRACT(C14, pos_halfedgeCotans) {
  POSITIONS;
  cached<sideLive, bCot3, eCot3, EG>(iteration(a, nullptr, &g, a.H), g, g.halfedgeCotanWeights, EMBEDDED(HalfedgeCotanWeights), &g.vertexPositionsQ);
}
static bool inner[2]; // on which sides of the edge there is a triangle
static void bEdgeCot3(It& i, size_t e) {
  AM& a = *i.a;
  before(i, i.p->edgeCotanWeights);
  for (size_t k = 0; k < 2; k++) {
    size_t h = 2 * e + k;
    vf_instantiate("next", h);
    vf_assume((a.fa[h] < a.F) == inner[k]);
    triangle(a, h);
    if (inner[k]) proper(corners(a, *i.p, a.nx[a.nx[h]]));
  }
}
static double halfCot3At(It& i, size_t h) {
  AM& a = *i.a;
  if (a.fa[h] >= a.F) return 0;
  Corners c = corners(a, *i.p, a.nx[a.nx[h]]);
  return dot3(c.u, c.w) / std::sqrt(dot3(c.n, c.n)) / 2;
}
static void eEdgeCot3(It& i, size_t e) {
#ifdef VF_NATIVE
  for (size_t h = 2 * e; h < 2 * e + 2; h++)
    if ((i.a->fa[h] < i.a->F) && flat(corners(*i.a, *i.p, i.a->nx[i.a->nx[h]]))) return;
#endif
  vf_eq(val(i.p->edgeCotanWeights, e), halfCot3At(i, 2 * e) + halfCot3At(i, 2 * e + 1), "sum of the halves over the triangles at the edge");
  others(i, e, i.p->edgeCotanWeights);
}
static void edgeCotans(bool left, bool right) {
  POSITIONS;
  inner[0] = left;
  inner[1] = right;
  cached<edgeLive, bEdgeCot3, eEdgeCot3, EG>(iteration(a, nullptr, &g, edgesEnd(a)), g, g.edgeCotanWeights, EMBEDDED(EdgeCotanWeights), &g.vertexPositionsQ);
}
VF_CONTRACT(C14, pos_edgeCotans) { edgeCotans(true, true); }
VF_CONTRACT(C14, pos_edgeCotansLeft) { edgeCotans(true, false); }
static void bNormal(It& i, size_t f) {
  vf_assume(i.slot < (size_t)i.p->faceNormals.raw().rows());
  Vector3 o = i.p->faceNormals.raw()[(long)i.slot];
  i.old = o.x; i.old2 = o.y; i.old3 = o.z;
  triangle(*i.a, i.a->fh[f]);
  proper(corners(*i.a, *i.p, i.a->fh[f]));
}
static void eNormal(It& i, size_t f) {
  if (flat(corners(*i.a, *i.p, i.a->fh[f]))) return;
  specNormal(corners(*i.a, *i.p, i.a->fh[f]), i.p->faceNormals.raw()[(long)f]);
#ifndef VF_NATIVE
  if (i.slot != f) {
    Vector3 o = i.p->faceNormals.raw()[(long)i.slot];
    vf_eq(o.x, i.old, "no other value changes");
    vf_eq(o.y, i.old2, "no other value changes");
    vf_eq(o.z, i.old3, "no other value changes");
  }
#endif
}
VF_CONTRACT(C14, pos_faceNormals) {
  POSITIONS;
  cached<faceLive, bNormal, eNormal, EG>(iteration(a, nullptr, &g, a.F), g, g.faceNormals, EMBEDDED(FaceNormals), &g.vertexPositionsQ);
}
static void bDihedral(It& i, size_t e) {
  AM& a = *i.a;
  size_t h = 2 * e;
  before(i, i.p->edgeDihedralAngles);
  vf_instantiate("next", h);
  vf_instantiate("next", h + 1);
  Vector3 d = minus(pos(a, *i.p, h + 1), pos(a, *i.p, h));
  bool inner = (a.fa[h] < a.F) & (a.fa[h + 1] < a.F);
  vf_assume(dot3(d, d) > 0.001);
  Vector3 n = i.p->faceNormals.raw()[(long)vf_ite(inner, a.fa[h], 0)], m = i.p->faceNormals.raw()[(long)vf_ite(inner, a.fa[h + 1], 0)];
  vf_assume(imp(inner, dot3(n, m) != 0));
  units(d, d);
}
static double zDihedral(It& i) { return val(i.p->edgeDihedralAngles, i.slot); }
static void eDihedral(It& i, size_t e) {
  AM& a = *i.a;
  size_t h = 2 * e;
  bool inner = (a.fa[h] < a.F) & (a.fa[h + 1] < a.F);
  Vector3 n = i.p->faceNormals.raw()[(long)(inner ? a.fa[h] : 0)], m = i.p->faceNormals.raw()[(long)(inner ? a.fa[h + 1] : 0)];
#ifdef VF_NATIVE
  Vector3 d = minus(pos(a, *i.p, h + 1), pos(a, *i.p, h));
  if (!isfinite(n) || !isfinite(m) || dot3(d, d) < 1e-6) return;
  units(d, d);
#endif
  if (inner) specDihedral(un.eu, n, m, val(i.p->edgeDihedralAngles, e));
  else if (i.slot == e) vf_eq(val(i.p->edgeDihedralAngles, e), 0, "no angle at the boundary");
  others(i, e, i.p->edgeDihedralAngles);
}
VF_CONTRACT(C14, pos_dihedrals) {
  POSITIONS;
  GIVEN(anyVecs(a, g.faceNormals, "normals", a.m().nFacesCapacityCount));
  It& i = iteration(a, nullptr, &g, edgesEnd(a));
  GIVEN(vf_assume(i.slot < a.m().nEdgesCapacityCount));
  i.zero = zDihedral;
  i.ahead = true;
  cached<edgeLive, bDihedral, eDihedral, EG>(i, g, g.edgeDihedralAngles, EMBEDDED(EdgeDihedralAngles), &g.vertexPositionsQ, &g.faceNormalsQ);
}
static void bMean(It& i, size_t e) {
  vf_assume(i.slot < (size_t)i.p->vertexDualMeanCurvatureNormals.raw().rows());
  Vector3 o = at3(i.p->vertexDualMeanCurvatureNormals, i.slot);
  i.old = o.x; i.old2 = o.y; i.old3 = o.z;
  vf_instantiate("next", 2 * e);
}
static double zMean(It& i) { return at3(i.p->vertexDualMeanCurvatureNormals, i.slot).y; }
static void eMean(It& i, size_t e) {
  AM& a = *i.a;
#ifdef VF_NATIVE
  Vector3 s{0, 0, 0};
  size_t v = a.ve[2 * e];
  for (size_t h = 0; h < a.H; h++)
    if (a.nx[h] != NONE && a.ve[h] == v) s += (i.p->edgeCotanWeights.raw()[h / 2] / 2) * (pos(a, *i.p, h) - pos(a, *i.p, h ^ 1));
  Vector3 o = at3(i.p->vertexDualMeanCurvatureNormals, v);
  vf_eq(o.x, s.x, "half the Laplacian of the positions");
  vf_eq(o.y, s.y, "half the Laplacian of the positions");
  vf_eq(o.z, s.z, "half the Laplacian of the positions");
#else
  size_t t = a.ve[2 * e], h = a.ve[2 * e + 1];
  double w = val(i.p->edgeCotanWeights, e) / 2, k = (t == i.slot ? w : 0) - (h == i.slot ? w : 0);
  Vector3 d = minus(pos(a, *i.p, 2 * e), pos(a, *i.p, 2 * e + 1)), o = at3(i.p->vertexDualMeanCurvatureNormals, i.slot);
  vf_eq(o.x, i.old + k * d.x, "half the weight times the difference of the endpoints");
  vf_eq(o.y, i.old2 + k * d.y, "half the weight times the difference of the endpoints");
  vf_eq(o.z, i.old3 + k * d.z, "half the weight times the difference of the endpoints");
#endif
}
VF_CONTRACT(C14, pos_meanCurvatureNormals) {
  POSITIONS;
  GIVEN(anyReals(a, g.edgeCotanWeights, "weights", a.m().nEdgesCapacityCount));
  It& i = iteration(a, nullptr, &g, edgesEnd(a));
  GIVEN(vf_assume(i.slot < a.m().nVerticesCapacityCount));
  i.zero = zMean;
  cached<edgeLive, bMean, eMean, EG>(i, g, g.vertexDualMeanCurvatureNormals, EMBEDDED(VertexDualMeanCurvatureNormals), &g.edgeCotanWeightsQ, &g.vertexPositionsQ);
}

static double specCurv(It& i, size_t v, bool most) {
  double A = val(i.p->vertexDualAreas, v), H = val(i.p->vertexMeanCurvatures, v) / A, K = val(i.p->vertexGaussianCurvatures, v) / A;
  double d = H * H - K, c = d > 0 ? std::sqrt(d) : 0;
  return most ? H + c : H - c;
}
static void bPrincipal(It& i, VertexData<double>& out, size_t v) { before(i, out); vf_assume(val(i.p->vertexDualAreas, v) > 0); }
static void bMin(It& i, size_t v) { bPrincipal(i, i.p->vertexMinPrincipalCurvatures, v); }
static void bMax(It& i, size_t v) { bPrincipal(i, i.p->vertexMaxPrincipalCurvatures, v); }
static void eMin(It& i, size_t v) { vf_eq(val(i.p->vertexMinPrincipalCurvatures, v), specCurv(i, v, false), "the lesser root"); others(i, v, i.p->vertexMinPrincipalCurvatures); }
static void eMax(It& i, size_t v) { vf_eq(val(i.p->vertexMaxPrincipalCurvatures, v), specCurv(i, v, true), "the greater root"); others(i, v, i.p->vertexMaxPrincipalCurvatures); }
typedef ExtrinsicGeometryInterface XG;
#ifdef VF_NATIVE
#define PRINCIPAL(N, NAME) RUN(XG, NAME)
#else
#define PRINCIPAL(N, NAME) [](XG& g) { g.XG::computePrincipalCurvatures(N, N == 1 ? g.vertexMinPrincipalCurvatures : g.vertexMaxPrincipalCurvatures); }
#endif
static void curvatures(AM& a, VPG& g) {
#ifndef VF_NATIVE
  anyReals(a, g.vertexDualAreas, "areas", a.m().nVerticesCapacityCount);
  anyReals(a, g.vertexMeanCurvatures, "mean", a.m().nVerticesCapacityCount);
  anyReals(a, g.vertexGaussianCurvatures, "gauss", a.m().nVerticesCapacityCount);
#endif
}
VF_CONTRACT(C14, pos_minPrincipal) {
  POSITIONS;
  curvatures(a, g);
  cached<vertLive, bMin, eMin, XG>(iteration(a, nullptr, &g, a.V), g, g.vertexMinPrincipalCurvatures, "ExtrinsicGeometryInterface::computePrincipalCurvatures", PRINCIPAL(1, VertexMinPrincipalCurvatures), &g.vertexGaussianCurvaturesQ, &g.vertexMeanCurvaturesQ, &g.vertexDualAreasQ);
}
VF_CONTRACT(C14, pos_maxPrincipal) {
  POSITIONS;
  curvatures(a, g);
  cached<vertLive, bMax, eMax, XG>(iteration(a, nullptr, &g, a.V), g, g.vertexMaxPrincipalCurvatures, "ExtrinsicGeometryInterface::computePrincipalCurvatures", PRINCIPAL(2, VertexMaxPrincipalCurvatures), &g.vertexGaussianCurvaturesQ, &g.vertexMeanCurvaturesQ, &g.vertexDualAreasQ);
}
#ifdef VF_NATIVE
// ------------------------------------------------------------------------------------------------ bounded: all the values of one geometry
static void near(double x, double y, const char* what) { vf_assert(std::fabs(x - y) <= 1e-6 * (1 + std::fabs(x) + std::fabs(y)), what); }
static void near(const Vector3& x, const Vector3& y, const char* what) { near(x.x, y.x, what); near(x.y, y.y, what); near(x.z, y.z, what); }
VF_BOUNDED(C14, everywhere) { // cached, on demand, from lengths, from positions; and the sums around vertices
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  SurfaceMesh& m = a.m();
  for (Face f : m.faces()) vf_assume(g.faceArea(f) > 0.02);
  g.requireEdgeLengths(); g.requireFaceAreas(); g.requireVertexDualAreas(); g.requireCornerAngles(); g.requireVertexAngleSums(); g.requireHalfedgeCotanWeights();
  g.requireEdgeCotanWeights(); g.requireFaceNormals(); g.requireEdgeDihedralAngles(); g.requireVertexMeanCurvatures(); g.requireVertexGaussianCurvatures();
  g.requireVertexMinPrincipalCurvatures(); g.requireVertexMaxPrincipalCurvatures(); g.requireVertexDualMeanCurvatureNormals(); g.requireVertexNormals();
  g.requireShapeLengthScale(); g.requireMeshLengthScale(); g.requireHalfedgeVectorsInFace(); g.requireHalfedgeVectorsInVertex(); g.requireCornerScaledAngles();
  EdgeData<double> lens(m);
  for (Edge e : m.edges()) lens[e] = g.edgeLengths[e];
  ELG& l = *new ELG(m, lens);
  l.requireFaceAreas(); l.requireCornerAngles(); l.requireHalfedgeCotanWeights(); l.requireEdgeCotanWeights(); l.requireVertexGaussianCurvatures(); l.requireVertexDualAreas();
  double area = 0, length = 0;
  for (Edge e : m.edges()) {
    near(g.edgeLengths[e], g.edgeLength(e), "edge length: cached and on demand");
    near(g.edgeCotanWeights[e], g.edgeCotanWeight(e), "edge cotan: cached and on demand");
    near(l.edgeCotanWeights[e], g.edgeCotanWeight(e), "edge cotan: from lengths and from positions");
    near(l.edgeCotanWeight(e), g.edgeCotanWeight(e), "edge cotan: from lengths and from positions, on demand");
    near(g.edgeDihedralAngles[e], g.edgeDihedralAngle(e), "dihedral angle: cached and on demand");
    length += g.edgeLengths[e];
  }
  for (Face f : m.faces()) {
    near(g.faceAreas[f], g.faceArea(f), "area: cached and on demand");
    near(l.faceAreas[f], g.faceArea(f), "area: from lengths and from positions");
    near(l.faceArea(f), g.faceArea(f), "area: from lengths and from positions, on demand");
    near(g.faceNormals[f], g.faceNormal(f), "normal: cached and on demand");
    area += g.faceAreas[f];
  }
  near(g.shapeLengthScale, std::sqrt(area), "length scale of the shape");
  near(g.meshLengthScale, length / m.nEdges(), "length scale of the mesh");
  for (Corner c : m.corners()) {
    near(g.cornerAngles[c], g.cornerAngle(c), "angle: cached and on demand");
    near(l.cornerAngles[c], g.cornerAngle(c), "angle: from lengths and from positions");
    near(l.cornerAngle(c), g.cornerAngle(c), "angle: from lengths and from positions, on demand");
  }
  for (Halfedge h : m.halfedges()) {
    if (!h.isInterior()) continue;
    near(g.halfedgeCotanWeights[h], g.halfedgeCotanWeight(h), "halfedge cotan: cached and on demand");
    near(l.halfedgeCotanWeights[h], g.halfedgeCotanWeight(h), "halfedge cotan: from lengths and from positions");
    near(l.halfedgeCotanWeight(h), g.halfedgeCotanWeight(h), "halfedge cotan: from lengths and from positions, on demand");
  }
  for (Vertex v : m.vertices()) {
    double dual = 0, sum = 0, mean = 0;
    bool bd = false;
    Vector3 n{0, 0, 0}, hn{0, 0, 0};
    for (size_t h = 0; h < a.H; h++) {
      if (a.nx[h] == NONE || a.ve[h] != v.getIndex()) continue;
      Halfedge he(&m, h);
      mean += g.edgeDihedralAngles[he.edge()] * g.edgeLengths[he.edge()] / 4;
      hn += (g.edgeCotanWeights[he.edge()] / 2) * (pos(a, g, h) - pos(a, g, h ^ 1));
      if (a.fa[h] >= a.F) { bd = true; continue; }
      dual += g.faceAreas[he.face()] / 3;
      sum += g.cornerAngles[he.corner()];
      n += g.cornerAngles[he.corner()] * g.faceNormals[he.face()];
    }
    double gauss = bd ? 0 : 2 * PI - sum;
    near(g.vertexDualAreas[v], dual, "dual area");
    near(g.vertexDualArea(v), dual, "dual area, on demand");
    near(l.vertexDualArea(v), dual, "dual area, on demand from lengths");
    near(g.vertexAngleSums[v], sum, "angle sum");
    near(g.vertexGaussianCurvatures[v], gauss, "Gaussian curvature");
    near(g.vertexGaussianCurvature(v), gauss, "Gaussian curvature, on demand");
    near(l.vertexGaussianCurvature(v), gauss, "Gaussian curvature, on demand from lengths");
    near(g.vertexMeanCurvatures[v], mean, "mean curvature");
    near(g.vertexMeanCurvature(v), mean, "mean curvature, on demand");
    double H = mean / dual, K = gauss / dual, c = std::sqrt(std::max(0., H * H - K));
    near(g.vertexMinPrincipalCurvatures[v], H - c, "least curvature");
    near(g.vertexMinPrincipalCurvature(v), H - c, "least curvature, on demand");
    near(g.vertexMaxPrincipalCurvatures[v], H + c, "greatest curvature");
    near(g.vertexMaxPrincipalCurvature(v), H + c, "greatest curvature, on demand");
    near(g.vertexDualMeanCurvatureNormals[v], hn, "mean curvature normal");
    near(g.vertexDualMeanCurvatureNormal(v), hn, "mean curvature normal, on demand");
    if (norm(n) > 1e-3) near(g.vertexNormals[v], n / norm(n), "vertex normal");
    // the directions of the halfedges around a vertex: counterclockwise, by the scaled angles in between
    double turn = 0;
    for (size_t h = 0; h < a.H; h++) {
      if (a.nx[h] == NONE || a.ve[h] != v.getIndex()) continue;
      Vector2 d = g.halfedgeVectorsInVertex[Halfedge(&m, h)];
      near(norm(d), g.edgeLengths[Halfedge(&m, h).edge()], "tangent vectors have the length of the edge");
      if (a.fa[h] >= a.F) continue;
      size_t k = a.nx[a.nx[h]] ^ 1; // the next one counterclockwise
      Vector2 e = g.halfedgeVectorsInVertex[Halfedge(&m, k)], q = Vector2::fromAngle(g.cornerScaledAngles[Corner(&m, h)]) * d / norm(d);
      near(q.x, e.x / norm(e), "and are apart by the scaled angle");
      near(q.y, e.y / norm(e), "and are apart by the scaled angle");
      turn += g.cornerScaledAngles[Corner(&m, h)];
    }
    near(turn, (bd ? 1 : 2) * PI, "scaled angles make a half or whole turn");
  }
  vf_reach("values");
}
#endif
