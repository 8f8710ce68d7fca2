// C12: managed quantities.
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "vf.h"
#include <cstdlib>
#ifdef VF_NATIVE
#include "meshops.h"
#endif
using namespace geometrycentral;
using namespace geometrycentral::surface;
// an object of which only the members set below are used
template <class G> static G* blankObject() {
#ifdef VF_NATIVE
  return (G*)calloc(1, sizeof(G));
#else
  return (G*)malloc(sizeof(G));
#endif
}
// all quantities of each interface
#define BASE_QUANTITIES(X) \
  X(VertexIndices, vertexIndicesQ) \
  X(InteriorVertexIndices, interiorVertexIndicesQ) \
  X(EdgeIndices, edgeIndicesQ) \
  X(HalfedgeIndices, halfedgeIndicesQ) \
  X(CornerIndices, cornerIndicesQ) \
  X(FaceIndices, faceIndicesQ) \
  X(BoundaryLoopIndices, boundaryLoopIndicesQ)
#define INTRINSIC_QUANTITIES(X) \
  X(EdgeLengths, edgeLengthsQ) \
  X(FaceAreas, faceAreasQ) \
  X(VertexDualAreas, vertexDualAreasQ) \
  X(CornerAngles, cornerAnglesQ) \
  X(VertexAngleSums, vertexAngleSumsQ) \
  X(CornerScaledAngles, cornerScaledAnglesQ) \
  X(VertexGaussianCurvatures, vertexGaussianCurvaturesQ) \
  X(FaceGaussianCurvatures, faceGaussianCurvaturesQ) \
  X(HalfedgeCotanWeights, halfedgeCotanWeightsQ) \
  X(EdgeCotanWeights, edgeCotanWeightsQ) \
  X(ShapeLengthScale, shapeLengthScaleQ) \
  X(MeshLengthScale, meshLengthScaleQ) \
  X(HalfedgeVectorsInFace, halfedgeVectorsInFaceQ) \
  X(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedgeQ) \
  X(HalfedgeVectorsInVertex, halfedgeVectorsInVertexQ) \
  X(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedgeQ) \
  X(CotanLaplacian, cotanLaplacianQ) \
  X(VertexLumpedMassMatrix, vertexLumpedMassMatrixQ) \
  X(VertexGalerkinMassMatrix, vertexGalerkinMassMatrixQ) \
  X(VertexConnectionLaplacian, vertexConnectionLaplacianQ) \
  X(FaceGalerkinMassMatrix, faceGalerkinMassMatrixQ) \
  X(FaceConnectionLaplacian, faceConnectionLaplacianQ) \
  X(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacianQ) \
  X(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrixQ) \
  X(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacianQ) \
  X(DECOperators, DECOperatorsQ)
#define EXTRINSIC_QUANTITIES(X) \
  X(EdgeDihedralAngles, edgeDihedralAnglesQ) \
  X(VertexMeanCurvatures, vertexMeanCurvaturesQ) \
  X(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvaturesQ) \
  X(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvaturesQ) \
  X(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirectionsQ) \
  X(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirectionsQ)
#define EMBEDDED_QUANTITIES(X) \
  X(VertexPositions, vertexPositionsQ) \
  X(FaceNormals, faceNormalsQ) \
  X(VertexNormals, vertexNormalsQ) \
  X(FaceTangentBasis, faceTangentBasisQ) \
  X(VertexTangentBasis, vertexTangentBasisQ) \
  X(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormalsQ) \
  X(SimplePolygonLaplacian, simplePolygonLaplacianQ) \
  X(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrixQ) \
  X(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrixQ) \
  X(PolygonLaplacian, polygonLaplacianQ) \
  X(PolygonGradientMatrix, polygonGradientMatrixQ) \
  X(PolygonDivergenceMatrix, polygonDivergenceMatrixQ) \
  X(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrixQ) \
  X(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacianQ) \
  X(PolygonDECOperators, polygonDECOperatorsQ)
#define CLOUD_QUANTITIES(X) \
  X(PointIndices, pointIndicesQ) \
  X(Neighbors, neighborsQ) \
  X(Normals, normalsQ) \
  X(TangentBasis, tangentBasisQ) \
  X(TangentCoordinates, tangentCoordinatesQ) \
  X(TangentTransport, tangentTransportQ) \
  X(TuftedTriangulation, tuftedTriangulationQ) \
  X(Laplacian, laplacianQ) \
  X(ConnectionLaplacian, connectionLaplacianQ) \
  X(Gradient, gradientQ)

// ------------------------------------------------------------------------------------------------ one quantity
struct Buffer { // the data of a quantity
  bool full;
  void clear() { full = false; }
};
struct Q1 {
  std::vector<DependentQuantity*> list;
  Buffer buffer;
  size_t evals = 0;
  DependentQuantityD<Buffer>* q;
  int count;
  bool computed, clearable;
};
// an arbitrary quantity whose data is present exactly when it says so
static Q1& anyQuantity() {
  Q1& s = *new Q1();
  s.q = new DependentQuantityD<Buffer>(&s.buffer, [&s]() { s.evals++; s.buffer.full = true; }, s.list);
  s.count = s.q->requireCount = (int)vf_long("count", 0, 1000000);
  s.computed = s.q->computed = vf_bool("computed");
  s.clearable = s.q->clearable = vf_bool("clearable");
  s.buffer.full = s.computed;
  vf_assume(!(s.count > 0) | s.computed);
  return s;
}
static void consistent(Q1& s) { // the invariant, and the frame
  vf_assert(s.q->requireCount >= 0, "the require count is never negative");
  vf_assert(!(s.q->requireCount > 0) | (s.q->computed & s.buffer.full), "available while required");
  vf_assert(s.q->computed == s.buffer.full, "it knows whether it is available");
  vf_assert(s.q->clearable == s.clearable, "unchanged");
}
VF_CONTRACT(C12, created) {
  Q1& s = *new Q1();
  s.q = new DependentQuantityD<Buffer>(&s.buffer, [&s]() { s.evals++; s.buffer.full = true; }, s.list);
  vf_assert((s.q->requireCount == 0) & !s.q->computed & (s.evals == 0), "nothing is computed");
  vf_assert((s.list.size() == 1) && s.list[0] == s.q, "listed");
}
VF_CONTRACT(C12, require) {
  Q1& s = anyQuantity();
  s.q->require();
  vf_assert(s.q->requireCount == s.count + 1, "counts the requirement");
  vf_assert(s.buffer.full, "available");
  vf_assert(s.evals == (s.computed ? 0 : 1), "computed only if it was not available");
  consistent(s);
}
VF_CONTRACT(C12, ensureHave) {
  Q1& s = anyQuantity();
  s.q->ensureHave();
  vf_assert(s.q->requireCount == s.count, "the require count is unchanged");
  vf_assert(s.buffer.full, "available");
  vf_assert(s.evals == (s.computed ? 0 : 1), "computed only if it was not available");
  consistent(s);
}
VF_CONTRACT(C12, ensureHaveIfRequired) {
  Q1& s = anyQuantity();
  if (vf_bool("invalidated")) s.q->computed = s.computed = s.buffer.full = false;
  s.q->ensureHaveIfRequired();
  vf_assert(s.q->requireCount == s.count, "the require count is unchanged");
  vf_assert(s.evals == ((s.count > 0) & !s.computed ? 1 : 0), "computed only if it is required and not available");
  vf_assert(s.buffer.full == (s.computed | (s.count > 0)), "available if it was or is required");
  consistent(s);
}
VF_CONTRACT(C12, unrequire) {
  Q1& s = anyQuantity();
  bool threw = false;
  try {
    s.q->unrequire();
  } catch (...) {
    threw = true;
  }
  vf_assert(threw == (s.count == 0), "rejected exactly when it was not required");
  vf_assert(s.q->requireCount == (threw ? 0 : s.count - 1), "one requirement less");
  vf_assert((s.evals == 0) & (s.buffer.full == s.computed), "the data is untouched");
  consistent(s);
}
VF_CONTRACT(C12, clearIfNotRequired) {
  Q1& s = anyQuantity();
  DependentQuantity* q = s.q;
  q->clearIfNotRequired();
  vf_assert(s.q->requireCount == s.count, "the require count is unchanged");
  vf_assert(s.evals == 0, "nothing is computed");
  vf_assert(s.buffer.full == (s.computed & ((s.count > 0) | !s.clearable)), "released exactly if it is clearable and not required");
  consistent(s);
}
// the kinds of data
VF_CONTRACT(C12, clear_data) {
  std::vector<DependentQuantity*> list;
  Buffer a{true}, b{true}, c{true};
  std::array<Buffer*, 3> A{{&a, &b, &c}};
  DependentQuantityD<std::array<Buffer*, 3>> qa(&A, []() {}, list);
  qa.computed = true;
  qa.clearIfNotRequired();
  vf_assert(!a.full & !b.full & !c.full & !qa.computed, "every element of an array is released");
  Buffer d{true}, e{true};
  std::pair<Buffer*, Buffer*> P{&d, &e};
  DependentQuantityD<std::pair<Buffer*, Buffer*>> qp(&P, []() {}, list);
  qp.computed = true;
  qp.clearIfNotRequired();
  vf_assert(!d.full & !e.full & !qp.computed, "both elements of a pair are released");
  std::unique_ptr<Buffer> u(new Buffer{true});
  DependentQuantityD<std::unique_ptr<Buffer>> qu(&u, []() {}, list);
  qu.computed = true;
  qu.clearIfNotRequired();
  vf_assert(!u & !qu.computed, "an owned object is deleted");
  double x = 1;
  DependentQuantityD<double> qx(&x, []() {}, list);
  qx.computed = true;
  qx.clearIfNotRequired();
  vf_assert(!qx.computed, "a number is forgotten");
  vf_reach("end");
}

// ------------------------------------------------------------------------------------------------ several quantities
// three quantities in arbitrary states; computing the first may need the second and third, computing the second the third
struct Q3 {
  Q1 s[3];
  bool d01, d02, d12;
  bool invalid[3];
};
static Q3& anyThree(bool invalid) {
  Q3& t = *new Q3();
  std::vector<DependentQuantity*> list;
  t.d01 = vf_bool("d01"); t.d02 = vf_bool("d02"); t.d12 = vf_bool("d12");
  const char* cn[3] = {"count0", "count1", "count2"};
  const char* pn[3] = {"computed0", "computed1", "computed2"};
  const char* ln[3] = {"clearable0", "clearable1", "clearable2"};
  for (int i = 0; i < 3; i++) {
    Q1& s = t.s[i];
    Q3* tp = &t;
    s.q = new DependentQuantityD<Buffer>(&s.buffer, [tp, i]() {
      if (i == 0 && tp->d01) tp->s[1].q->ensureHave();
      if (i == 0 && tp->d02) tp->s[2].q->ensureHave();
      if (i == 1 && tp->d12) tp->s[2].q->ensureHave();
      vf_assert(!(i == 0 && tp->d01) || tp->s[1].buffer.full, "what it needs is available");
      vf_assert(!(i == 0 && tp->d02) || tp->s[2].buffer.full, "what it needs is available");
      vf_assert(!(i == 1 && tp->d12) || tp->s[2].buffer.full, "what it needs is available");
      tp->s[i].evals++;
      tp->s[i].buffer.full = true;
    }, list);
    s.count = s.q->requireCount = (int)vf_long(cn[i], 0, 1000000);
    s.computed = s.q->computed = vf_bool(pn[i]);
    s.clearable = s.q->clearable = vf_bool(ln[i]);
    s.buffer.full = s.computed;
    vf_assume(!(s.count > 0) | s.computed);
  }
  return t;
}
static void refreshed(Q3& t) {
  bool want2 = t.s[2].count > 0, want1 = t.s[1].count > 0, want0 = t.s[0].count > 0;
  bool need1 = want1 | (want0 & t.d01);
  bool need2 = want2 | (want0 & t.d02) | (need1 & t.d12);
  bool need[3] = {want0, need1, need2};
  for (int i = 0; i < 3; i++) {
    Q1& s = t.s[i];
    vf_assert(s.q->requireCount == s.count, "the require counts are unchanged");
    vf_assert(s.evals == (need[i] ? 1 : 0), "what is required, or needed for it, is computed once, nothing else is");
    vf_assert(s.q->computed == need[i], "the others are out of date");
    vf_assert(!need[i] | s.buffer.full, "available");
  }
  vf_reach("end");
}
static void purged(Q3& t) {
  for (int i = 0; i < 3; i++) {
    Q1& s = t.s[i];
    vf_assert(s.q->requireCount == s.count, "the require counts are unchanged");
    vf_assert(s.evals == 0, "nothing is computed");
    vf_assert(s.buffer.full == (s.computed & ((s.count > 0) | !s.clearable)), "released exactly if it is clearable and not required");
    consistent(s);
  }
  vf_reach("end");
}
template <class G> static G& blank(Q3& t) { // only its list of quantities is used
  G* g = blankObject<G>();
  new (&g->quantities) std::vector<DependentQuantity*>();
  for (int i = 0; i < 3; i++) g->quantities.push_back(t.s[i].q);
  return *g;
}
VF_CONTRACT(C12, refreshQuantities) {
  Q3& t = anyThree(false);
  blank<BaseGeometryInterface>(t).refreshQuantities();
  refreshed(t);
}
VF_CONTRACT(C12, purgeQuantities) {
  Q3& t = anyThree(false);
  blank<BaseGeometryInterface>(t).purgeQuantities();
  purged(t);
}
VF_CONTRACT(C12, cloud_refreshQuantities) {
  Q3& t = anyThree(false);
  blank<pointcloud::PointPositionGeometry>(t).refreshQuantities();
  refreshed(t);
}
VF_CONTRACT(C12, cloud_purgeQuantities) {
  Q3& t = anyThree(false);
  blank<pointcloud::PointPositionGeometry>(t).purgeQuantities();
  purged(t);
}

// ------------------------------------------------------------------------------------------------ the named quantities
// each requireX / unrequireX of a geometry counts on quantity X and on no other
#define PTR(N, Q) (DependentQuantity*)&g->Q,
#define CHECK(N, Q)                                                                                                    \
  {                                                                                                                    \
    for (size_t i = 0; i < n; i++) {                                                                                   \
      all[i]->computed = true;                                                                                         \
      all[i]->requireCount = (int)c;                                                                                   \
    }                                                                                                                  \
    g->require##N();                                                                                                   \
    bool ok = true;                                                                                                    \
    for (size_t i = 0; i < n; i++) ok &= all[i]->requireCount == c + (all[i] == (DependentQuantity*)&g->Q ? 1 : 0);    \
    vf_assert(ok, "require " #N);                                                                                      \
    g->unrequire##N();                                                                                                 \
    for (size_t i = 0; i < n; i++) ok &= (all[i]->requireCount == c) & all[i]->computed;                               \
    vf_assert(ok, "unrequire " #N);                                                                                    \
  }
#define EACH(G, LIST)                                                                                                  \
  G* g = blankObject<G>();                                                                               \
  DependentQuantity* all[] = {LIST(PTR)};                                                                              \
  size_t n = sizeof(all) / sizeof(all[0]);                                                                             \
  long c = vf_long("c", 0, 1000000);                                                                                   \
  LIST(CHECK)                                                                                                          \
  vf_reach("end");
VF_CONTRACT(C12, base_names) { EACH(BaseGeometryInterface, BASE_QUANTITIES) }
VF_CONTRACT(C12, intrinsic_names) { EACH(IntrinsicGeometryInterface, INTRINSIC_QUANTITIES) }
VF_CONTRACT(C12, extrinsic_names) { EACH(ExtrinsicGeometryInterface, EXTRINSIC_QUANTITIES) }
VF_CONTRACT(C12, embedded_names) { EACH(EmbeddedGeometryInterface, EMBEDDED_QUANTITIES) }
VF_CONTRACT(C12, cloud_names) { EACH(pointcloud::PointPositionGeometry, CLOUD_QUANTITIES) }

#ifdef VF_NATIVE
// ------------------------------------------------------------------------------------------------ real geometries
#define MESH_QUANTITIES(X) BASE_QUANTITIES(X) INTRINSIC_QUANTITIES(X) EXTRINSIC_QUANTITIES(X) EMBEDDED_QUANTITIES(X)
static bool near(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
static bool same(double a, double b) { return near(a, b); }
static bool same(size_t a, size_t b) { return a == b; }
static bool same(Vector2 a, Vector2 b) { return near(a.x, b.x) && near(a.y, b.y); }
static bool same(Vector3 a, Vector3 b) { return near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z); }
static bool same(const std::array<Vector3, 2>& a, const std::array<Vector3, 2>& b) { return same(a[0], b[0]) && same(a[1], b[1]); }
static bool same(const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (Eigen::Index i = 0; i < a.size(); i++) if (!near(a[i], b[i])) return false;
  return true;
}
template <class E, class T> bool same(const MeshData<E, T>& a, const MeshData<E, T>& b) {
  if (a.raw().rows() != b.raw().rows() || a.raw().rows() == 0) return a.raw().rows() == b.raw().rows() && nElements<E>(b.getMesh()) == 0;
  for (Eigen::Index i = 0; i < a.raw().rows(); i++) if (!same(a.raw()[i], b.raw()[i])) return false;
  return true;
}
template <class F> bool same(const Eigen::SparseMatrix<F>& a, const Eigen::SparseMatrix<F>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic> x = a, y = b;
  for (Eigen::Index i = 0; i < x.rows(); i++)
    for (Eigen::Index j = 0; j < x.cols(); j++)
      if (!near(std::real(x(i, j)), std::real(y(i, j))) || !near(std::imag(x(i, j)), std::imag(y(i, j)))) return false;
  return true;
}
template <size_t N> bool same(const std::array<Eigen::SparseMatrix<double>*, N>& a, const std::array<Eigen::SparseMatrix<double>*, N>& b) {
  for (size_t i = 0; i < N; i++) if (!same(*a[i], *b[i])) return false;
  return true;
}
template <class D> bool released(const D&) { return true; }
template <class E, class T> bool released(const MeshData<E, T>& d) { return d.raw().rows() == 0; }
template <class F> bool released(const Eigen::SparseMatrix<F>& d) { return d.rows() == 0; }
template <size_t N> bool released(const std::array<Eigen::SparseMatrix<double>*, N>& a) {
  for (size_t i = 0; i < N; i++) if (a[i]->rows()) return false;
  return true;
}
struct Handle {
  const char* name;
  DependentQuantity* q;
  std::function<void()> require, unrequire;
  std::function<bool(VertexPositionGeometry&)> agrees;
  std::function<bool()> gone;
};
template <class D> static bool agree(DependentQuantityD<D>& a, DependentQuantityD<D>& b) { return same(*a.dataBuffer, *b.dataBuffer); }
static VertexData<Vector3> anyPositions(SurfaceMesh& m) {
  VertexData<Vector3> p(m);
  for (Vertex v : m.vertices()) p[v] = Vector3{std::ldexp((double)vf_long("x", -512, 512), -8), std::ldexp((double)vf_long("y", -512, 512), -8), std::ldexp((double)vf_long("z", -512, 512), -8)};
  return p;
}
VF_BOUNDED(C12, geometry) {
  auto mp = zoo::baseMesh();
  SurfaceMesh& m = *mp;
  vf_assume(zoo::simplicial(*mp));
  for (size_t f : zoo::liveFaces(m)) {
    size_t d = m.face(f).degree();
    vf_assume(d >= 3);
    if (d > 3) mp->triangulate(m.face(f));
  }
  vf_assume(zoo::simplicial(*mp));
  mp->compress();
  VertexData<Vector3> p = anyPositions(m);
  VertexPositionGeometry g(m, p);
  std::vector<Handle> hs;
#define HANDLE(N, Q) hs.push_back(Handle{#N, &g.Q, [&]() { g.require##N(); }, [&]() { g.unrequire##N(); }, [&](VertexPositionGeometry& o) { return agree(g.Q, o.Q); }, [&]() { return released(*g.Q.dataBuffer); }});
  MESH_QUANTITIES(HANDLE)
  std::vector<int> evals(hs.size(), 0), count(hs.size(), 0);
  for (size_t i = 0; i < hs.size(); i++) {
    count[i] = hs[i].q->requireCount;
    auto f = hs[i].q->evaluateFunc;
    hs[i].q->evaluateFunc = [&evals, i, f]() { evals[i]++; f(); };
  }
  auto checkValues = [&]() {
    VertexPositionGeometry fresh(m, g.inputVertexPositions);
#define FRESH(N, Q) fresh.Q.ensureHave();
    MESH_QUANTITIES(FRESH)
    for (size_t i = 0; i < hs.size(); i++)
      if (hs[i].q->computed) vf_assert(hs[i].agrees(fresh), hs[i].name);
  };
  size_t steps = vf_size("steps", 1, 12);
  for (size_t k = 0; k < steps; k++) {
    std::vector<bool> was;
    for (auto& h : hs) was.push_back(h.q->computed);
    size_t i = vf_size("which", 0, hs.size() - 1), op = vf_size("op", 0, 9);
    if (op < 4) {
      hs[i].require();
      count[i]++;
    } else if (op < 6) {
      bool threw = false;
      try { hs[i].unrequire(); } catch (...) { threw = true; }
      vf_assert(threw == (count[i] == 0), "release is rejected exactly when it was not required");
      if (!threw) count[i]--;
    } else if (op == 6) {
      hs[i].q->ensureHave();
      vf_assert(hs[i].q->computed, "available");
    } else if (op == 7) {
      g.purgeQuantities();
      for (size_t j = 0; j < hs.size(); j++) {
        if (count[j] || !hs[j].q->clearable) continue;
        vf_assert(!hs[j].q->computed, "released");
        evals[j] = 0;
      }
    } else {
      if (op == 9) g.inputVertexPositions = anyPositions(m);
      for (auto& x : evals) x = 0;
      g.refreshQuantities();
    }
    for (size_t j = 0; j < hs.size(); j++) {
      vf_assert(hs[j].q->requireCount == count[j], "the require count");
      if (count[j]) vf_assert(hs[j].q->computed, "available while required");
      vf_assert(evals[j] <= 1, "computed at most once");
      if (op == 7 && was[j] && !hs[j].q->computed) vf_assert(hs[j].gone() , "the memory is released");
    }
    if (k + 1 == steps) checkValues();
  }
  vf_reach("end");
}
// each quantity alone, from a new geometry
VF_BOUNDED(C12, alone) {
  auto mp = zoo::baseMesh();
  SurfaceMesh& m = *mp;
  vf_assume(zoo::simplicial(*mp));
  for (size_t f : zoo::liveFaces(m)) {
    vf_assume(m.face(f).degree() >= 3);
    if (m.face(f).degree() > 3) mp->triangulate(m.face(f));
  }
  vf_assume(zoo::simplicial(*mp));
  mp->compress();
  VertexData<Vector3> p = anyPositions(m);
  VertexPositionGeometry all(m, p);
#define ALL(N, Q) all.Q.ensureHave();
  MESH_QUANTITIES(ALL)
#define ALONE(N, Q)                                                                                                    \
  {                                                                                                                    \
    VertexPositionGeometry g(m, p);                                                                                    \
    g.require##N();                                                                                                    \
    vf_assert(agree(g.Q, all.Q), #N " computed alone");                                                                \
    VertexPositionGeometry h(m);                                                                                       \
    h.require##N();                                                                                                    \
    h.inputVertexPositions = p;                                                                                        \
    h.refreshQuantities();                                                                                             \
    vf_assert(agree(h.Q, all.Q), #N " refreshed");                                                                     \
  }
  MESH_QUANTITIES(ALONE)
  vf_reach("end");
}
#endif
