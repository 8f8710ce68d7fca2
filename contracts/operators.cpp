// C19: assembled operators.  One arbitrary iteration of the assembly loop adds to an arbitrary entry (p, q) of the matrix exactly what the
// definition says its element contributes; the entry of the matrix is the sum of the contributions (setFromTriplets, trusted).
#include "geometry.cpp"
typedef std::complex<double> Cplx;
typedef Eigen::SparseMatrix<double> RMat;
typedef Eigen::SparseMatrix<Cplx> CMat;
struct Cx { double re, im; };
static Cx operator+(const Cx& a, const Cx& b) { return Cx{a.re + b.re, a.im + b.im}; }
struct Op;
typedef Cx (*SpecF)(Op&, size_t, size_t, size_t); // what element k contributes to the entry (p, q)
typedef void (*ElemF)(Op&, size_t);
struct Op {
  AM* a; ELG* g;
  size_t n;                       // elements of the loop
  size_t p, q;                    // an arbitrary entry
  Cx pq, qp, row, all;            // added in the iteration: to (p, q), to (q, p), to row p, to all entries
  size_t lists, builds, stage;    // triplet lists made, matrices built, and how many before this one
  void *list, *target;            // the last of them
  size_t rows, cols;
  long builtRows[2], builtCols[2]; // sizes when built
  size_t vecs, dead; double* vec[4]; size_t len[4];
  void *diag[6]; size_t from[6], diags; bool inverse[6];
  size_t slot; double old;
};
static double one(bool c, double w) { return vf_pick(c, 1, 0) * w; }
static Cx at(size_t i, size_t j, size_t p, size_t q, double re, double im = 0) { return Cx{one((i == p) & (j == q), re), one((i == p) & (j == q), im)}; }
static size_t vi(Op& o, size_t v) { return o.g->vertexIndices.raw()[(long)v]; }
static size_t ei(Op& o, size_t e) { return o.g->edgeIndices.raw()[(long)e]; }
static size_t fi(Op& o, size_t f) { return o.g->faceIndices.raw()[(long)f]; }

// ------------------------------------------------------------------------------------------------ the assembly loop
#ifndef VF_NATIVE
static Op* op;
const size_t INTS = 1ul << 31;
static void opSize(RMat* m, long r, long c) { m->m_innerSize = r; m->m_outerSize = c; }
static RMat* opAssign(RMat* to, RMat* m) { // (also moves)
  vf_assert(!((op->builds > 0) & (to == op->target)), "a matrix is not reset after it was built");
  to->m_innerSize = m->m_innerSize; to->m_outerSize = m->m_outerSize;
  return to;
}
static bool sized(const void* m, size_t r, size_t c) { const RMat* x = (const RMat*)m; return (x->m_innerSize == (long)r) & (x->m_outerSize == (long)c); }
static void opNothing(void*) {}
static void opList(void** v) { v[0] = v; op->list = v; op->lists++; }
static void* opBegin(void* v) { return v; }
static void opBuild(void* m, void** first, void**) {
  vf_assert(*first == op->list, "a matrix is built from its own entries");
  vf_assert(op->builds < 2, "matrices are built once");
  op->target = m;
  op->builtRows[op->builds] = ((RMat*)m)->m_innerSize; op->builtCols[op->builds] = ((RMat*)m)->m_outerSize;
  op->builds++;
}
static void opEmit(void* list, size_t i, size_t j, double re, double im) {
  Op& o = *op;
  vf_assert(list == o.list, "entries go to the list of their matrix");
  vf_assert((i < o.rows) & (j < o.cols), "entries are within the matrix");
  o.pq = o.pq + at(i, j, o.p, o.q, re, im);
  o.qp = o.qp + at(i, j, o.q, o.p, re, im);
  o.row = o.row + Cx{one(i == o.p, re), one(i == o.p, im)};
  o.all = o.all + Cx{re, im};
}
#define TRIPLETS(T) "std::vector<Eigen::Triplet<" T ", int>, std::allocator<Eigen::Triplet<" T ", int> > >::"
#define SPARSE(T) "Eigen::SparseMatrix<" T ", 0, int>::"
#define FROM(T) "void " SPARSE(T) "setFromTriplets<"
static void trust(const char* size, const char* assign, const char* none, const char* drop, const char* make, const char* unmake, const char* begin, const char* end, const char* build) {
  vf_replace(size, (void (*)()) & opSize, 0);
  vf_replace(assign, (void (*)()) & opAssign, 0);
  vf_replace(none, (void (*)()) & opNothing, 0);
  vf_replace(drop, (void (*)()) & opNothing, 0);
  vf_replace(make, (void (*)()) & opList, 0);
  vf_replace(unmake, (void (*)()) & opNothing, 0);
  vf_replace(begin, (void (*)()) & opBegin, 0);
  vf_replace(end, (void (*)()) & opBegin, 0);
  vf_replace(build, (void (*)()) & opBuild, 0);
}
#define TRUST(T) trust(SPARSE(T) "SparseMatrix(long, long)", SPARSE(T) "operator=(Eigen::SparseMatrix<", SPARSE(T) "SparseMatrix()", SPARSE(T) "~SparseMatrix()", TRIPLETS(T) "vector()", TRIPLETS(T) "~vector()", TRIPLETS(T) "begin()", TRIPLETS(T) "end()", FROM(T))
static Op& operators(AM& a, ELG& g, size_t n) {
  Op& o = *new Op();
  op = &o;
  o.a = &a; o.g = &g; o.n = n;
  o.p = vf_size("p", 0, NONE); o.q = vf_size("q", 0, NONE);
  o.lists = o.builds = o.stage = o.vecs = o.diags = o.dead = 0;
  o.list = o.target = nullptr;
  needs[0] = needs[1] = needs[2] = needs[3] = nullptr;
  have = 0;
  vf_replace("geometrycentral::DependentQuantity::ensureHave(", (void (*)()) & ensured, 0);
  TRUST("double");
  TRUST("std::complex<double>");
  vf_triplets(opEmit);
  return o;
}
template <LiveF LIVE> static bool opLive(void* c, size_t v, size_t) { Op& o = *(Op*)c; return (v == o.n) | ((v < o.n) & LIVE(*o.a, v)); }
template <LiveF LIVE, size_t K> static bool opLiveN(void* c, size_t v, size_t) { // of vertices, edges, faces
  AM& a = *((Op*)c)->a;
  size_t n = K == 0 ? a.V : K == 1 ? a.H / 2 : a.F;
  return (v == n) | ((v < n) & LIVE(a, v));
}
static size_t witness[3]; // a live vertex, edge and face
template <LiveF LIVE, size_t K> static bool opOver(void* c, size_t v, size_t entry) { // only dead elements are passed over
  size_t w = witness[K];
  return imp(entry <= w, v <= w);
}
template <ElemF BEGIN> static void opBeginIt(void* c, size_t v) {
  Op& o = *(Op*)c;
  o.pq = o.qp = o.row = o.all = Cx{0, 0};
  BEGIN(o, v);
}
template <SpecF SPEC, ElemF END> static void opEndIt(void* c, size_t v) {
  Op& o = *(Op*)c;
  Cx s = SPEC(o, v, o.p, o.q);
  vf_eq(o.pq.re, s.re, "an element contributes to the matrix by its definition");
  vf_eq(o.pq.im, s.im, "an element contributes to the matrix by its definition (imaginary part)");
  END(o, v);
  vf_assert(o.builds == o.stage, "the matrix is built after the last element");
  vf_reach("iteration");
}
static void anyIndices(AM& a, VertexData<size_t>& d) { auto* s = new std::vector<size_t>(); vf_sym_sizes(s, "vidx", a.m().nVerticesCapacityCount); holdsArray(a, d, s->data(), a.m().nVerticesCapacityCount); }
static void anyIndices(AM& a, EdgeData<size_t>& d) { auto* s = new std::vector<size_t>(); vf_sym_sizes(s, "eidx", a.m().nEdgesCapacityCount); holdsArray(a, d, s->data(), a.m().nEdgesCapacityCount); }
static void anyIndices(AM& a, FaceData<size_t>& d) { auto* s = new std::vector<size_t>(); vf_sym_sizes(s, "fidx", a.m().nFacesCapacityCount); holdsArray(a, d, s->data(), a.m().nFacesCapacityCount); }
// indices are below the number of elements (C05)
static bool vAx(void* c, size_t k) { Op& o = *(Op*)c; return imp(k < o.a->V, imp(vertLive(*o.a, k), vi(o, k) < o.a->m().nVerticesCount)); }
static bool eAx(void* c, size_t k) { Op& o = *(Op*)c; return imp(k < edgesEnd(*o.a), imp(edgeLive(*o.a, k), ei(o, k) < o.a->m().nEdgesCount)); }
static bool fAx(void* c, size_t k) { Op& o = *(Op*)c; return imp(k < o.a->F, imp(faceLive(*o.a, k), fi(o, k) < o.a->m().nFacesCount)); }
static void indexed(Op& o) {
  anyIndices(*o.a, o.g->vertexIndices); anyIndices(*o.a, o.g->edgeIndices); anyIndices(*o.a, o.g->faceIndices);
  vf_forall("vidx", vAx, &o); vf_forall("eidx", eAx, &o); vf_forall("fidx", fAx, &o);
}
#else
static Op& operators(AM& a, ELG& g, size_t n) {
  Op& o = *new Op();
  o.a = &a; o.g = &g; o.n = n;
  return o;
}
static void indexed(Op&) {}
static void onesNear(double x, double y, double scale, const char* what) { vf_assert(std::fabs(x - y) <= 1e-9 * (1 + scale), what); }
#endif
template <class T> struct Part { static Cx of(const T& x) { return Cx{x, 0}; } };
template <> struct Part<Cplx> { static Cx of(const Cplx& x) { return Cx{x.real(), x.imag()}; } };
template <LiveF LIVE, ElemF BEGIN, SpecF SPEC, ElemF END, class T> static void assembled(Op& o, Eigen::SparseMatrix<T>& out, size_t rows, size_t cols, const char* fn, void (*run)(ELG&), void* q0, void* q1 = nullptr, void* q2 = nullptr, void* q3 = nullptr) {
#ifdef VF_NATIVE
  run(*o.g);
  vf_assert((size_t)out.rows() == rows && (size_t)out.cols() == cols, "the matrix has the right size");
  for (size_t p = 0; p < rows; p++)
    for (size_t q = 0; q < cols; q++) {
      Cx s{0, 0}, m = Part<T>::of(out.coeff((long)p, (long)q));
      for (size_t v = 0; v < o.n; v++)
        if (LIVE(*o.a, v)) s = s + SPEC(o, v, p, q);
      onesNear(s.re, m.re, 100, "elements contribute to the matrix by their definition");
      onesNear(s.im, m.im, 100, "elements contribute to the matrix by their definition (imaginary part)");
    }
  for (size_t v = 0; v < o.n; v++)
    if (LIVE(*o.a, v)) END(o, v);
#else
  needs[0] = q0; needs[1] = q1; needs[2] = q2; needs[3] = q3;
  vf_assume((rows < INTS) & (cols < INTS)); // Eigen counts rows and columns with int
  vf_loop_keep("RangeIteratorBase", opLive<LIVE>, &o);
  vf_loop_outer(fn);
  vf_loop_keep(fn, opLive<LIVE>, &o);
  vf_loop_body(fn, opBeginIt<BEGIN>, opEndIt<SPEC, END>, &o);
  out.m_innerSize = out.m_outerSize = 0;
  o.rows = rows; o.cols = cols;
  run(*o.g);
  vf_assert(((have & 1) != 0) & ((q1 == nullptr) | ((have & 2) != 0)) & ((q2 == nullptr) | ((have & 4) != 0)) & ((q3 == nullptr) | ((have & 8) != 0)), "what the entries depend on is available");
  vf_assert(sized(&out, rows, cols), "the matrix has the right size");
  vf_assert((o.builds == 1) & (o.target == &out), "the matrix is built");
  vf_assert((o.builtRows[0] == (long)rows) & (o.builtCols[0] == (long)cols), "the matrix has its size when it is built");
  vf_reach("done");
#endif
}
#ifdef VF_NATIVE
#define ASSEMBLE(NAME) "", [](ELG& g) { g.require##NAME(); }
#else
#define ASSEMBLE(NAME) "IntrinsicGeometryInterface::compute" #NAME, [](ELG& g) { g.IntrinsicGeometryInterface::compute##NAME(); }
#endif
static void symmetric(Op& o) {
#ifndef VF_NATIVE
  vf_eq(o.pq.re, o.qp.re, "the matrix is symmetric");
  vf_eq(o.pq.im, -o.qp.im, "the matrix is Hermitian");
#endif
}
static void zeroRow(Op& o) {
#ifndef VF_NATIVE
  vf_eq(o.row.re, 0, "rows add up to zero");
  vf_eq(o.row.im, 0, "rows add up to zero (imaginary part)");
#endif
}
static void mass(Op& o, double m) {
#ifndef VF_NATIVE
  vf_eq(o.all.re, m, "the entries add up to the area");
  vf_eq(o.all.im, 0, "masses are real");
#endif
}
static void edgeSides(AM& a, size_t e) { vf_instantiate("next", 2 * e); vf_instantiate("next", 2 * e + 1); }
static double weight(Op& o, size_t e) { return val(o.g->edgeCotanWeights, e); }
// --- cotan Laplacian
static void bLap(Op& o, size_t e) { edgeSides(*o.a, e); }
static Cx sLap(Op& o, size_t e, size_t p, size_t q) {
  size_t t = vi(o, o.a->ve[2 * e]), h = vi(o, o.a->ve[2 * e + 1]);
  double w = weight(o, e);
  return at(t, t, p, q, w) + at(h, h, p, q, w) + at(t, h, p, q, -w) + at(h, t, p, q, -w);
}
static void eLap(Op& o, size_t) { symmetric(o); zeroRow(o); }
VF_CONTRACT(C19, cotanLaplacian) {
  LENGTHS;
  Op& o = operators(a, g, edgesEnd(a));
  indexed(o);
  GIVEN(anyReals(a, g.edgeCotanWeights, "weights", a.m().nEdgesCapacityCount));
  assembled<edgeLive, bLap, sLap, eLap>(o, g.cotanLaplacian, a.m().nVertices(), a.m().nVertices(), ASSEMBLE(CotanLaplacian), &g.vertexIndicesQ, &g.edgeCotanWeightsQ);
}
// --- mass matrices
static void bTri(Op& o, size_t f) { triangle(*o.a, o.a->fh[f]); }
static Cx sGal(Op& o, size_t f, size_t p, size_t q) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n], i = vi(o, a.ve[h]), j = vi(o, a.ve[n]), k = vi(o, a.ve[m]);
  double A = val(o.g->faceAreas, f), d = A / 6, s = A / 12;
  return at(i, i, p, q, d) + at(j, j, p, q, d) + at(k, k, p, q, d) + at(i, j, p, q, s) + at(i, k, p, q, s) + at(j, i, p, q, s) + at(j, k, p, q, s) + at(k, i, p, q, s) + at(k, j, p, q, s);
}
static void eGal(Op& o, size_t f) { symmetric(o); mass(o, val(o.g->faceAreas, f)); }
VF_CONTRACT(C19, vertexGalerkin) {
  LENGTHS;
  Op& o = operators(a, g, a.F);
  indexed(o);
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  assembled<faceLive, bTri, sGal, eGal>(o, g.vertexGalerkinMassMatrix, a.m().nVertices(), a.m().nVertices(), ASSEMBLE(VertexGalerkinMassMatrix), &g.vertexIndicesQ, &g.faceAreasQ);
}
static void bNone(Op&, size_t) {}
static Cx sFace(Op& o, size_t f, size_t p, size_t q) { return at(fi(o, f), fi(o, f), p, q, val(o.g->faceAreas, f)); }
VF_CONTRACT(C19, faceGalerkin) {
  LENGTHS;
  Op& o = operators(a, g, a.F);
  indexed(o);
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  assembled<faceLive, bNone, sFace, eGal>(o, g.faceGalerkinMassMatrix, a.m().nFaces(), a.m().nFaces(), ASSEMBLE(FaceGalerkinMassMatrix), &g.faceIndicesQ, &g.faceAreasQ);
}
static double inside(Op& o, size_t h) { AM& a = *o.a; bool in = a.fa[h] < a.F; return vf_pick(in, val(o.g->faceAreas, in ? a.fa[h] : 0), 0); }
static Cx sCRMass(Op& o, size_t e, size_t p, size_t q) { return at(ei(o, e), ei(o, e), p, q, (inside(o, 2 * e) + inside(o, 2 * e + 1)) / 3); }
static void eCRMass(Op& o, size_t e) { symmetric(o); mass(o, (inside(o, 2 * e) + inside(o, 2 * e + 1)) / 3); }
VF_CONTRACT(C19, crouzeixRaviartMass) {
  LENGTHS;
  Op& o = operators(a, g, edgesEnd(a));
  indexed(o);
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  assembled<edgeLive, bLap, sCRMass, eCRMass>(o, g.crouzeixRaviartMassMatrix, a.m().nEdges(), a.m().nEdges(), ASSEMBLE(CrouzeixRaviartMassMatrix), &g.edgeIndicesQ, &g.faceAreasQ);
}
// --- Crouzeix-Raviart Laplacians
static Cx crSide(Op& o, size_t h, size_t p, size_t q) { // the corner opposite of h couples the other two sides
  AM& a = *o.a;
  size_t i = ei(o, a.nx[h] / 2), j = ei(o, a.nx[a.nx[h]] / 2);
  double w = 4 * val(o.g->halfedgeCotanWeights, h);
  return at(i, i, p, q, w) + at(j, j, p, q, w) + at(i, j, p, q, -w) + at(j, i, p, q, -w);
}
static Cx sCR(Op& o, size_t f, size_t p, size_t q) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  return crSide(o, h, p, q) + crSide(o, n, p, q) + crSide(o, m, p, q);
}
VF_CONTRACT(C19, crouzeixRaviart) {
  LENGTHS;
  Op& o = operators(a, g, a.F);
  indexed(o);
  GIVEN(anyReals(a, g.halfedgeCotanWeights, "weights", a.m().nHalfedgesCapacityCount));
  assembled<faceLive, bTri, sCR, eLap>(o, g.crouzeixRaviartLaplacian, a.m().nEdges(), a.m().nEdges(), ASSEMBLE(CrouzeixRaviartLaplacian), &g.edgeIndicesQ, &g.halfedgeCotanWeightsQ);
}
// the connection: Crouzeix-Raviart
static double lenE(Op& o, size_t h) { return val(o.g->edgeLengths, h / 2); }
static Cx crcSide(Op& o, size_t h, size_t p, size_t q) {
  AM& a = *o.a;
  size_t hA = a.nx[h], hB = a.nx[hA], i = ei(o, hA / 2), j = ei(o, hB / 2);
  double w = 4 * val(o.g->halfedgeCotanWeights, h), lo = lenE(o, h), lA = lenE(o, hB), lB = lenE(o, hA);
  double c = (lA * lA + lB * lB - lo * lo) / (2 * lA * lB), s = 2 * val(o.g->faceAreas, a.fa[h]) / (lA * lB); // of the angle between the two
  size_t da = Halfedge(&a.m(), hA).orientation(), db = Halfedge(&a.m(), hB).orientation();                     // directions along the face
  double d = vf_pick(da == db, 1, -1) * w;
  return at(i, i, p, q, w) + at(j, j, p, q, w) + at(i, j, p, q, d * c, -(d * s)) + at(j, i, p, q, d * c, d * s);
}
static Cx sCRC(Op& o, size_t f, size_t p, size_t q) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  return crcSide(o, h, p, q) + crcSide(o, n, p, q) + crcSide(o, m, p, q);
}
static void bCRC(Op& o, size_t f) {
  AM& a = *o.a;
  size_t h = a.fh[f];
  triangle(a, h);
  vf_assume((lenE(o, h) > 0) & (lenE(o, a.nx[h]) > 0) & (lenE(o, a.nx[a.nx[h]]) > 0));
}
static void eHerm(Op& o, size_t) { symmetric(o); }
VF_CONTRACT(C19, crouzeixRaviartConnection) {
  LENGTHS;
  Op& o = operators(a, g, a.F);
  indexed(o);
  GIVEN(anyReals(a, g.halfedgeCotanWeights, "weights", a.m().nHalfedgesCapacityCount));
  GIVEN(anyReals(a, g.faceAreas, "areas", a.m().nFacesCapacityCount));
  assembled<faceLive, bCRC, sCRC, eHerm>(o, g.crouzeixRaviartConnectionLaplacian, a.m().nEdges(), a.m().nEdges(), ASSEMBLE(CrouzeixRaviartConnectionLaplacian), &g.edgeIndicesQ, &g.halfedgeCotanWeightsQ, &g.faceAreasQ, &g.edgeLengthsQ);
}
// vertex connection Laplacian: each halfedge; the two of an edge make a Hermitian matrix because their transports are inverse rotations
static bool liveHe(AM& a, size_t h) { return a.nx[h] != NONE; }
static Vector2 along(Op& o, size_t h) { return o.g->transportVectorsAlongHalfedge.raw()[(long)h]; }
static Vector2 across(Op& o, size_t h) { return o.g->transportVectorsAcrossHalfedge.raw()[(long)h]; }
static Cx sCon(Op& o, size_t h, size_t p, size_t q) {
  AM& a = *o.a;
  size_t t = vi(o, a.ve[h]), k = vi(o, a.ve[h ^ 1]);
  double w = weight(o, h / 2);
  Vector2 r = along(o, h ^ 1);
  return at(t, t, p, q, w) + at(t, k, p, q, -w * r.x, -w * r.y);
}
static void bCon(Op& o, size_t h) { vf_instantiate("next", h); vf_instantiate("next", h ^ 1); }
static void eCon(Op& o, size_t h) {
  Vector2 r = along(o, h), s = along(o, h ^ 1);
#ifdef VF_NATIVE
  vf_assert(std::fabs(r.x - s.x) < 1e-9 && std::fabs(r.y + s.y) < 1e-9 && std::fabs(norm(r) - 1) < 1e-9, "transports along an edge are inverse rotations");
#else
  vf_assume((r.x == s.x) & (r.y == -s.y)); // (transportAlong)
#endif
  Cx u = sCon(o, h, o.p, o.q) + sCon(o, h ^ 1, o.p, o.q), v = sCon(o, h, o.q, o.p) + sCon(o, h ^ 1, o.q, o.p);
#ifndef VF_NATIVE
  vf_eq(u.re, v.re, "the two sides of an edge make a Hermitian matrix");
  vf_eq(u.im, -v.im, "the two sides of an edge make a Hermitian matrix (imaginary part)");
#endif
}
VF_CONTRACT(C19, vertexConnection) {
  LENGTHS;
  Op& o = operators(a, g, a.H);
  indexed(o);
  GIVEN(anyReals(a, g.edgeCotanWeights, "weights", a.m().nEdgesCapacityCount));
  GIVEN(anyVecs(a, g.transportVectorsAlongHalfedge, "transport", a.m().nHalfedgesCapacityCount));
  assembled<liveHe, bCon, sCon, eCon>(o, g.vertexConnectionLaplacian, a.m().nVertices(), a.m().nVertices(), ASSEMBLE(VertexConnectionLaplacian), &g.vertexIndicesQ, &g.edgeCotanWeightsQ, &g.transportVectorsAlongHalfedgeQ);
}
// face connection Laplacian: each side with a neighbour
static Cx fcSide(Op& o, size_t h, size_t p, size_t q) {
  AM& a = *o.a;
  size_t t = h ^ 1;
  bool in = a.fa[t] < a.F;
  size_t i = fi(o, a.fa[h]), j = fi(o, vf_ite(in, a.fa[t], a.fa[h]));
  Vector2 r = across(o, t);
  return at(i, i, p, q, vf_pick(in, 1, 0)) + at(i, j, p, q, vf_pick(in, -r.x, 0), vf_pick(in, -r.y, 0));
}
static Cx sFC(Op& o, size_t f, size_t p, size_t q) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  return fcSide(o, h, p, q) + fcSide(o, n, p, q) + fcSide(o, m, p, q);
}
static bool firstInner, nextInner; // the case: neighbours at the first two sides
static void bFC(Op& o, size_t f) {
  AM& a = *o.a;
  triangle(a, a.fh[f]);
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  vf_instantiate("next", h ^ 1); vf_instantiate("next", n ^ 1); vf_instantiate("next", m ^ 1);
  vf_assume(((a.fa[h ^ 1] < a.F) == firstInner) & ((a.fa[n ^ 1] < a.F) == nextInner));
}
static void eFC(Op& o, size_t f) {
  size_t h = o.a->fh[f];
  Vector2 r = across(o, h), s = across(o, h ^ 1);
  bool in = o.a->fa[h ^ 1] < o.a->F;
#ifdef VF_NATIVE
  vf_assert(!in || (std::fabs(r.x - s.x) < 1e-9 && std::fabs(r.y + s.y) < 1e-9 && std::fabs(norm(r) - 1) < 1e-9), "transports across an edge are inverse rotations");
#else
  vf_assume((r.x == s.x) & (r.y == -s.y)); // (transportAcross)
  if (in & !nextInner) { // (once is enough)
    Cx u = fcSide(o, h, o.p, o.q) + fcSide(o, h ^ 1, o.p, o.q), v = fcSide(o, h, o.q, o.p) + fcSide(o, h ^ 1, o.q, o.p);
    vf_eq(u.re, v.re, "the two sides of an edge make a Hermitian matrix");
    vf_eq(u.im, -v.im, "the two sides of an edge make a Hermitian matrix (imaginary part)");
  }
#endif
}
static void faceConnection(bool first, bool next) {
  firstInner = first; nextInner = next;
  LENGTHS;
  Op& o = operators(a, g, a.F);
  indexed(o);
  GIVEN(anyVecs(a, g.transportVectorsAcrossHalfedge, "transport", a.m().nHalfedgesCapacityCount));
  assembled<faceLive, bFC, sFC, eFC>(o, g.faceConnectionLaplacian, a.m().nFaces(), a.m().nFaces(), ASSEMBLE(FaceConnectionLaplacian), &g.faceIndicesQ, &g.transportVectorsAcrossHalfedgeQ);
}
VF_CONTRACT(C19, faceConnection) { faceConnection(true, true); }
VF_CONTRACT(C19, faceConnection_first) { faceConnection(true, false); }
VF_CONTRACT(C19, faceConnection_second) { faceConnection(false, true); }
VF_CONTRACT(C19, faceConnection_third) { faceConnection(false, false); }

// --- the transports are inverse rotations
VF_CONTRACT(C19, transportAlong) { C14__len_transportAlong(); }
VF_CONTRACT(C19, transportAcross) { C14__len_transportAcross(); }

// ------------------------------------------------------------------------------------------------ diagonal matrices and exterior derivatives
static Cx sD0(Op& o, size_t e, size_t p, size_t q) { return at(ei(o, e), vi(o, o.a->ve[2 * e + 1]), p, q, 1) + at(ei(o, e), vi(o, o.a->ve[2 * e]), p, q, -1); }
static double dir(Op& o, size_t h) { size_t d = Halfedge(&o.a->m(), h).orientation(); return vf_pick(d == 1, 1, -1); }
static Cx sD1(Op& o, size_t f, size_t p, size_t q) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n], i = fi(o, f);
  return at(i, ei(o, h / 2), p, q, dir(o, h)) + at(i, ei(o, n / 2), p, q, dir(o, n)) + at(i, ei(o, m / 2), p, q, dir(o, m));
}
// row of d0 of the edge of h, at vertex index q
static double ends(Op& o, size_t h, size_t q) {
  size_t e = h / 2;
  return one(vi(o, o.a->ve[2 * e + 1]) == q, 1) - one(vi(o, o.a->ve[2 * e]) == q, 1);
}
static void exact(Op& o, size_t f) { // d1 d0 = 0: the sides of a face, with their directions, cancel at every vertex
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  double s = 0;
  s += dir(o, h) * ends(o, h, o.q); s += dir(o, n) * ends(o, n, o.q); s += dir(o, m) * ends(o, m, o.q);
  vf_eq(s, 0, "the boundary of a boundary is empty");
}
#ifndef VF_NATIVE
static void vecNew(Vector<double>* m, const size_t* n) {
  auto* s = new std::vector<double>();
  Op& o = *op;
  vf_sym_reals(s, o.vecs == 0 ? "diagonal0" : o.vecs == 1 ? "diagonal1" : "diagonal2", *n);
  vf_assert(o.vecs < 3, "one vector for each diagonal");
  o.vec[o.vecs] = s->data(); o.len[o.vecs] = *n;
  m->m_storage.m_data = s->data();
  m->m_storage.m_rows = (long)*n;
  o.vecs++;
}
static void* diagonal(void* m, Vector<double>** w, bool inverse) {
  Op& o = *op;
  size_t k = 9;
  for (size_t i = 0; i < o.vecs; i++) if (o.vec[i] == (*w)->m_storage.m_data) k = i;
  vf_assert((k < 9) & (o.diags < 6), "a diagonal matrix is made from its vector");
  o.diag[o.diags] = m; o.from[o.diags] = k; o.inverse[o.diags] = inverse;
  o.diags++;
  return m;
}
static void* diagC(void* m, Vector<double>** w) { return diagonal(m, w, false); }
static_assert(sizeof(Eigen::DiagonalWrapper<const Vector<double>>) == 8 && sizeof(std::declval<Vector<double>>().asDiagonal().inverse()) == 24, "the inverse holds its vector after a base class");
static void* diagInvC(void* m, Vector<double>** w) { return diagonal(m, w + 1, true); }
static double* D(Op& o, size_t k) { return o.vec[k]; }
template <size_t K> static size_t place(Op& o, size_t v) { return K == 0 ? vi(o, v) : K == 1 ? ei(o, v) : fi(o, v); }
template <size_t K> static double value(Op& o, size_t v) { return K == 0 ? val(o.g->vertexDualAreas, v) : K == 1 ? weight(o, v) : 1 / val(o.g->faceAreas, v); }
template <size_t K> static void bDiag(void* c, size_t v) {
  Op& o = *(Op*)c;
  vf_instantiate(K == 0 ? "vidx" : K == 1 ? "eidx" : "fidx", v);
  vf_assume(o.slot < o.len[K]);
  if (K == 2) vf_assume(val(o.g->faceAreas, v) > 0);
  o.old = D(o, K)[o.slot];
}
template <size_t K> static void eDiag(void* c, size_t v) {
  Op& o = *(Op*)c;
  vf_eq(D(o, K)[place<K>(o, v)], value<K>(o, v), "an element has its value on the diagonal");
  vf_eq(vf_pick(o.slot == place<K>(o, v), o.old, D(o, K)[o.slot]), o.old, "no other value changes");
  vf_assert(o.diags == 2 * K, "a diagonal matrix is made after the last element");
  vf_reach("diagonal");
}
static void eNone(Op&, size_t) {}
static void* needs4;
static void* needs5;
static void ensured6(void* q) { ensured(q); have |= (q == needs4 ? 16u : 0u) | (q == needs5 ? 32u : 0u); }
static void bFaceEdges(Op& o, size_t f) {
  AM& a = *o.a;
  size_t h = a.fh[f], n = a.nx[h], m = a.nx[n];
  triangle(a, h);
  vf_instantiate("next", h ^ 1); vf_instantiate("next", n); vf_instantiate("next", n ^ 1); vf_instantiate("next", m); vf_instantiate("next", m ^ 1);
}
static void bD0(void* c, size_t v) { Op& o = *(Op*)c; o.stage = 0; o.rows = o.a->m().nEdges(); o.cols = o.a->m().nVertices(); opBeginIt<bLap>(c, v); }
static void bD1(void* c, size_t v) { Op& o = *(Op*)c; o.stage = 1; vf_assert(o.target == &o.g->d0, "the first derivative is built"); o.rows = o.a->m().nFaces(); o.cols = o.a->m().nEdges(); opBeginIt<bFaceEdges>(c, v); }
template <LiveF LIVE, size_t K> static void diagLoop(Op& o, const char* fn) {
  vf_loop_keep(fn, opLiveN<LIVE, K>, &o);
  vf_loop_body(fn, bDiag<K>, eDiag<K>, &o);
}
#endif

#ifdef VF_NATIVE
static void derivatives(Op& o) {
  AM& a = *o.a;
  SurfaceMesh& m = a.m();
  RMat &d0 = o.g->d0, &d1 = o.g->d1;
  vf_assert((size_t)d0.rows() == m.nEdges() && (size_t)d0.cols() == m.nVertices() && (size_t)d1.rows() == m.nFaces() && (size_t)d1.cols() == m.nEdges(), "the derivatives have the right sizes");
  RMat z = d1 * d0;
  for (size_t i = 0; i < m.nFaces(); i++)
    for (size_t j = 0; j < m.nVertices(); j++) vf_assert(z.coeff((long)i, (long)j) == 0, "the boundary of a boundary is empty");
  for (size_t p = 0; p < m.nEdges(); p++)
    for (size_t q = 0; q < m.nVertices(); q++) {
      double s = 0;
      for (size_t e = 0; e < edgesEnd(a); e++) if (edgeLive(a, e)) s += sD0(o, e, p, q).re;
      vf_assert(d0.coeff((long)p, (long)q) == s, "derivative of vertex values along edges");
    }
  for (size_t p = 0; p < m.nFaces(); p++)
    for (size_t q = 0; q < m.nEdges(); q++) {
      double s = 0;
      for (size_t f = 0; f < a.F; f++) if (faceLive(a, f)) s += sD1(o, f, p, q).re;
      vf_assert(d1.coeff((long)p, (long)q) == s, "derivative of edge values around faces");
    }
}
static void dec(ELG& g) { g.requireDECOperators(); }
static void diagonalIs(RMat& m, size_t n, size_t k, double v, const char* what) {
  vf_assert((size_t)m.rows() == n && (size_t)m.cols() == n && (size_t)m.nonZeros() == n, "a diagonal matrix has the right size");
  onesNear(m.coeff((long)k, (long)k), v, std::fabs(v), what);
}
#endif
// (by whether the first vertex, edge and face are live)
static void decOperators(bool v0, bool e0, bool f0) {
  LENGTHS;
#ifndef VF_NATIVE
  vf_assume((a.V > 0) & (edgesEnd(a) > 0) & (a.F > 0));
  vf_assume(vertLive(a, 0) == v0); vf_assume(edgeLive(a, 0) == e0); vf_assume(faceLive(a, 0) == f0);
#endif
  Op& o = operators(a, g, 0);
  indexed(o);
  SurfaceMesh& m = a.m();
#ifdef VF_NATIVE
  dec(g);
  for (size_t v = 0; v < a.V; v++) if (vertLive(a, v)) { diagonalIs(g.hodge0, m.nVertices(), vi(o, v), val(g.vertexDualAreas, v), "hodge0"); diagonalIs(g.hodge0Inverse, m.nVertices(), vi(o, v), 1 / val(g.vertexDualAreas, v), "inverse of hodge0"); }
  for (size_t e = 0; e < edgesEnd(a); e++) if (edgeLive(a, e)) { diagonalIs(g.hodge1, m.nEdges(), ei(o, e), weight(o, e), "hodge1"); diagonalIs(g.hodge1Inverse, m.nEdges(), ei(o, e), 1 / weight(o, e), "inverse of hodge1"); }
  for (size_t f = 0; f < a.F; f++) if (faceLive(a, f)) { diagonalIs(g.hodge2, m.nFaces(), fi(o, f), 1 / val(g.faceAreas, f), "hodge2"); diagonalIs(g.hodge2Inverse, m.nFaces(), fi(o, f), val(g.faceAreas, f), "inverse of hodge2"); }
  derivatives(o);
#else
  anyReals(a, g.vertexDualAreas, "duals", m.nVerticesCapacityCount);
  anyReals(a, g.edgeCotanWeights, "weights", m.nEdgesCapacityCount);
  anyReals(a, g.faceAreas, "areas", m.nFacesCapacityCount);
  vf_replace("Eigen::Matrix<double, -1, 1, 0, -1, 1>::Matrix<unsigned long>(unsigned long const&)", (void (*)()) & vecNew, 0);
  vf_replace("Eigen::Matrix<double, -1, 1, 0, -1, 1>::~Matrix()", (void (*)()) & opNothing, 0);
#define DIAGTO "Eigen::SparseMatrix<double, 0, int>& Eigen::SparseMatrix<double, 0, int>::operator=<Eigen::DiagonalWrapper<Eigen::"
  vf_replace(DIAGTO "Matrix<", (void (*)()) & diagC, 0);
  vf_replace(DIAGTO "CwiseUnaryOp<", (void (*)()) & diagInvC, 0);
#define FN "IntrinsicGeometryInterface::computeDECOperators"
  o.slot = vf_size("slot", 0, NONE);
  o.rows = o.cols = INTS;
  witness[0] = anyVertex(a, "v0"); witness[1] = anyEdge(a, "e0"); witness[2] = anyFace(a, "f0"); // (a mesh which is not empty)
  vf_loop_outer(FN);
  diagLoop<vertLive, 0>(o, FN "#1");
  diagLoop<edgeLive, 1>(o, FN "#2");
  diagLoop<faceLive, 2>(o, FN "#3");
  vf_loop_keep(FN "#4", opLiveN<edgeLive, 1>, &o);
  vf_loop_body(FN "#4", bD0, opEndIt<sD0, eNone>, &o);
  vf_loop_keep(FN "#5", opLiveN<faceLive, 2>, &o);
  vf_loop_body(FN "#5", bD1, opEndIt<sD1, exact>, &o);
  vf_loop_keep("RangeIteratorBase<geometrycentral::surface::VertexRangeF>", opOver<vertLive, 0>, &o);
  vf_loop_keep("RangeIteratorBase<geometrycentral::surface::EdgeRangeF>", opOver<edgeLive, 1>, &o);
  vf_loop_keep("RangeIteratorBase<geometrycentral::surface::FaceRangeF>", opOver<faceLive, 2>, &o);
  vf_assume((m.nVertices() < INTS) & (m.nEdges() < INTS) & (m.nFaces() < INTS));
  needs[0] = &g.vertexIndicesQ; needs[1] = &g.edgeIndicesQ; needs[2] = &g.faceIndicesQ; needs[3] = &g.vertexDualAreasQ; needs4 = &g.edgeCotanWeightsQ; needs5 = &g.faceAreasQ;
  vf_replace("geometrycentral::DependentQuantity::ensureHave(", (void (*)()) & ensured6, 0);
  g.IntrinsicGeometryInterface::computeDECOperators();
  vf_assert(have == 63, "what the entries depend on is available");
  vf_assert((o.vecs == 3) & (o.diags == 6), "three diagonals and their inverses");
  vf_assert((o.len[0] == m.nVertices()) & (o.len[1] == m.nEdges()) & (o.len[2] == m.nFaces()), "the diagonals have the right sizes");
  void* M[6] = {&g.hodge0, &g.hodge0Inverse, &g.hodge1, &g.hodge1Inverse, &g.hodge2, &g.hodge2Inverse};
  for (size_t k = 0; k < 6; k++) {
    size_t found = 0;
    for (size_t i = 0; i < 6; i++)
      if (o.diag[i] == M[k] && o.from[i] == k / 2 && o.inverse[i] == (k == 2 * (k / 2) + 1)) found++;
    vf_assert(found == 1, "each matrix is made from its diagonal");
  }
  vf_assert((o.builds == 2) & (o.target == &g.d1), "the derivatives are built");
  vf_assert((o.builtRows[0] == (long)m.nEdges()) & (o.builtCols[0] == (long)m.nVertices()) & (o.builtRows[1] == (long)m.nFaces()) & (o.builtCols[1] == (long)m.nEdges()), "the derivatives have their sizes when they are built");
  vf_assert(sized(&g.d0, m.nEdges(), m.nVertices()) & sized(&g.d1, m.nFaces(), m.nEdges()), "the derivatives have the right sizes");
  vf_reach("done");
#endif
}
VF_CONTRACT(C19, decOperators) { decOperators(true, true, true); }
VF_CONTRACT(C19, decOperators_v) { decOperators(false, true, true); }
VF_CONTRACT(C19, decOperators_e) { decOperators(true, false, true); }
VF_CONTRACT(C19, decOperators_f) { decOperators(true, true, false); }
VF_CONTRACT(C19, decOperators_ve) { decOperators(false, false, true); }
VF_CONTRACT(C19, decOperators_vf) { decOperators(false, true, false); }
VF_CONTRACT(C19, decOperators_ef) { decOperators(true, false, false); }
VF_CONTRACT(C19, decOperators_vef) { decOperators(false, false, false); }

#ifdef VF_NATIVE
VF_BOUNDED(C19, whole) { // the matrices as a whole, with stale (cached) dependencies
  AM& a = *anyTriMesh();
  VPG& g = positions(a);
  SurfaceMesh& m = a.m();
  for (Face f : m.faces()) vf_assume(g.faceArea(f) > 0.02);
  g.requireCotanLaplacian(); g.requireVertexLumpedMassMatrix(); g.requireVertexGalerkinMassMatrix(); g.requireVertexConnectionLaplacian(); g.requireFaceGalerkinMassMatrix();
  g.requireFaceConnectionLaplacian(); g.requireCrouzeixRaviartLaplacian(); g.requireCrouzeixRaviartMassMatrix(); g.requireCrouzeixRaviartConnectionLaplacian(); g.requireDECOperators();
  g.requireFaceAreas(); g.requireVertexDualAreas(); g.requireEdgeCotanWeights(); g.requireVertexIndices(); g.requireEdgeIndices(); g.requireFaceIndices();
  double area = 0;
  for (Face f : m.faces()) area += g.faceAreas[f];
  size_t V = m.nVertices(), E = m.nEdges(), F = m.nFaces();
  auto real = [&](RMat& x, size_t n, bool zero, double total, const char* what) {
    vf_assert((size_t)x.rows() == n && (size_t)x.cols() == n, what);
    double sum = 0;
    for (size_t i = 0; i < n; i++) {
      double row = 0;
      for (size_t j = 0; j < n; j++) {
        double y = x.coeff((long)i, (long)j);
        row += y; sum += y;
        onesNear(y, x.coeff((long)j, (long)i), std::fabs(y), what);
      }
      if (zero) onesNear(row, 0, 100, what);
    }
    if (!zero) onesNear(sum, total, 1000 * total, what);
  };
  real(g.cotanLaplacian, V, true, 0, "cotan Laplacian: symmetric with rows that add up to zero");
  real(g.crouzeixRaviartLaplacian, E, true, 0, "Crouzeix-Raviart Laplacian: symmetric with rows that add up to zero");
  real(g.vertexLumpedMassMatrix, V, false, area, "lumped mass: adds up to the area");
  real(g.vertexGalerkinMassMatrix, V, false, area, "Galerkin mass: adds up to the area");
  real(g.faceGalerkinMassMatrix, F, false, area, "face mass: adds up to the area");
  real(g.crouzeixRaviartMassMatrix, E, false, area, "Crouzeix-Raviart mass: adds up to the area");
  for (Vertex v : m.vertices()) {
    size_t i = g.vertexIndices[v];
    onesNear(g.vertexLumpedMassMatrix.coeff((long)i, (long)i), g.vertexDualAreas[v], 1, "lumped mass: dual areas");
    vf_assert((size_t)g.vertexLumpedMassMatrix.nonZeros() == V, "lumped mass: diagonal");
    onesNear(g.hodge0.coeff((long)i, (long)i), g.vertexDualAreas[v], 1, "hodge0: dual areas");
  }
  for (size_t i = 0; i < V; i++) // off the diagonal: minus the weights of the edges between
    for (size_t j = 0; j < V; j++) if (i != j) {
      double w = 0, c = 0;
      for (Edge e : m.edges()) {
        size_t t = g.vertexIndices[e.firstVertex()], h = g.vertexIndices[e.secondVertex()];
        if ((t == i && h == j) || (t == j && h == i)) { w += g.edgeCotanWeights[e]; c++; }
      }
      onesNear(g.cotanLaplacian.coeff((long)i, (long)j), -w, 100, "cotan Laplacian: minus the weights off the diagonal");
      if (c < 2) onesNear(std::abs(g.vertexConnectionLaplacian.coeff((long)i, (long)j)), std::fabs(w), 100, "connection Laplacian: the same moduli");
    }
  auto hermitian = [&](CMat& x, size_t n, const char* what) {
    vf_assert((size_t)x.rows() == n && (size_t)x.cols() == n, what);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        Cplx y = x.coeff((long)i, (long)j), z = x.coeff((long)j, (long)i);
        onesNear(y.real(), z.real(), std::abs(y), what); onesNear(y.imag(), -z.imag(), std::abs(y), what);
      }
  };
  hermitian(g.vertexConnectionLaplacian, V, "vertex connection Laplacian: Hermitian");
  hermitian(g.faceConnectionLaplacian, F, "face connection Laplacian: Hermitian");
  hermitian(g.crouzeixRaviartConnectionLaplacian, E, "Crouzeix-Raviart connection Laplacian: Hermitian");
  vf_assert((g.d1 * g.d0).eval().norm() == 0, "the boundary of a boundary is empty");
  RMat L = g.d0.transpose() * g.hodge1 * g.d0;
  for (size_t i = 0; i < V; i++)
    for (size_t j = 0; j < V; j++) onesNear(L.coeff((long)i, (long)j), g.cotanLaplacian.coeff((long)i, (long)j), 100, "the cotan Laplacian is made from the derivatives");
  vf_reach("compared");
}
#endif
