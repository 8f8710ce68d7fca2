// C20: the helpers that rewrite matrices and vectors lose no entry and change none.
// Sparse matrices: an arbitrary Eigen::SparseMatrix (column major, with or without spare room in the columns) is read through
// the real Eigen iterators; each stored entry must be emitted exactly once, in the right places.  What is emitted becomes the
// result through Eigen's setFromTriplets (trusted: entry (i,j) of the result is the sum of the triplets (i,j,.)).
#include "vf.h"
#include <complex>
#include <sstream>
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/utilities/vector2.h"
using namespace geometrycentral;
typedef std::complex<double> C;
static bool imp(bool a, bool b) { return !a | b; }

#ifndef VF_NATIVE
const size_t BIG = 1ul << 29;
struct Sp { // a sparse matrix; cnt[k]: number of entries in the columns before k
  size_t rows, cols, nnz;
  std::vector<int> outer, nz, inner;
  std::vector<size_t> cnt;
  std::vector<double> re;
  std::vector<Vector2> cx;
  size_t k, id;              // the column and the entry being read
  size_t row, col;           // its place
  size_t visited;            // entries read so far
  size_t at[4], other;       // how often it was emitted in each of its places; what is expected in places 1 to 3
  size_t row0, col0;         // where this matrix starts in the result
};
static Sp* cur;              // the matrix being read
static size_t outRows, outCols, builds;
static bool colAx(void* c, size_t k) {
  Sp& s = *(Sp*)c;
  return imp(k < s.cols, (s.outer[k] >= 0) & (s.nz[k] >= 0) & ((size_t)s.outer[k] + (size_t)s.nz[k] <= (size_t)s.outer[k + 1]) & ((size_t)s.outer[k + 1] <= s.nnz) & (s.cnt[k + 1] == s.cnt[k] + (size_t)s.nz[k])) &
         imp(k == 0, s.cnt[k] == 0) & imp(k <= s.cols, s.cnt[k] <= s.nnz);
}
static bool tight(void* c, size_t k) { Sp& s = *(Sp*)c; return imp(k < s.cols, s.outer[k + 1] == s.outer[k] + s.nz[k]); }
static bool rowAx(void* c, size_t i) { Sp& s = *(Sp*)c; return imp(i < s.nnz, (s.inner[i] >= 0) & ((size_t)s.inner[i] < s.rows)); }
template <class T> static void shape(Sp& s, SparseMatrix<T>& m, size_t rows, size_t cols, bool compressed, bool second) {
  s.rows = rows; s.cols = cols; s.nnz = vf_size("stored", 0, BIG);
  vf_sym_ints(&s.outer, second ? "outer2" : "outer", s.cols + 1); vf_sym_ints(&s.nz, second ? "inColumn2" : "inColumn", s.cols + 1);
  vf_sym_ints(&s.inner, second ? "inner2" : "inner", s.nnz); vf_sym_sizes(&s.cnt, second ? "before2" : "before", s.cols + 1);
  vf_forall(second ? "outer2,inColumn2,before2" : "outer,inColumn,before", colAx, &s);
  vf_forall(second ? "inner2" : "inner", rowAx, &s);
  if (compressed) vf_forall(second ? "outer2" : "outer", tight, &s);
  vf_instantiate(second ? "before2" : "before", 0);
  m.m_outerSize = (long)s.cols; m.m_innerSize = (long)s.rows;
  m.m_outerIndex = s.outer.data();
  m.m_innerNonZeros = compressed ? nullptr : s.nz.data();
  m.m_data.m_indices = s.inner.data(); m.m_data.m_size = (long)s.nnz; m.m_data.m_allocatedSize = (long)s.nnz;
  s.at[0] = s.at[1] = s.at[2] = s.at[3] = s.visited = 0; s.other = 0;
  s.row0 = s.col0 = 0; s.k = 0; s.id = 0;
}
template <class T> static T& raw() { return *(T*)malloc(sizeof(T)); }
static void anyReal(Sp& s, SparseMatrix<double>& m, size_t rows, size_t cols, bool compressed, bool second = false) {
  shape(s, m, rows, cols, compressed, second);
  vf_sym_reals(&s.re, second ? "value2" : "value", s.nnz);
  m.m_data.m_values = s.re.data();
}
static SparseMatrix<C>& anyComplex(Sp& s, bool compressed) {
  auto& m = raw<SparseMatrix<C>>();
  shape(s, m, vf_size("rows", 0, BIG), vf_size("cols", 0, BIG), compressed, false);
  vf_sym_vecs(&s.cx, "value", s.nnz, 2);
  m.m_data.m_values = (C*)s.cx.data();
  return m;
}
// the walk over all entries: columns in order, the entries of a column in order
static bool columns(void*, size_t v, size_t) { Sp& s = *cur; return (v <= s.cols) & (s.visited == s.cnt[v]); }
static void column(void*, size_t v) { cur->k = v; }
static bool entries(void*, size_t v, size_t) { Sp& s = *cur; size_t b = (size_t)s.outer[s.k]; return (s.k < s.cols) & (v >= b) & (v <= b + (size_t)s.nz[s.k]) & (s.visited == s.cnt[s.k] + (v - b)); }
static void entry(void*, size_t v) {
  Sp& s = *cur;
  vf_instantiate("inner,inner2", v);
  s.id = v; s.at[0] = s.at[1] = s.at[2] = s.at[3] = 0;
  s.row = (size_t)s.inner[v]; s.col = s.k;
  s.visited++;
}
static void nothing(void*, size_t) {}
static void emitted(void*, size_t) {
  Sp& s = *cur;
  vf_assert((s.at[0] == 1) & (s.at[1] == s.other) & (s.at[2] == s.other) & (s.at[3] == s.other), "an entry is written once in each of its places");
  vf_reach("an entry");
}
static void construct(void*, long r, long c) { outRows = (size_t)r; outCols = (size_t)c; }
static void build(void*, void*, void*) { builds++; }
static void keep(void*) {}
#define SM "Eigen::SparseMatrix<double, 0, int>::"
#define ITER "__gnu_cxx::__normal_iterator<Eigen::Triplet<double, int>*, std::vector<Eigen::Triplet<double, int>, std::allocator<Eigen::Triplet<double, int> > > >"
static void emittedBlock(void*, size_t);
static void walk(const char* outer, const char* inner, bool blocks = false) {
  outRows = outCols = builds = 0;
  vf_loop_keep(outer, columns, nullptr);
  vf_loop_body(outer, column, nothing, nullptr);
  vf_loop_keep(inner, entries, nullptr);
  if (blocks) vf_loop_body(inner, entry, emittedBlock, nullptr);
  else vf_loop_body(inner, entry, emitted, nullptr);
  vf_replace(SM "SparseMatrix(long, long)", (void (*)()) & construct, 0);
  vf_replace("void " SM "setFromTriplets<" ITER " >(", (void (*)()) & build, 0);
  vf_replace(SM "makeCompressed()", (void (*)()) & keep, 0);
}
static void all(Sp& s) { vf_assert(s.visited == s.cnt[s.cols], "every stored entry is written"); }
static void emitComplex(void*, size_t i, size_t j, double v, double im) { // one of the four places of a complex entry
  Sp& s = *cur;
  bool r = i == 2 * s.row + 1, c = j == 2 * s.col + 1;
  vf_assert((r | (i == 2 * s.row)) & (c | (j == 2 * s.col)), "a complex entry becomes a block at the same place");
  double x = s.cx[s.id].x, y = s.cx[s.id].y;
  vf_assert(imp(r == c, v == x) & imp(r & !c, v == y) & imp(!r & c, v == -y), "the block is the matrix of multiplication with the entry");
  s.at[0] += (size_t)(!r & !c); s.at[1] += (size_t)(!r & c); s.at[2] += (size_t)(r & !c); s.at[3] += (size_t)(r & c);
}
static void complexMatrix(bool compressed) {
  Sp& s = *new Sp();
  cur = &s;
  SparseMatrix<C>& m = anyComplex(s, compressed);
  s.other = 1;
  walk("geometrycentral::complexToReal(Eigen::SparseMatrix#1", "geometrycentral::complexToReal(Eigen::SparseMatrix#1.1");
  vf_triplets(emitComplex);
  auto& r = raw<SparseMatrix<double>>();
  new (&r) SparseMatrix<double>(complexToReal(m));
  vf_assert((outRows == 2 * s.rows) & (outCols == 2 * s.cols) & (builds == 1), "the real matrix has twice the size");
  all(s);
  vf_reach("converted");
}
VF_CONTRACT(C20, complexToReal_matrix) { complexMatrix(true); }
VF_CONTRACT(C20, complexToReal_matrix_loose) { complexMatrix(false); }

// --- stacking: two matrices of any size and pattern
static Sp *one, *two;
static SparseMatrix<double>* stack2;
typedef std::vector<SparseMatrix<double>, Eigen::aligned_allocator<SparseMatrix<double>>> Mats;
static void place(void*, size_t i, size_t j, double v, double) {
  Sp& s = *cur;
  vf_assert((i == s.row0 + s.row) & (j == s.col0 + s.col), "an entry keeps its place in its block");
  vf_assert(v == s.re[s.id], "an entry keeps its value");
  s.at[0]++;
}
static long colsOf(SparseMatrix<double>* m) { cur = m == stack2 ? one : two; return m->m_outerSize; }
static long rowsOf(SparseMatrix<double>* m) { cur = m == stack2 ? one : two; return m->m_innerSize; }
static Mats& pair(bool compressed, bool vertical) {
  one = new Sp(); two = new Sp(); cur = one;
  stack2 = (SparseMatrix<double>*)malloc(2 * sizeof(SparseMatrix<double>));
  size_t a = vf_size("common size", 0, BIG), b = vf_size("size of the first", 0, BIG), c = vf_size("size of the second", 0, BIG);
  if (vertical) { anyReal(*one, stack2[0], b, a, compressed); anyReal(*two, stack2[1], c, a, compressed, true); two->row0 = b; }
  else { anyReal(*one, stack2[0], a, b, compressed); anyReal(*two, stack2[1], a, c, compressed, true); two->col0 = b; }
  Mats& v = raw<Mats>();
  ((SparseMatrix<double>**)&v)[0] = stack2;
  ((SparseMatrix<double>**)&v)[1] = stack2 + 2;
  ((SparseMatrix<double>**)&v)[2] = stack2 + 2;
  return v;
}
static void stacked(bool vertical, bool compressed) {
  Mats& v = pair(compressed, vertical);
  if (vertical) {
    walk("geometrycentral::verticalStack<double>(#1.1", "geometrycentral::verticalStack<double>(#1.2");
    vf_replace(SM "cols() const", (void (*)()) & colsOf, 0);
  } else {
    walk("geometrycentral::horizontalStack<double>(#1.1", "geometrycentral::horizontalStack<double>(#1.2");
    vf_replace(SM "rows() const", (void (*)()) & rowsOf, 0);
  }
  vf_triplets(place);
  auto& r = raw<SparseMatrix<double>>();
  if (vertical) new (&r) SparseMatrix<double>(verticalStack<double>(v));
  else new (&r) SparseMatrix<double>(horizontalStack<double>(v));
  if (vertical) vf_assert((outRows == one->rows + two->rows) & (outCols == one->cols), "the stack has the size of all blocks");
  else vf_assert((outRows == one->rows) & (outCols == one->cols + two->cols), "the stack has the size of all blocks");
  vf_assert(builds == 1, "the stack is built");
  all(*one); all(*two);
  vf_reach("stacked");
}
VF_CONTRACT(C20, verticalStack_two) { stacked(true, true); }
VF_CONTRACT(C20, verticalStack_two_loose) { stacked(true, false); }
VF_CONTRACT(C20, horizontalStack_two) { stacked(false, true); }
VF_CONTRACT(C20, horizontalStack_two_loose) { stacked(false, false); }

// --- vectors: the value of an arbitrary entry
struct Vecs { size_t n, j; std::vector<double> re; std::vector<Vector2> cx; double* outR; Vector2* outC; };
static Vecs* vv;
static void realVector(Vector<double>* m, const size_t* n) {
  auto* s = new std::vector<double>();
  vf_sym_reals(s, "result", *n);
  vv->outR = s->data();
  m->m_storage.m_data = s->data();
  m->m_storage.m_rows = (long)*n;
}
static void complexVector(Vector<C>* m, const size_t* n) {
  auto* s = new std::vector<Vector2>();
  vf_sym_vecs(s, "result", *n, 2);
  vv->outC = s->data();
  m->m_storage.m_data = (C*)s->data();
  m->m_storage.m_rows = (long)*n;
}
static bool splitDone(void*, size_t v, size_t) { Vecs& a = *vv; return imp(v > a.j, (a.outR[2 * a.j] == a.cx[a.j].x) & (a.outR[2 * a.j + 1] == a.cx[a.j].y)); }
static bool joinDone(void*, size_t v, size_t) { Vecs& a = *vv; return imp(v > a.j, (a.outC[a.j].x == a.re[2 * a.j]) & (a.outC[a.j].y == a.re[2 * a.j + 1])); }
#define EV(T) "Eigen::Matrix<" T ", -1, 1, 0, -1, 1>::Matrix<unsigned long>(unsigned long const&)"
static Vecs& vectors() {
  vv = new Vecs();
  vv->n = vf_size("n", 1, BIG); vv->j = vf_size("j", 0, BIG);
  vf_assume(vv->j < vv->n);
  vf_replace(EV("double"), (void (*)()) & realVector, 0);
  vf_replace(EV("std::complex<double>"), (void (*)()) & complexVector, 0);
  return *vv;
}
VF_CONTRACT(C20, complexToReal_vector) {
  Vecs& a = vectors();
  vf_sym_vecs(&a.cx, "z", a.n, 2);
  auto& z = raw<Vector<C>>();
  z.m_storage.m_data = (C*)a.cx.data(); z.m_storage.m_rows = (long)a.n;
  vf_loop_keep("geometrycentral::complexToReal(Eigen::Matrix", splitDone, nullptr);
  auto& r = raw<Vector<double>>();
  new (&r) Vector<double>(complexToReal(z));
  vf_assert(r.m_storage.m_rows == (long)(2 * a.n), "the real vector has twice the size");
  double* x = r.m_storage.m_data;
  vf_assert((x[2 * a.j] == a.cx[a.j].x) & (x[2 * a.j + 1] == a.cx[a.j].y), "real and imaginary parts are interleaved");
  vf_reach("converted");
}
VF_CONTRACT(C20, realToComplex_vector) {
  Vecs& a = vectors();
  vf_sym_reals(&a.re, "x", 2 * a.n);
  auto& x = raw<Vector<double>>();
  x.m_storage.m_data = a.re.data(); x.m_storage.m_rows = (long)(2 * a.n);
  vf_loop_keep("geometrycentral::realToComplex(", joinDone, nullptr);
  auto& r = raw<Vector<C>>();
  new (&r) Vector<C>(realToComplex(x));
  vf_assert(r.m_storage.m_rows == (long)a.n, "the complex vector has half the size");
  Vector2* z = (Vector2*)r.m_storage.m_data;
  vf_assert((z[a.j].x == a.re[2 * a.j]) & (z[a.j].y == a.re[2 * a.j + 1]), "pairs become complex numbers");
  vf_reach("converted");
}

// --- block decomposition.  pc[i]: number of indices in A among the first i
struct Blocks {
  size_t n, j, ids, named;
  std::vector<char> A;
  std::vector<size_t> pc;
  size_t emitted, wanted;       // times the entry being read was emitted; whether its block is wanted
  void* reg[8];                 // the triplet lists, in the order of their construction
  size_t built[4];
  BlockDecompositionResult<double>* r;
};
static Blocks* bb;
static bool pcAx(void* c, size_t i) {
  Blocks& b = *(Blocks*)c;
  return imp(i < b.n, (b.pc[i + 1] == b.pc[i] + (size_t)b.A[i]) & (b.pc[i + 1] <= b.pc[b.n]) & (b.pc[b.n] + i + 1 <= b.n + b.pc[i + 1])) & imp(i == 0, b.pc[i] == 0) & imp(i <= b.n, (b.pc[i] <= i) & (b.pc[b.n] <= b.n) & (b.pc[b.n] + i <= b.n + b.pc[i]) & (b.pc[i] <= b.pc[b.n])) &
         imp((b.j < b.n) & (i <= b.n), imp(i > b.j, b.pc[b.j] + (size_t)b.A[b.j] <= b.pc[i]) & imp(i > b.j, b.j + 1 + b.pc[i] <= i + b.pc[b.j] + (size_t)b.A[b.j]) & imp(i <= b.j, b.pc[i] <= b.pc[b.j]) & imp(i <= b.j, i + b.pc[b.j] <= b.j + b.pc[i]));
}
static bool countA(void*, size_t v, size_t, size_t i) { return (i <= bb->n) & (v == bb->pc[i]); }
static bool countB(void*, size_t v, size_t, size_t i) { return (i <= bb->n) & (v + bb->pc[i] == i); }
static size_t* ids(Vector<size_t>& v) { return (size_t*)v.m_storage.m_data; }
static bool indexed(void*, size_t v, size_t) {
  Blocks& b = *bb;
  bool a = b.A[b.j] != 0;
  return (v <= b.n) & imp(v > b.j, (ids(b.r->newInds)[b.j] == vf_ite(a, b.pc[b.j], b.j - b.pc[b.j])) & imp(a, ids(b.r->origIndsA)[b.pc[b.j]] == b.j) & imp(!a, ids(b.r->origIndsB)[b.j - b.pc[b.j]] == b.j));
}
static void sizeVector(Vector<size_t>* m, const size_t* n) {
  auto* s = new std::vector<size_t>();
  bb->named++;
  vf_sym_sizes(s, bb->named == 1 ? "indices1" : bb->named == 2 ? "indices2" : "indices3", *n);
  m->m_storage.m_data = s->data();
  m->m_storage.m_rows = (long)*n;
}
static void emptyMatrix(SparseMatrix<double>* m) { m->m_outerSize = m->m_innerSize = 0; }
static void sizedMatrix(SparseMatrix<double>* m, long r, long c) { m->m_outerSize = c; m->m_innerSize = r; }
static SparseMatrix<double>& assignMatrix(SparseMatrix<double>* a, SparseMatrix<double>* b) { a->m_outerSize = b->m_outerSize; a->m_innerSize = b->m_innerSize; return *a; }
static void triplets(void** v) { v[0] = v; bb->reg[bb->ids] = v; bb->ids++; }
static void* beginOf(void* v) { return v; }
static size_t idOf(void* v) { size_t k = 9; for (size_t i = 0; i < bb->ids; i++) if (bb->reg[i] == v) k = i; return k; }
static void emitBlock(void* list, size_t i, size_t j, double v, double) {
  Sp& s = *cur; Blocks& b = *bb;
  size_t id = idOf(list), home;
  if (b.A[s.row] != 0) { if (b.A[s.col] != 0) home = vf_first(0, id); else home = vf_first(1, id); }
  else { if (b.A[s.col] != 0) home = vf_first(2, id); else home = vf_first(3, id); }
  vf_assert((home == id) & (id < 9), "all entries of a block go to the same list");
  vf_assert((i == ids(b.r->newInds)[s.row]) & (j == ids(b.r->newInds)[s.col]), "an entry goes to the place of its row and column in the block");
  vf_assert(v == s.re[s.id], "an entry keeps its value");
  s.at[0]++;
}
static void emittedBlock(void*, size_t) {
  Sp& s = *cur; Blocks& b = *bb;
  vf_assert(s.at[0] == (size_t)((b.wanted != 0) | (b.A[s.row] != 0)), "an entry is written once if its block is wanted");
  vf_reach("an entry");
}
static void buildBlock(SparseMatrix<double>* m, void** first, void**) {
  Blocks& b = *bb;
  size_t k = m == &b.r->AA ? 0 : m == &b.r->AB ? 1 : m == &b.r->BA ? 2 : 3;
  vf_assert((m == &b.r->AA) | (m == &b.r->AB) | (m == &b.r->BA) | (m == &b.r->BB), "a block is built");
  size_t id = idOf(*first), home = k == 0 ? vf_first(0, id) : k == 1 ? vf_first(1, id) : k == 2 ? vf_first(2, id) : vf_first(3, id);
  vf_assert((id < 9) & (home == id), "a block is built from its own entries");
  b.built[k]++;
}
#define BDS "geometrycentral::blockDecomposeSquare<double>(#"
#define LIST "std::vector<Eigen::Triplet<double, int>, std::allocator<Eigen::Triplet<double, int> > >::"
static void decomposed(bool compressed, bool both) {
  Sp& s = *new Sp(); cur = &s;
  Blocks& b = *new Blocks(); bb = &b;
  size_t n = vf_size("n", 1, BIG);
  b.n = n; b.j = vf_size("j", 0, BIG); vf_assume(b.j < n); b.ids = 0; b.named = 0; b.wanted = both ? 1 : 0;
  b.built[0] = b.built[1] = b.built[2] = b.built[3] = 0;
  auto& m = raw<SparseMatrix<double>>();
  anyReal(s, m, n, n, compressed);
  vf_sym_chars(&b.A, "inA", n); vf_sym_sizes(&b.pc, "countA", n + 1);
  vf_forall("inA,countA", pcAx, &b);
  auto& A = raw<Vector<bool>>();
  A.m_storage.m_data = (bool*)b.A.data(); A.m_storage.m_rows = (long)n;
  vf_loop_step(BDS "1", countA, nullptr); vf_loop_step(BDS "1", countB, nullptr);
  vf_loop_step(BDS "2", countA, nullptr); vf_loop_step(BDS "2", countB, nullptr);
  vf_loop_keep(BDS "2", indexed, nullptr);
  walk(BDS "3", BDS "3.1", true);
  vf_replace(SM "SparseMatrix(long, long)", (void (*)()) & sizedMatrix, 0);
  vf_replace(SM "SparseMatrix()", (void (*)()) & emptyMatrix, 0);
  vf_replace(SM "~SparseMatrix()", (void (*)()) & keep, 0);
  vf_replace(SM "operator=(Eigen::SparseMatrix<double, 0, int> const&)", (void (*)()) & assignMatrix, 0);
  vf_replace(EV("unsigned long"), (void (*)()) & sizeVector, 0);
  vf_replace(LIST "vector()", (void (*)()) & triplets, 0);
  vf_replace(LIST "~vector()", (void (*)()) & keep, 0);
  vf_replace(LIST "begin()", (void (*)()) & beginOf, 0);
  vf_replace(LIST "end()", (void (*)()) & beginOf, 0);
  vf_triplets(emitBlock);
  vf_replace("void " SM "setFromTriplets<" ITER " >(", (void (*)()) & buildBlock, 0);
  auto& r = raw<BlockDecompositionResult<double>>();
  b.r = &r;
  new (&r) BlockDecompositionResult<double>(blockDecomposeSquare<double>(m, A, both));
  vf_instantiate("countA", n); vf_instantiate("countA", 0);
  size_t a = b.pc[n], c = n - a;
  vf_assert((r.newInds.m_storage.m_rows == (long)n) & (r.origIndsA.m_storage.m_rows == (long)a) & (r.origIndsB.m_storage.m_rows == (long)c), "the index sets have the right sizes");
  vf_assert((r.AA.m_innerSize == (long)a) & (r.AA.m_outerSize == (long)a) & (r.AB.m_innerSize == (long)a) & (r.AB.m_outerSize == (long)c), "the blocks of A have the right sizes");
  size_t a2 = both ? a : 0, c2 = both ? c : 0;
  vf_assert((r.BA.m_innerSize == (long)c2) & (r.BA.m_outerSize == (long)a2) & (r.BB.m_innerSize == (long)c2) & (r.BB.m_outerSize == (long)c2), "the blocks of B have the right sizes");
  vf_assert((b.built[0] == 1) & (b.built[1] == 1) & (b.built[2] == b.wanted) & (b.built[3] == b.wanted), "every wanted block is built");
  vf_assert(((bool*)r.isA.m_storage.m_data)[b.j] == (b.A[b.j] != 0), "the index set is kept");
  size_t k = ids(r.newInds)[b.j];
  if (b.A[b.j] != 0) {
    vf_assert((k == b.pc[b.j]) & (k < a), "the index in A counts the elements of A before");
    vf_assert(ids(r.origIndsA)[k] == b.j, "an index of A leads back");
    vf_reach("an index of A");
  } else {
    vf_assert((k + b.pc[b.j] == b.j) & (k < c), "the index in B counts the elements of B before");
    vf_assert(ids(r.origIndsB)[k] == b.j, "an index of B leads back");
    vf_reach("an index of B");
  }
  all(s);
  vf_reach("decomposed");
}
VF_CONTRACT(C20, blockDecompose) { decomposed(true, true); }
VF_CONTRACT(C20, blockDecompose_loose) { decomposed(false, true); }
VF_CONTRACT(C20, blockDecompose_A) { decomposed(true, false); }

// --- vectors under a decomposition: origIndsA and origIndsB partition the indices, newInds is their inverse
struct Parts { size_t n, a, b, j; std::vector<char> isA; std::vector<size_t> newInds, origA, origB; std::vector<double> x, xa, xb; double *ra, *rb; size_t made; BlockDecompositionResult<double>* d; };
static Parts* pp;
static bool newAx(void* c, size_t i) { Parts& p = *(Parts*)c; return imp(i < p.n, imp(p.isA[i] != 0, p.newInds[i] < p.a) & imp(p.isA[i] == 0, p.newInds[i] < p.b)); }
static bool origAAx(void* c, size_t i) { Parts& p = *(Parts*)c; return imp(i < p.a, p.origA[i] < p.n); }
static bool origBAx(void* c, size_t i) { Parts& p = *(Parts*)c; return imp(i < p.b, p.origB[i] < p.n); }
static bool invAAx(void* c, size_t i) { Parts& p = *(Parts*)c; size_t o = vf_ite(i < p.a, p.origA[i], 0); return imp(i < p.a, (p.isA[o] != 0) & (p.newInds[o] == i)); }
static bool invBAx(void* c, size_t i) { Parts& p = *(Parts*)c; size_t o = vf_ite(i < p.b, p.origB[i], 0); return imp(i < p.b, (p.isA[o] == 0) & (p.newInds[o] == i)); }
static void resultVector(Vector<double>* m, const size_t* n) {
  auto* s = new std::vector<double>();
  vf_sym_reals(s, pp->made ? "result2" : "result1", *n);
  pp->made++;
  m->m_storage.m_data = s->data();
  m->m_storage.m_rows = (long)*n;
}
static void resultVectorL(Vector<double>* m, const long* n) { size_t k = (size_t)*n; resultVector(m, &k); }
static void hold(Vector<size_t>& v, std::vector<size_t>& s, size_t n) { v.m_storage.m_data = s.data(); v.m_storage.m_rows = (long)n; }
static void hold(Vector<double>& v, std::vector<double>& s, size_t n) { v.m_storage.m_data = s.data(); v.m_storage.m_rows = (long)n; }
static Parts& parts() {
  pp = new Parts();
  Parts& p = *pp;
  p.made = 0;
  p.n = vf_size("n", 1, BIG); p.a = vf_size("sizeA", 0, BIG); p.b = vf_size("sizeB", 0, BIG); p.j = vf_size("j", 0, BIG);
  vf_assume((p.a + p.b == p.n) & (p.j < p.n));
  vf_sym_chars(&p.isA, "inA", p.n); vf_sym_sizes(&p.newInds, "newInds", p.n); vf_sym_sizes(&p.origA, "origA", p.a); vf_sym_sizes(&p.origB, "origB", p.b);
  vf_forall("newInds", newAx, &p); vf_forall("origA", origAAx, &p); vf_forall("origB", origBAx, &p); vf_forall("origA", invAAx, &p); vf_forall("origB", invBAx, &p);
  vf_instantiate("newInds", p.j); vf_instantiate("origA", p.newInds[p.j]); vf_instantiate("origB", p.newInds[p.j]);
  p.d = &raw<BlockDecompositionResult<double>>();
  hold(p.d->newInds, p.newInds, p.n); hold(p.d->origIndsA, p.origA, p.a); hold(p.d->origIndsB, p.origB, p.b);
  vf_replace("Eigen::Matrix<double, -1, 1, 0, -1, 1>::Matrix<unsigned long>(unsigned long const&)", (void (*)()) & resultVector, 0);
  vf_replace("Eigen::Matrix<double, -1, 1, 0, -1, 1>::Matrix<long>(long const&)", (void (*)()) & resultVectorL, 0);
  return p;
}
// where the value of index j has to go (index k of its part)
static Vector<double>*outA, *outB;
static bool takenA(void*, size_t v, size_t) { Parts& p = *pp; size_t k = p.newInds[p.j]; return imp((p.isA[p.j] != 0) & (v > k), outA->m_storage.m_data[k] == p.x[p.origA[k]]); }
static bool takenB(void*, size_t v, size_t) { Parts& p = *pp; size_t k = p.newInds[p.j]; return imp((p.isA[p.j] == 0) & (v > k), outB->m_storage.m_data[k] == p.x[p.origB[k]]); }
VF_CONTRACT(C20, decomposeVector) { // for an arbitrary place k of the parts
  Parts& p = parts();
  vf_sym_reals(&p.x, "x", p.n);
  auto& x = raw<Vector<double>>(); hold(x, p.x, p.n);
  outA = &raw<Vector<double>>(); outB = &raw<Vector<double>>();
  outA->m_storage.m_data = nullptr; outA->m_storage.m_rows = 0; outB->m_storage.m_data = nullptr; outB->m_storage.m_rows = 0;
  vf_loop_keep("geometrycentral::decomposeVector<double>(#1", takenA, nullptr);
  vf_loop_keep("geometrycentral::decomposeVector<double>(#2", takenB, nullptr);
  decomposeVector<double>(*p.d, x, *outA, *outB);
  vf_assert((outA->m_storage.m_rows == (long)p.a) & (outB->m_storage.m_rows == (long)p.b), "the parts have the right sizes");
  size_t k = p.newInds[p.j];
  if (p.isA[p.j] != 0) {
    vf_assert(outA->m_storage.m_data[k] == p.x[p.origA[k]], "an entry of part A is the entry at its original index");
    vf_reach("part A");
  } else {
    vf_assert(outB->m_storage.m_data[k] == p.x[p.origB[k]], "an entry of part B is the entry at its original index");
    vf_reach("part B");
  }
}
static double* whole;
static void wholeVector(Vector<double>* m, const long* n) { resultVectorL(m, n); whole = m->m_storage.m_data; }
static bool putA(void*, size_t v, size_t) { Parts& p = *pp; size_t k = p.newInds[p.j]; return imp((p.isA[p.j] != 0) & (v > k), whole[p.origA[k]] == p.xa[k]); }
static bool putB(void*, size_t v, size_t) { Parts& p = *pp; size_t k = p.newInds[p.j]; return imp((p.isA[p.j] != 0), whole[p.origA[k]] == p.xa[k]) & imp((p.isA[p.j] == 0) & (v > k), whole[p.origB[k]] == p.xb[k]); }
VF_CONTRACT(C20, reassembleVector) {
  Parts& p = parts();
  vf_sym_reals(&p.xa, "xa", p.a); vf_sym_reals(&p.xb, "xb", p.b);
  auto& xa = raw<Vector<double>>(); hold(xa, p.xa, p.a);
  auto& xb = raw<Vector<double>>(); hold(xb, p.xb, p.b);
  vf_replace("Eigen::Matrix<double, -1, 1, 0, -1, 1>::Matrix<long>(long const&)", (void (*)()) & wholeVector, 0);
  vf_loop_keep("geometrycentral::reassembleVector<double>(#1", putA, nullptr);
  vf_loop_keep("geometrycentral::reassembleVector<double>(#2", putB, nullptr);
  auto& r = raw<Vector<double>>();
  new (&r) Vector<double>(reassembleVector<double>(*p.d, xa, xb));
  vf_assert(r.m_storage.m_rows == (long)p.n, "the whole vector has the right size");
  size_t k = p.newInds[p.j];
  if (p.isA[p.j] != 0) {
    vf_assert(r.m_storage.m_data[p.origA[k]] == p.xa[k], "an entry of part A goes to its original index");
    vf_reach("part A");
  } else {
    vf_assert(r.m_storage.m_data[p.origB[k]] == p.xb[k], "an entry of part B goes to its original index");
    vf_reach("part B");
  }
}
#endif
#ifdef VF_NATIVE
// bounded: the same helpers, all of them, on random matrices against dense arithmetic
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> D;
typedef Eigen::Matrix<C, Eigen::Dynamic, Eigen::Dynamic> Z;
static double value() { return (double)vf_size("value", 0, 40) / 4. - 5.; }
static void put(double& x) { x = value(); }
static void put(C& x) { x = C(value(), value()); }
template <class T> static SparseMatrix<T> sparse(size_t r, size_t c) {
  SparseMatrix<T> m(r, c);
  size_t fill = vf_size("entries", 0, r * c);
  if (r && c)
    for (size_t k = 0; k < fill; k++) { T v; put(v); m.coeffRef(vf_size("i", 0, r - 1), vf_size("j", 0, c - 1)) = v; }
  if (vf_size("compress", 0, 1)) m.makeCompressed();
  return m;
}
static size_t dim(const char* n, size_t lo = 0) { return vf_size(n, lo, 6); }
template <class T, class F> static bool accepts(const T& m, F check) { try { check(m); return true; } catch (...) { return false; } }
VF_BOUNDED(C20, complexToReal) {
  SparseMatrix<C> m = sparse<C>(dim("rows"), dim("cols"));
  Z z = m;
  D r = complexToReal(m);
  vf_assert(r.rows() == 2 * z.rows() && r.cols() == 2 * z.cols(), "the real matrix has twice the size");
  for (long i = 0; i < z.rows(); i++)
    for (long j = 0; j < z.cols(); j++)
      vf_assert(r(2 * i, 2 * j) == z(i, j).real() && r(2 * i, 2 * j + 1) == -z(i, j).imag() && r(2 * i + 1, 2 * j) == z(i, j).imag() && r(2 * i + 1, 2 * j + 1) == z(i, j).real(), "an entry becomes a block");
  Vector<C> v(z.cols());
  for (long i = 0; i < v.size(); i++) put(v[i]);
  Vector<double> x = complexToReal(v);
  Vector<C> w = realToComplex(x), p = m * v, q = realToComplex(Vector<double>(complexToReal(m) * x));
  vf_assert(w == v, "realToComplex inverts complexToReal");
  vf_assert(p.size() == q.size() && (p.size() == 0 || (p - q).cwiseAbs().maxCoeff() < 1e-9), "the real system acts as the complex one");
}
VF_BOUNDED(C20, shiftDiagonal) {
  size_t n = dim("n");
  SparseMatrix<double> m = sparse<double>(n, n);
  D before = m;
  double s = value();
  shiftDiagonal(m, s);
  D after = m;
  vf_assert(after == D(before + s * D::Identity(n, n)), "the shift is added to every diagonal entry and to nothing else");
  SparseMatrix<C> mc = sparse<C>(n, n);
  Z bc = mc;
  C sc; put(sc);
  shiftDiagonal(mc, sc);
  vf_assert(Z(mc) == Z(bc + sc * Z::Identity(n, n)), "the complex shift is added to every diagonal entry and to nothing else");
  SparseMatrix<double> bad = sparse<double>(n, n + 1);
  vf_assert(!accepts(bad, [](const SparseMatrix<double>& b) { SparseMatrix<double> c = b; shiftDiagonal(c, 1.); }), "a matrix that is not square is refused");
  vf_assert(D(identityMatrix<double>(n)) == D(D::Identity(n, n)), "identityMatrix");
}
template <class T> static void stacks() {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
  size_t k = vf_size("matrices", 1, 4), n = dim("common size");
  std::vector<SparseMatrix<T>, Eigen::aligned_allocator<SparseMatrix<T>>> v, h;
  long tv = 0, th = 0;
  for (size_t i = 0; i < k; i++) {
    v.push_back(sparse<T>(dim("rows"), n)); tv += v.back().rows();
    h.push_back(sparse<T>(n, dim("cols"))); th += h.back().cols();
  }
  M V = verticalStack<T>(v), H = horizontalStack<T>(h);
  vf_assert(V.rows() == tv && V.cols() == (long)n && H.cols() == th && H.rows() == (long)n, "a stack has the size of its blocks");
  long r = 0, c = 0;
  for (size_t i = 0; i < k; i++) {
    vf_assert(M(V.block(r, 0, v[i].rows(), n)) == M(v[i]), "vertical blocks are kept");
    vf_assert(M(H.block(0, c, n, h[i].cols())) == M(h[i]), "horizontal blocks are kept");
    r += v[i].rows(); c += h[i].cols();
  }
  v.push_back(sparse<T>(2, n + 1)); h.push_back(sparse<T>(n + 1, 2));
  vf_assert(!accepts(v, [](const decltype(v)& x) { verticalStack<T>(x); }) && !accepts(h, [](const decltype(h)& x) { horizontalStack<T>(x); }), "blocks of different size are refused");
}
VF_BOUNDED(C20, stack) { if (vf_size("complex", 0, 1)) stacks<C>(); else stacks<double>(); }
template <class T> static void decompositions() {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
  size_t n = dim("n");
  SparseMatrix<T> m = sparse<T>(n, n);
  Vector<bool> A(n);
  for (size_t i = 0; i < n; i++) A[i] = vf_size("inA", 0, 1);
  bool both = vf_size("both", 0, 1);
  BlockDecompositionResult<T> r = blockDecomposeSquare<T>(m, A, both);
  std::vector<size_t> a, b;
  for (size_t i = 0; i < n; i++) (A[i] ? a : b).push_back(i);
  vf_assert((size_t)r.origIndsA.size() == a.size() && (size_t)r.origIndsB.size() == b.size() && (size_t)r.newInds.size() == n && r.isA == A, "the index sets have the right sizes");
  for (size_t i = 0; i < a.size(); i++) vf_assert(r.origIndsA[i] == a[i] && r.newInds[a[i]] == i, "indices of A");
  for (size_t i = 0; i < b.size(); i++) vf_assert(r.origIndsB[i] == b[i] && r.newInds[b[i]] == i, "indices of B");
  M d = m;
  auto block = [&](const SparseMatrix<T>& x, const std::vector<size_t>& p, const std::vector<size_t>& q, bool wanted) {
    M e = x;
    if (!wanted) { vf_assert(e.size() == 0, "an unwanted block is empty"); return; }
    vf_assert((size_t)e.rows() == p.size() && (size_t)e.cols() == q.size(), "a block has the size of its index sets");
    for (size_t i = 0; i < p.size(); i++)
      for (size_t j = 0; j < q.size(); j++) vf_assert(e(i, j) == d(p[i], q[j]), "a block has the entries of the matrix");
  };
  block(r.AA, a, a, true); block(r.AB, a, b, true); block(r.BA, b, a, both); block(r.BB, b, b, both);
  Vector<T> x(n), xa, xb;
  for (size_t i = 0; i < n; i++) put(x[i]);
  decomposeVector<T>(r, x, xa, xb);
  for (size_t i = 0; i < a.size(); i++) vf_assert(xa[i] == x[a[i]], "part A of a vector");
  for (size_t i = 0; i < b.size(); i++) vf_assert(xb[i] == x[b[i]], "part B of a vector");
  vf_assert(reassembleVector<T>(r, xa, xb) == x, "reassembling inverts decomposing");
  SparseMatrix<T> bad = sparse<T>(n, n + 1);
  vf_assert(!accepts(bad, [&](const SparseMatrix<T>& y) { blockDecomposeSquare<T>(y, A); }), "a matrix that is not square is refused");
}
VF_BOUNDED(C20, blockDecompose) { if (vf_size("complex", 0, 1)) decompositions<C>(); else decompositions<double>(); }
VF_BOUNDED(C20, finite) {
  size_t n = dim("n", 1), k = dim("k", 1);
  SparseMatrix<double> m = sparse<double>(n, k);
  SparseMatrix<C> z = sparse<C>(n, k);
  Eigen::Matrix<double, 1, Eigen::Dynamic> row(k);
  Vector<double> col(n);
  D d(n, k);
  for (size_t j = 0; j < k; j++) row[j] = value();
  for (size_t i = 0; i < n; i++) { col[i] = value(); for (size_t j = 0; j < k; j++) d(i, j) = value(); }
  auto all = [&](int which) -> bool {
    switch (which) {
      case 0: return accepts(m, [](const SparseMatrix<double>& x) { checkFinite(x); });
      case 1: return accepts(z, [](const SparseMatrix<C>& x) { checkFinite(x); });
      case 2: return accepts(row, [](const Eigen::Matrix<double, 1, Eigen::Dynamic>& x) { checkFinite(x); });
      case 3: return accepts(col, [](const Vector<double>& x) { checkFinite(x); });
      default: return accepts(d, [](const D& x) { checkFinite(x); });
    }
  };
  for (int w = 0; w < 5; w++) vf_assert(all(w), "a finite matrix is accepted");
  double bad = vf_size("nan", 0, 1) ? std::nan("") : (vf_size("sign", 0, 1) ? 1 : -1) / 0.;
  size_t i = vf_size("i", 0, n - 1), j = vf_size("j", 0, k - 1);
  m.coeffRef(i, j) = bad; z.coeffRef(i, j) = vf_size("part", 0, 1) ? C(bad, 1) : C(1, bad); row[j] = bad; col[i] = bad; d(i, j) = bad;
  const char* what[5] = {"a sparse matrix with an infinite entry is refused", "a complex matrix with an infinite entry is refused", "a row vector with an infinite entry is refused", "a vector with an infinite entry is refused", "a dense matrix with an infinite entry is refused"};
  for (int w = 0; w < 5; w++) vf_assert(!all(w), what[w]);
}
VF_BOUNDED(C20, symmetry) {
  size_t n = dim("n", 1);
  SparseMatrix<double> m = sparse<double>(n, n), s = m + SparseMatrix<double>(m.transpose());
  SparseMatrix<C> z = sparse<C>(n, n), h = z + SparseMatrix<C>(z.adjoint()), zs = z + SparseMatrix<C>(z.transpose());
  bool own = vf_size("tolerance", 0, 1);
  double eps = own ? 1e-6 : -1.;
  auto sym = [&](const SparseMatrix<double>& x) { checkSymmetric(x, eps); };
  auto symC = [&](const SparseMatrix<C>& x) { checkSymmetric(x, eps); };
  auto herm = [&](const SparseMatrix<C>& x) { checkHermitian(x, eps); };
  vf_assert(accepts(s, sym), "a symmetric matrix is accepted");
  vf_assert(accepts(h, herm), "a Hermitian matrix is accepted");
  vf_assert(accepts(zs, symC), "a complex symmetric matrix is accepted");
  vf_assert(accepts(m, sym) == (D(m) == D(m.transpose())), "symmetric matrices are told from others");
  vf_assert(accepts(z, herm) == (Z(z) == Z(z.adjoint())), "Hermitian matrices are told from others");
  vf_assert(accepts(z, symC) == (Z(z) == Z(z.transpose())), "complex symmetric matrices are told from others");
  size_t i = vf_size("i", 0, n - 1), j = vf_size("j", 0, n - 1);
  h.coeffRef(i, i) += C(0, 1);
  vf_assert(!accepts(h, herm), "a diagonal entry that is not real is refused");
  if (i != j) {
    s.coeffRef(i, j) += 1; zs.coeffRef(i, j) += C(0, 1);
    vf_assert(!accepts(s, sym) && !accepts(zs, symC), "one changed entry is refused");
  }
}
VF_BOUNDED(C20, unpack) {
  DenseMatrix<double> d(dim("rows"), dim("cols"));
  for (long i = 0; i < d.rows(); i++) for (long j = 0; j < d.cols(); j++) d(i, j) = value();
  auto v = unpackMatrixToStdVector<double>(d);
  vf_assert(v.size() == (size_t)d.rows(), "one vector per row");
  for (long i = 0; i < d.rows(); i++) {
    vf_assert(v[i].size() == (size_t)d.cols(), "one value per column");
    for (long j = 0; j < d.cols(); j++) vf_assert(v[i][j] == d(i, j), "entries are kept");
  }
}
#endif
