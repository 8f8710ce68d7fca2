// An arbitrary valid general surface mesh (explicit siblings, vertex lists).  For the verifier the arrays are unconstrained
// except for the representation invariant, stated as quantified axioms; natively it is a zoo mesh after a random history.
#pragma once
#include "symmesh.h"
#ifdef VF_NATIVE
#include "generalops.h"
#endif
namespace gm {
using namespace sm;
const size_t W = 1ul << 30; // bound on the number of elements of each kind
struct GM {
  SurfaceMesh* mp = nullptr;
  // initial arrays
  std::vector<size_t> nx, ve, fa, si, ed, on, op, in, ip, vh, fh, eh, os, is;
  std::vector<char> orient;
  // ghost: predecessor in the face and in the sibling cycle.  Each list is a sequence: pX[h] is the position of h in its
  // list, lX the length, aX the entries (list * W + position), for X = O (outgoing), I (incoming), S (siblings), B (boundary
  // of the face).  away[h]: h is currently in no vertex list
  std::vector<size_t> pv, sp, pO, lO, aO, pI, lI, aI, pS, lS, aS, pB, lB, aB;
  std::vector<char> away;
  size_t H, V, F, E, tick;
  SurfaceMesh& m() { return *mp; }
  bool live(size_t h) { return (h < H) & (nx[h] != NONE); }
  bool listed(size_t h) { return (h < H) & (nx[h] != NONE) & (away[h] == 0); }
};
// x is a member of list k, a sequence in which n comes after x and p before
inline bool inSequence(std::vector<size_t>& pos, std::vector<size_t>& len, std::vector<size_t>& at, size_t k, size_t x, size_t n, size_t p) {
  size_t i = pos[x], l = len[k];
  return (i < l) & (l < W) & (at[k * W + i] == x) & (at[k * W + pos[n]] == n) & (at[k * W + pos[p]] == p) & (pos[n] == vf_ite(i + 1 == l, 0, i + 1)) & (pos[p] == vf_ite(i == 0, l - 1, i - 1));
}
inline bool gxH(void* c, size_t h) {
  GM& a = *(GM*)c;
  size_t n = a.nx[h], p = a.pv[h];
  return imp(a.live(h), (n < a.H) & (n != h) & (a.nx[n] != NONE) & (a.pv[n] == h) & (p < a.H) & (a.nx[p] == h)) &
         imp(a.live(h), (a.ve[h] < a.V) & (a.vh[a.ve[h]] != NONE) & (a.fa[h] < a.F) & (a.fh[a.fa[h]] != NONE) & (a.fa[n] == a.fa[h]) & (a.fa[p] == a.fa[h])) &
         imp(a.live(h), inSequence(a.pB, a.lB, a.aB, a.fa[h], h, n, p));
}
// two halfedges of one edge join the same vertices, in the same order exactly if their orientation flags agree
inline bool sideBySide(size_t p, size_t q, char o, size_t r, size_t s, char t) {
  bool same = (o != 0) == (t != 0);
  return imp(same, (p == r) & (q == s)) & imp(!same, (p == s) & (q == r));
}
inline bool gxS(void* c, size_t h) { // the halfedges of an edge are one cycle
  GM& a = *(GM*)c;
  size_t s = a.si[h], p = a.sp[h];
  return imp(a.live(h), (s < a.H) & (a.nx[s] != NONE) & (a.ed[s] == a.ed[h]) & (a.sp[s] == h) & (p < a.H) & (a.nx[p] != NONE) & (a.si[p] == h) & (a.ed[p] == a.ed[h])) &
         imp(a.live(h), (a.ed[h] < a.E) & (a.eh[a.ed[h]] != NONE) & inSequence(a.pS, a.lS, a.aS, a.ed[h], h, s, p)) &
         imp(a.live(h), sideBySide(a.ve[h], a.ve[a.nx[h]], a.orient[h], a.ve[s], a.ve[a.nx[s]], a.orient[s]));
}
inline bool gxO(void* c, size_t h) { // the outgoing halfedges of a vertex are one doubly linked cycle
  GM& a = *(GM*)c;
  size_t n = a.on[h], p = a.op[h];
  return imp(a.listed(h), a.listed(n) & (a.ve[n] == a.ve[h]) & (a.op[n] == h) & a.listed(p) & (a.on[p] == h) & (a.ve[p] == a.ve[h])) &
         imp(a.listed(h), inSequence(a.pO, a.lO, a.aO, a.ve[h], h, n, p));
}
inline bool gxI(void* c, size_t h) { // and the incoming ones
  GM& a = *(GM*)c;
  size_t n = a.in[h], p = a.ip[h], t = a.ve[a.nx[h]];
  return imp(a.listed(h), a.listed(n) & (a.ve[a.nx[n]] == t) & (a.ip[n] == h) & a.listed(p) & (a.in[p] == h) & (a.ve[a.nx[p]] == t)) &
         imp(a.listed(h), inSequence(a.pI, a.lI, a.aI, t, h, n, p));
}
inline bool gxV(void* c, size_t v) { // a vertex starts its lists; without listed halfedges, they are empty
  GM& a = *(GM*)c;
  size_t h = a.vh[v], o = a.os[v], i = a.is[v];
  bool lv = (v < a.V) & (h != NONE);
  return imp(lv, a.live(h) & (a.ve[h] == v)) & imp(lv, ((o == NONE) & (a.lO[v] == 0)) | (a.listed(o) & (a.ve[o] == v) & (a.pO[o] == 0))) &
         imp(lv, ((i == NONE) & (a.lI[v] == 0)) | (a.listed(i) & (a.ve[a.nx[i]] == v) & (a.pI[i] == 0)));
}
inline bool gxF(void* c, size_t f) {
  GM& a = *(GM*)c;
  size_t h = a.fh[f];
  return imp((f < a.F) & (h != NONE), a.live(h) & (a.fa[h] == f) & (a.pB[h] == 0));
}
inline bool gxE(void* c, size_t e) {
  GM& a = *(GM*)c;
  size_t h = a.eh[e];
  return imp((e < a.E) & (h != NONE), a.live(h) & (a.ed[h] == e) & (a.pS[h] == 0));
}
#ifdef VF_NATIVE
inline void record(GM* a) {
  SurfaceMesh& m = *a->mp;
  a->nx = m.heNextArr; a->ve = m.heVertexArr; a->fa = m.heFaceArr; a->si = m.heSiblingArr; a->ed = m.heEdgeArr;
  a->on = m.heVertOutNextArr; a->op = m.heVertOutPrevArr; a->in = m.heVertInNextArr; a->ip = m.heVertInPrevArr;
  a->vh = m.vHalfedgeArr; a->fh = m.fHalfedgeArr; a->eh = m.eHalfedgeArr; a->os = m.vHeOutStartArr; a->is = m.vHeInStartArr;
  a->H = m.nHalfedgesFillCount; a->V = m.nVerticesFillCount; a->F = m.nFacesFillCount; a->E = m.nEdgesFillCount; a->tick = m.modificationTick;
  a->orient = m.heOrientArr;
  a->away.assign(a->nx.size(), 0);
  a->pv.assign(a->nx.size(), NONE); a->sp = a->pv;
  for (size_t h = 0; h < a->H; h++) if (a->nx[h] != NONE) { a->pv[a->nx[h]] = h; a->sp[a->si[h]] = h; }
}
inline GM* anyGeneral() {
  GM* a = new GM();
  a->mp = (vf_bool("tri") ? zoo::triGeneral() : zoo::baseGeneral()).release();
  zoo::generalHistory(*a->mp, 3);
  record(a);
  return a;
}
inline size_t anyHe(GM& a, const char* n = "h") { return zoo::pick(n, zoo::liveHes(a.m())); }
inline size_t anyFace(GM& a, const char* n = "f") { return zoo::pick(n, zoo::liveFaces(a.m())); }
inline size_t anyEdge(GM& a, const char* n = "e") { return zoo::pick(n, zoo::liveEdges(a.m())); }
#else
// away: some halfedges may be missing from the vertex lists (in the middle of an edit)
inline GM* anyGeneral(bool away = false) {
  GM& a = *new GM();
  a.mp = new SurfaceMesh(false);
  SurfaceMesh& m = a.m();
  const size_t BIG = W - 2;
  a.H = vf_size("H", 0, BIG); a.V = vf_size("V", 0, BIG); a.F = vf_size("F", 0, BIG); a.E = vf_size("E", 0, BIG);
  size_t CH = vf_size("halfedgeCapacity", 0, BIG), CV = vf_size("vertexCapacity", 0, BIG), CF = vf_size("faceCapacity", 0, BIG), CE = vf_size("edgeCapacity", 0, BIG);
  vf_assume((a.H <= CH) & (a.V <= CV) & (a.F <= CF) & (a.E <= CE));
  vf_sym_sizes(&m.heNextArr, "next", CH); vf_sym_sizes(&m.heVertexArr, "vert", CH); vf_sym_sizes(&m.heFaceArr, "face", CH);
  vf_sym_sizes(&m.heSiblingArr, "sib", CH); vf_sym_sizes(&m.heEdgeArr, "hedge", CH); vf_sym_chars(&m.heOrientArr, "orient", CH);
  vf_sym_sizes(&m.heVertOutNextArr, "outNext", CH); vf_sym_sizes(&m.heVertOutPrevArr, "outPrev", CH);
  vf_sym_sizes(&m.heVertInNextArr, "inNext", CH); vf_sym_sizes(&m.heVertInPrevArr, "inPrev", CH);
  vf_sym_sizes(&m.vHalfedgeArr, "vhe", CV); vf_sym_sizes(&m.vHeOutStartArr, "outStart", CV); vf_sym_sizes(&m.vHeInStartArr, "inStart", CV);
  vf_sym_sizes(&m.fHalfedgeArr, "fhe", CF); vf_sym_sizes(&m.eHalfedgeArr, "ehe", CE);
  vf_sym_sizes(&a.pv, "prev", CH); vf_sym_sizes(&a.sp, "sibPrev", CH);
  const size_t N = 1ul << 62;
  vf_sym_sizes(&a.pO, "posO", N); vf_sym_sizes(&a.lO, "lenO", N); vf_sym_sizes(&a.aO, "atO", N);
  vf_sym_sizes(&a.pI, "posI", N); vf_sym_sizes(&a.lI, "lenI", N); vf_sym_sizes(&a.aI, "atI", N);
  vf_sym_sizes(&a.pS, "posS", N); vf_sym_sizes(&a.lS, "lenS", N); vf_sym_sizes(&a.aS, "atS", N);
  vf_sym_sizes(&a.pB, "posB", N); vf_sym_sizes(&a.lB, "lenB", N); vf_sym_sizes(&a.aB, "atB", N);
  if (away) vf_sym_chars(&a.away, "away", N);
  else vf_map_chars(&a.away, "away", N, [](void*, size_t) { return (size_t)0; }, nullptr);
  vf_old_chars(&a.orient, "orient");
  vf_old_sizes(&a.nx, "next"); vf_old_sizes(&a.ve, "vert"); vf_old_sizes(&a.fa, "face"); vf_old_sizes(&a.si, "sib"); vf_old_sizes(&a.ed, "hedge");
  vf_old_sizes(&a.on, "outNext"); vf_old_sizes(&a.op, "outPrev"); vf_old_sizes(&a.in, "inNext"); vf_old_sizes(&a.ip, "inPrev");
  vf_old_sizes(&a.vh, "vhe"); vf_old_sizes(&a.fh, "fhe"); vf_old_sizes(&a.eh, "ehe"); vf_old_sizes(&a.os, "outStart"); vf_old_sizes(&a.is, "inStart");
  vf_forall("next,prev,vert,face", gxH, &a);
  vf_forall("sib,sibPrev", gxS, &a);
  vf_forall("outNext,outPrev", gxO, &a);
  vf_forall("inNext,inPrev", gxI, &a);
  vf_forall("vhe,outStart,inStart", gxV, &a);
  vf_forall("fhe", gxF, &a);
  vf_forall("ehe", gxE, &a);
  m.nHalfedgesFillCount = a.H; m.nVerticesFillCount = a.V; m.nFacesFillCount = a.F; m.nEdgesFillCount = a.E; m.nBoundaryLoopsFillCount = 0;
  m.nHalfedgesCapacityCount = CH; m.nVerticesCapacityCount = CV; m.nFacesCapacityCount = CF; m.nEdgesCapacityCount = CE;
  m.nHalfedgesCount = vf_size("nH", 0, BIG); m.nVerticesCount = vf_size("nV", 0, BIG); m.nFacesCount = vf_size("nF", 0, BIG); m.nEdgesCount = vf_size("nE", 0, BIG);
  m.nBoundaryLoopsCount = 0;
  m.nInteriorHalfedgesCount = m.nHalfedgesCount;
  a.tick = vf_size("tick", 0, BIG);
  m.modificationTick = a.tick;
  m.isCompressedFlag = vf_bool("compressed");
  return &a;
}
inline size_t anyLive(const char* n, size_t fill, std::vector<size_t>& arr) {
  size_t x = vf_size(n, 0, 1ul << 41);
  vf_assume(x < fill);
  vf_assume(arr[x] != NONE);
  return x;
}
inline size_t anyHe(GM& a, const char* n = "h") { return anyLive(n, a.H, a.nx); }
inline size_t anyFace(GM& a, const char* n = "f") { return anyLive(n, a.F, a.fh); }
inline size_t anyEdge(GM& a, const char* n = "e") { return anyLive(n, a.E, a.eh); }
#endif
} // namespace gm
