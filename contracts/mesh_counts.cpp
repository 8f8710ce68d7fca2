// C03: creation and deletion of elements, for arbitrary array contents, sizes and spare capacity (with and without
// reallocation).
#include "symmesh.h"
using namespace sm;
// sizes and counters of the mesh agree; every slot in use is allocated
static void storageOk(AM& a) {
  ManifoldSurfaceMesh& m = a.m();
  vf_assert((m.nVerticesCount <= m.nVerticesFillCount) & (m.nVerticesFillCount <= m.nVerticesCapacityCount) & (m.vHalfedgeArr.size() == m.nVerticesCapacityCount), "vertices fit their storage");
  vf_assert((m.nHalfedgesCount <= m.nHalfedgesFillCount) & (m.nHalfedgesFillCount <= m.nHalfedgesCapacityCount), "halfedges fit their storage");
  vf_assert((m.heNextArr.size() >= m.nHalfedgesCapacityCount) & (m.heVertexArr.size() >= m.nHalfedgesCapacityCount) & (m.heFaceArr.size() >= m.nHalfedgesCapacityCount), "halfedge arrays have the capacity");
  vf_assert((m.nEdgesCount <= m.nEdgesFillCount) & (m.nEdgesFillCount <= m.nEdgesCapacityCount), "edges fit their storage");
  vf_assert((m.nFacesCount <= m.nFacesFillCount) & (m.nBoundaryLoopsCount <= m.nBoundaryLoopsFillCount) & (m.nFacesFillCount + m.nBoundaryLoopsFillCount <= m.nFacesCapacityCount), "faces and boundary loops fit their shared storage");
  vf_assert(m.fHalfedgeArr.size() == m.nFacesCapacityCount, "face array has the capacity");
}
static void counts(AM& a, long dV, long dE, long dF, long dB, long dI) {
  ManifoldSurfaceMesh& m = a.m();
  vf_assert((long)m.nVertices() == (long)a.nV + dV, "vertex count");
  vf_assert((long)m.nEdges() == (long)a.nE + dE, "edge count");
  vf_assert((long)m.nHalfedges() == (long)a.nH + 2 * dE, "halfedge count");
  vf_assert((long)m.nFaces() == (long)a.nF + dF, "face count");
  vf_assert((long)m.nBoundaryLoops() == (long)a.nB + dB, "boundary loop count");
  vf_assert((long)m.nInteriorHalfedges() == (long)a.nI + dI, "interior halfedge count");
  vf_assert(!m.isCompressed(), "the mesh is marked as no longer compressed");
}
// nothing changes at an arbitrary used slot of each kind
static void same(AM& a, bool faces = true, size_t exceptV = NONE, size_t exceptF = NONE, size_t exceptE = NONE) {
  ManifoldSurfaceMesh& m = a.m();
  size_t v = anyIndex("anyV", a.V), h = anyIndex("anyH", a.H), f = anyIndex("anyF", a.C);
  if (v < a.V && v != exceptV) vf_assert(m.vHalfedgeArr[v] == a.vh[v], "other vertices keep their halfedge");
  if (h < a.H && (h >> 1) != exceptE) {
    vf_assert((m.heNextArr[h] == a.nx[h]) & (m.heVertexArr[h] == a.ve[h]), "other halfedges keep successor and tail");
    if (faces) vf_assert(m.heFaceArr[h] == a.fa[h], "other halfedges keep their face");
  }
  if (faces && f < a.C && (f < a.F || f >= a.C - a.B) && f != exceptF) vf_assert(m.fHalfedgeArr[f] == a.fh[f], "other faces and boundary loops keep their halfedge");
}
VF_CONTRACT(C03, newVertex) {
  AM& a = *anyMesh(false);
  Vertex v = a.m().getNewVertex();
  vf_assert(v.getIndex() == a.V, "the new vertex uses a fresh slot");
  vf_assert(a.m().nVerticesFillCount == a.V + 1, "one more slot is used");
  storageOk(a);
  counts(a, 1, 0, 0, 0, 0);
  same(a);
}
VF_CONTRACT(C03, newEdge) {
  AM& a = *anyMesh(false);
  bool b = vf_bool("onBoundary");
  Halfedge h = a.m().getNewEdgeTriple(b);
  vf_assert((h.getIndex() == a.H) & (h.edge().getIndex() == a.E), "the new halfedges and edge use fresh slots");
  vf_assert((a.m().nHalfedgesFillCount == a.H + 2) & (a.m().nEdgesFillCount == a.E + 1), "two halfedge slots and one edge slot are used");
  storageOk(a);
  counts(a, 0, 1, 0, 0, b ? 1 : 2);
  same(a);
}
static size_t grow(size_t c) { return vf_ite(c == 0, 1, 2 * c); }
// storage growth of faces moves the boundary loops to the new end
static size_t loopShift(void* c, size_t i, size_t j) { // the boundary loops, from the back
  AM& a = *(AM*)c;
  size_t N = grow(a.C);
  return vf_ite((j < N) & (j >= N - i), a.fh[j - (N - a.C)], vf_ite((j < a.C) & (j >= a.C - i), NONE, a.fh[j]));
}
static size_t faceShift(void* c, size_t i, size_t j) { // halfedges on boundary loops follow
  AM& a = *(AM*)c;
  return vf_ite((j < i) & (a.nx[j] != NONE) & (a.fa[j] >= a.F), a.fa[j] + (grow(a.C) - a.C), a.fa[j]);
}
static void grownFaces(AM& a) {
  ManifoldSurfaceMesh& m = a.m();
  if (m.nFacesCapacityCount == a.C) { same(a); return; }
  vf_reach("storage grows");
  vf_assert(m.nFacesCapacityCount == grow(a.C), "capacity doubles");
  same(a, false);
  size_t h = anyIndex("h2", a.H), f = anyIndex("f2", a.C);
  if (h < a.H && a.nx[h] != NONE) vf_assert(m.heFaceArr[h] == (a.fa[h] >= a.F ? a.fa[h] + (grow(a.C) - a.C) : a.fa[h]), "halfedges keep their face or boundary loop");
  if (f < a.F) vf_assert(m.fHalfedgeArr[f] == a.fh[f], "faces keep their halfedge");
  if (f < a.B) vf_assert(m.fHalfedgeArr[m.boundaryLoopIndToFaceInd(f)] == a.fh[a.C - 1 - f], "boundary loops keep their index and halfedge");
}
VF_CONTRACT(C03, newFace) {
  AM& a = *anyMesh(false);
  vf_loop_array("expandFaceStorage", "fhe", loopShift, &a);
  vf_loop_array("expandFaceStorage", "face", faceShift, &a);
  Face f = a.m().getNewFace();
  vf_assert(f.getIndex() == a.F, "the new face uses a fresh slot");
  vf_assert((a.m().nFacesFillCount == a.F + 1) & (a.m().nBoundaryLoopsFillCount == a.B), "one more face slot is used");
  storageOk(a);
  counts(a, 0, 0, 1, 0, 0);
  grownFaces(a);
}
VF_CONTRACT(C03, newBoundaryLoop) {
  AM& a = *anyMesh(false);
  vf_loop_array("expandFaceStorage", "fhe", loopShift, &a);
  vf_loop_array("expandFaceStorage", "face", faceShift, &a);
  a.m().getNewBoundaryLoop();
  vf_assert((a.m().nFacesFillCount == a.F) & (a.m().nBoundaryLoopsFillCount == a.B + 1), "one more boundary loop slot is used");
  storageOk(a);
  counts(a, 0, 0, 0, 1, 0);
  grownFaces(a);
}
VF_CONTRACT(C03, deleteVertex) {
  AM& a = *anyMesh(false);
  size_t v = anyVertex(a);
  vf_assume(a.nV > 0);
  a.m().deleteElement(a.m().vertex(v));
  vf_assert(a.m().vertexIsDead(v), "the vertex is dead");
  storageOk(a);
  counts(a, -1, 0, 0, 0, 0);
  same(a, true, v);
}
VF_CONTRACT(C03, deleteFace) {
  AM& a = *anyMesh(false);
  size_t f = anyFace(a);
  vf_assume(a.nF > 0);
  a.m().deleteElement(a.m().face(f));
  vf_assert(a.m().faceIsDead(f), "the face is dead");
  storageOk(a);
  counts(a, 0, 0, -1, 0, 0);
  same(a, true, NONE, f);
}
VF_CONTRACT(C03, deleteEdge) {
  AM& a = *anyMesh(false);
  size_t e = anyEdge(a);
  vf_assume((a.nE > 0) & (a.nx[2 * e + 1] != NONE));
  long in = (long)(a.fa[2 * e] < a.F) + (long)(a.fa[2 * e + 1] < a.F);
  vf_assume((long)a.nI >= in);
  a.m().deleteEdgeBundle(a.m().edge(e));
  vf_assert(a.m().halfedgeIsDead(2 * e) & a.m().halfedgeIsDead(2 * e + 1) & a.m().edgeIsDead(e), "the edge and its halfedges are dead");
  storageOk(a);
  counts(a, 0, -1, 0, 0, -in);
  same(a, true, NONE, NONE, e);
}
