#include "vf.h"
#ifdef VF_NATIVE
#include "meshops.h"
using namespace zoo;
#define OPS(X) X(flip, 0) X(insertVertexAlongEdge, 1) X(splitEdgeTriangular, 2) X(insertVertex, 3) X(connectVertices, 4) X(switchHalfedgeSides, 5) \
  X(triangulate, 6) X(removeEdge, 7) X(removeVertex, 8) X(removeFaceAlongBoundary, 9) X(separateEdge, 10) X(collapseEdgeTriangular, 11)
template <int OP, int MODE> void oneOp() {
  auto m = baseMesh();
  history(*m, 4);
  runOp(*m, OP, MODE);
}
#define B1(N, K) extern "C" void B_C01__##N() { oneOp<K, VALID>(); }
#define B2(N, K) extern "C" void B_C02__##N() { oneOp<K, EFFECT>(); }
#define B3(N, K) extern "C" void B_C03__##N() { oneOp<K, COUNTS>(); }
OPS(B1)
OPS(B2)
OPS(B3)
#endif
