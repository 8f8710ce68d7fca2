// C03 on point clouds: creation and deletion of points, for arbitrary liveness patterns, sizes and spare capacity.
#include "geometrycentral/pointcloud/point_cloud.h"
#include "vf.h"
using namespace geometrycentral;
using namespace geometrycentral::pointcloud;
struct AC {
  PointCloud* c;
  std::vector<char> va;
  size_t N, F, C;
};
#ifdef VF_NATIVE
static AC* anyCloud() {
  AC* a = new AC();
  a->c = new PointCloud(vf_size("points", 0, 5));
  size_t k = vf_size("edits", 0, 6);
  for (size_t i = 0; i < k; i++) {
    size_t j = vf_size("which", 0, 9);
    if (j < a->c->nPointsFillCount && a->c->pointValid[j]) a->c->deleteElement(Point(a->c, j));
    else if (j == 9) a->c->compress();
    else a->c->getNewPoint();
  }
  a->N = a->c->nPointsCount; a->F = a->c->nPointsFillCount; a->C = a->c->nPointsCapacityCount;
  a->va = a->c->pointValid;
  return a;
}
static size_t idx(const char* n, size_t m) { return vf_size(n, 0, m); }
#else
static AC* anyCloud() {
  AC* a = new AC();
  a->c = new PointCloud(0);
  const size_t BIG = 1ul << 40;
  a->N = vf_size("count", 0, BIG); a->F = vf_size("fill", 0, BIG); a->C = vf_size("capacity", 0, BIG);
  vf_assume((a->N <= a->F) & (a->F <= a->C));
  vf_sym_chars(&a->c->pointValid, "valid", a->C);
  vf_old_chars(&a->va, "valid");
  a->c->nPointsCount = a->N; a->c->nPointsFillCount = a->F; a->c->nPointsCapacityCount = a->C;
  a->c->isCompressedFlag = vf_bool("compressed");
  return a;
}
static size_t idx(const char* n, size_t) { return vf_size(n, 0, 1ul << 42); }
#endif
static void storageOk(AC& a) {
  PointCloud& c = *a.c;
  vf_assert((c.nPointsCount <= c.nPointsFillCount) & (c.nPointsFillCount <= c.nPointsCapacityCount) & (c.pointValid.size() == c.nPointsCapacityCount), "points fit their storage");
}
static size_t deadTail(void* cx, size_t i, size_t j) { // new slots are marked dead one by one
  AC& a = *(AC*)cx;
  return vf_ite((j >= a.C) & (j < a.C + i), 0, a.va[j]);
}
VF_CONTRACT(C03, newPoint) {
  AC& a = *anyCloud();
  vf_loop_array("getNewPoint", "valid", deadTail, &a);
  Point p = a.c->getNewPoint();
  vf_assert(p.getIndex() == a.F, "the new point uses a fresh slot");
  vf_assert((a.c->nPointsFillCount == a.F + 1) & (a.c->nPoints() == a.N + 1), "one more point, one more slot");
  storageOk(a);
  vf_assert(!a.c->pointIsDead(a.F), "the new point is live");
  vf_assert(!a.c->isCompressed(), "the cloud is marked as no longer compressed");
  size_t x = idx("x", a.C + 3);
  if (x < a.F) vf_assert(a.c->pointIsDead(x) == !a.va[x], "other points stay live or dead");
  if (x >= a.C && x < a.c->nPointsCapacityCount && x != a.F) vf_assert(a.c->pointIsDead(x), "new spare slots are dead");
}
VF_CONTRACT(C03, deletePoint) {
  AC& a = *anyCloud();
  size_t p = idx("p", a.F);
  vf_assume(p < a.F);
  vf_assume(a.va[p]);
  vf_assume(a.N > 0);
  a.c->deleteElement(Point(a.c, p));
  vf_assert(a.c->pointIsDead(p), "the point is dead");
  vf_assert((a.c->nPointsFillCount == a.F) & (a.c->nPoints() == a.N - 1), "one point less, same slots");
  storageOk(a);
  vf_assert(!a.c->isCompressed(), "the cloud is marked as no longer compressed");
  size_t x = idx("x", a.F);
  if (x < a.F && x != p) vf_assert(a.c->pointIsDead(x) == !a.va[x], "other points stay live or dead");
}
