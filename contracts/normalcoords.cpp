// C15: normal coordinates.  The curves in a triangle ijk are given by ghost counts: clip[v] arcs around each corner, at most one
// corner with arcs emanating through the opposite side, and arcs running along sides that nothing crosses.
#include "symmesh.h"
#include "geometrycentral/surface/normal_coordinates.h"
#ifdef VF_NATIVE
#include "meshops.h"
#endif
using namespace sm;
typedef long Z;
static const Z MANY = 1l << 26;

static Z mx(Z a, Z b) { return (Z)vf_ite(a < b, (size_t)b, (size_t)a); }
static Z mn(Z a, Z b) { return (Z)vf_ite(a < b, (size_t)a, (size_t)b); }
static Z pos(Z a) { return mx(a, 0); }
static Z count(const char* n) {
#ifdef VF_NATIVE
  return vf_long(n, 0, 6) * vf_long(n, 0, 1);
#else
  return vf_long(n, 0, MANY);
#endif
}
// triangle with corners 0, 1, 2; side v is opposite to corner v
struct Tri { Z clip[3], out[3], along[3]; };
static Z crossing(const Tri& t, int v) { return t.clip[(v + 1) % 3] + t.clip[(v + 2) % 3] + t.out[v]; }
static Z coord(const Tri& t, int v) { return crossing(t, v) - t.along[v]; }
static void nonCrossing(const Tri& t) {
  for (int v = 0; v < 3; v++) {
    int p = (v + 1) % 3, q = (v + 2) % 3;
    vf_assume(imp(t.out[v] > 0, (t.clip[v] == 0) & (t.out[p] == 0) & (t.out[q] == 0))); // they would cross
    vf_assume(imp(t.along[v] > 0, crossing(t, v) == 0));
  }
}
static Tri anyTri() {
  Tri t;
  t.clip[0] = count("clip i"); t.clip[1] = count("clip j"); t.clip[2] = count("clip k");
  t.out[0] = count("out of i"); t.out[1] = count("out of j"); t.out[2] = count("out of k");
  t.along[0] = count("along jk"); t.along[1] = count("along ki"); t.along[2] = count("along ij");
  nonCrossing(t);
  return t;
}
VF_CONTRACT(C15, corner) {
  Tri t = anyTri();
  int ij = (int)coord(t, 2), jk = (int)coord(t, 0), ki = (int)coord(t, 1);
  vf_assert((Z)strictDegree(ij, jk, ki) == t.out[2], "arcs leaving the corner");
  vf_assert((Z)strictCornerCoord(ij, jk, ki) == t.clip[2], "arcs clipping off the corner");
  vf_assert((cornerCoord(ij, jk, ki) > 0) == (t.clip[2] > 0), "positive where arcs clip off the corner");
  vf_reach("corner");
}
// two triangles ijk and jil at the edge ij
struct Quad { Tri up, lo; Z ij, jk, ki, il, lj; };
static Quad anyQuad() {
  Quad q;
  Z n = count("crossing ij"), u = count("clip i above"), v = count("not j above"), s = count("clip i below"), t = count("not j below"), m = count("along ij");
  vf_assume((u <= v) & (v <= n) & (s <= t) & (t <= n));
  vf_assume(imp(m > 0, n == 0));
  q.up.clip[0] = u; q.up.out[2] = v - u; q.up.clip[1] = n - v; // corners i, j, k
  q.lo.clip[0] = s; q.lo.out[2] = t - s; q.lo.clip[1] = n - t; // corners i, j, l
  q.up.clip[2] = count("clip k"); q.lo.clip[2] = count("clip l");
  q.up.out[0] = count("i to jk"); q.up.out[1] = count("j to ki"); q.lo.out[0] = count("i to lj"); q.lo.out[1] = count("j to il");
  q.up.along[2] = q.lo.along[2] = m;
  q.up.along[0] = count("along jk"); q.up.along[1] = count("along ki"); q.lo.along[0] = count("along lj"); q.lo.along[1] = count("along il");
  nonCrossing(q.up);
  nonCrossing(q.lo);
  q.ij = coord(q.up, 2); q.jk = coord(q.up, 0); q.ki = coord(q.up, 1); q.lj = coord(q.lo, 0); q.il = coord(q.lo, 1);
  return q;
}
// curves crossing the other diagonal kl, and curves running from k to l: the arcs crossing ij, in order from i, come from the corner
// i, then k, then j above, and go to the corner i, then l, then j below
static Z across(const Quad& q) {
  Z turned = pos(q.lo.clip[0] - q.up.clip[0] - q.up.out[2]) + pos(q.up.clip[0] - q.lo.clip[0] - q.lo.out[2]); // from one side to the other
  return q.up.clip[2] + q.lo.clip[2] + q.up.out[0] + q.up.out[1] + q.lo.out[0] + q.lo.out[1] + turned + q.up.along[2];
}
static Z direct(const Quad& q) {
  return pos(mn(q.up.clip[0] + q.up.out[2], q.lo.clip[0] + q.lo.out[2]) - mx(q.up.clip[0], q.lo.clip[0]));
}
static Z flipped(const Quad& q) { return across(q) - direct(q); }
VF_CONTRACT(C15, flipCoordinate) {
  Quad q = anyQuad();
  int kl = flipNormalCoordinates((int)q.ij, (int)q.jk, (int)q.ki, (int)q.il, (int)q.lj);
  vf_assert((across(q) == 0) | (direct(q) == 0), "curves along the new edge and across it exclude each other");
  vf_assert(kl == flipped(q), "the number of curves crossing the new edge, or minus the number along it");
  vf_reach("flip");
}
// the arcs leaving each vertex are the same before and after: along the edges and in the corners
VF_CONTRACT(C15, flipDegrees) {
  Quad q = anyQuad();
  Z kl = flipped(q), neg = mx(0, -kl);
  int ij = (int)q.ij, jk = (int)q.jk, ki = (int)q.ki, il = (int)q.il, lj = (int)q.lj, n = (int)kl;
  Z kAfter = (Z)strictDegree(il, ki, n) + neg + (Z)strictDegree(lj, n, jk); // corners ikl and lkj
  Z lAfter = (Z)strictDegree(jk, n, lj) + neg + (Z)strictDegree(ki, il, n);
  vf_assert(kAfter == q.up.out[2], "arcs leaving k");
  vf_assert(lAfter == q.lo.out[2], "arcs leaving l");
  vf_assert((Z)strictDegree(n, ki, il) == q.up.out[0] + q.up.along[2] + q.lo.out[0], "arcs leaving i");
  vf_assert((Z)strictDegree(n, lj, jk) == q.up.out[1] + q.up.along[2] + q.lo.out[1], "arcs leaving j");
  vf_reach("degrees");
}
VF_CONTRACT(C15, flipRoundabouts) {
  Quad q = anyQuad();
  Z kl = flipped(q);
  size_t dk = vf_size("dk", 0, MANY), dl = vf_size("dl", 0, MANY), rki = vf_size("rki", 0, MANY), rlj = vf_size("rlj", 0, MANY);
  std::pair<size_t, size_t> r = flipRoundabouts((int)q.ij, (int)q.jk, (int)q.ki, (int)q.il, (int)q.lj, (int)kl, rki, rlj, dk, dl);
  size_t a = rki + (size_t)q.up.along[1] + strictDegree((int)q.il, (int)q.ki, (int)kl);
  size_t b = rlj + (size_t)q.lo.along[0] + strictDegree((int)q.jk, (int)q.lj, (int)kl);
  vf_assert(imp(dk == 0, r.first == 0) & imp(dl == 0, r.second == 0), "no curves, no position");
  if (dk > 0) vf_assert(r.first == a % dk, "position of the new edge among the curves leaving k");
  if (dl > 0) vf_assert(r.second == b % dl, "position of the new edge among the curves leaving l");
  vf_reach("roundabouts");
}

// ------------------------------------------------------------------------------------------------ on a mesh
#ifdef VF_NATIVE
template <class E> static void anyInts(AM&, MeshData<E, int>& d, const char* n, size_t, long lo, long hi) {
  for (Eigen::Index i = 0; i < d.raw().rows(); i++) d.raw()[i] = (int)vf_long(n, lo, hi);
}
#else
template <class E> static void anyInts(AM& a, MeshData<E, int>& d, const char* n, size_t size, long, long) {
  auto* s = new std::vector<int>();
  vf_sym_ints(s, n, size);
  d.mesh = &a.m();
  d.data.m_storage.m_data = s->data();
  d.data.m_storage.m_rows = (long)size;
}
#endif
static NormalCoordinates& anyCoords(AM& a) {
#ifdef VF_NATIVE
  auto& c = *new NormalCoordinates(a.m());
#else
  auto& c = *(NormalCoordinates*)malloc(sizeof(NormalCoordinates));
  *(ManifoldSurfaceMesh**)&c = &a.m(); // NormalCoordinates::mesh
#endif
  anyInts(a, c.edgeCoords, "n", a.m().nEdgesCapacityCount, -2, 4);
  anyInts(a, c.roundabouts, "r", a.m().nHalfedgesCapacityCount, 0, 5);
  anyInts(a, c.roundaboutDegrees, "d", a.m().nVerticesCapacityCount, 0, 6);
  return c;
}
static Z n(NormalCoordinates& c, size_t h) { return c.edgeCoords.raw()[(long)(h / 2)]; }
static void tri(AM& a, size_t h) {
  vf_instantiate("next", h); vf_instantiate("next", a.nx[h]); vf_instantiate("next", a.nx[a.nx[h]]);
  vf_rewrite("next", a.nx[a.nx[h]], h);
}
#ifdef VF_NATIVE
static bool decode(const Z (&x)[3], Tri& t) { // the only collection with these coordinates, if there is one
  auto p = [&](int v) { return std::max(x[v % 3], 0l); };
  for (int v = 0; v < 3; v++) {
    t.out[v] = std::max(0l, p(v) - p(v + 1) - p(v + 2));
    t.along[v] = std::max(0l, -x[v]);
  }
  for (int v = 0; v < 3; v++) {
    Z s = p(v + 1) - t.out[(v + 1) % 3] + p(v + 2) - t.out[(v + 2) % 3] - p(v) + t.out[v];
    if (s % 2 != 0 && t.out[v] == 0) return false;
    t.clip[v] = t.out[v] > 0 ? 0 : s / 2;
    if (t.clip[v] < 0) return false;
  }
  return coord(t, 0) == x[0] && coord(t, 1) == x[1] && coord(t, 2) == x[2];
}
#endif
// the curves in the triangle of h = ij, which is next to jk, ki
static Tri curves(AM& a, NormalCoordinates& c, size_t h) {
  tri(a, h);
  size_t jk = a.nx[h], ki = a.nx[jk];
#ifdef VF_NATIVE
  Tri t;
  vf_assume(decode({n(c, jk), n(c, ki), n(c, h)}, t));
#else
  Tri t = anyTri();
  vf_assume((coord(t, 0) == n(c, jk)) & (coord(t, 1) == n(c, ki)) & (coord(t, 2) == n(c, h)));
#endif
  return t;
}
VF_CONTRACT(C15, cornerOfMesh) {
  AM& a = *anyTriMesh();
  NormalCoordinates& c = anyCoords(a);
  size_t h = anyHe(a, "h"); // a corner is named by the halfedge leaving it
  vf_assume(a.fa[h] < a.F);
  Tri t = curves(a, c, h);
  Corner k = a.m().corner(h);
  vf_assert((Z)c.strictDegree(k) == t.out[0], "arcs leaving the corner");
  vf_assert((Z)c.strictCornerCoord(k) == t.clip[0], "arcs clipping off the corner");
  vf_assert((c.cornerCoord(k) > 0) == (t.clip[0] > 0), "positive where arcs clip off the corner");
  vf_assert(c[k] == c.cornerCoord(k), "the same by index");
  vf_reach("corner");
}
VF_CONTRACT(C15, triangleInequality) {
  AM& a = *anyTriMesh();
  NormalCoordinates& c = anyCoords(a);
  size_t f = anyFace(a), h = a.fh[f];
  Tri t = curves(a, c, h);
  Halfedge w;
  bool r = c.triangleInequalityViolation(a.m().face(f), w);
  vf_assert(r == ((t.out[0] > 0) | (t.out[1] > 0) | (t.out[2] > 0)), "violated where arcs leave a corner through the opposite side");
  if (r) {
    size_t jk = a.nx[h], ki = a.nx[jk], g = w.getIndex();
    vf_assert(imp(t.out[0] > 0, g == jk) & imp(t.out[1] > 0, g == ki) & imp(t.out[2] > 0, g == h), "at that side");
    vf_reach("violated");
  } else vf_reach("no violation");
}
VF_CONTRACT(C15, step) {
  AM& a = *anyTriMesh();
  NormalCoordinates& c = anyCoords(a);
  size_t h = anyHe(a, "h"), ij = h ^ 1;
  vf_instantiate("next", ij);
  vf_assume(a.fa[ij] < a.F); // the triangle the curve enters
  Tri t = curves(a, c, ij);
  size_t jk = a.nx[ij], ki = a.nx[jk];
  Z m = crossing(t, 2), s = vf_long("index", 0, MANY);
  vf_assume(s < m);
  Halfedge he = a.m().halfedge(h);
  int i = (int)s;
  bool ends = c.stepTopologicalCurve(he, i);
  vf_assert(ends == ((s >= t.clip[1]) & (s < m - t.clip[0])), "the arcs of the opposite corner end there");
  if (ends) { vf_reach("end"); return; }
  size_t g = he.getIndex();
  Z across = crossing(t, g == jk ? 0 : 1);
  vf_assert((g == jk) | (g == ki), "leaves the triangle through another side");
  if (s < t.clip[1]) vf_assert((g == jk) & (i == s), "around the corner j, at the same distance from it");
  else vf_assert((g == ki) & (across - 1 - i == m - 1 - s), "around the corner i, at the same distance from it");
  vf_assert((0 <= i) & (i < across), "a crossing of that side");
  Halfedge back = a.m().halfedge(g ^ 1);
  int b = (int)(across - 1 - i);
  vf_assert(!c.stepTopologicalCurve(back, b), "walking back does not end");
  vf_assert((back.getIndex() == ij) & (b == m - 1 - s), "and returns to the same crossing");
  vf_reach("step");
}
static Quad quad(AM& a, NormalCoordinates& c, size_t e) { // an edge between two triangles
  size_t h = 2 * e, g = h + 1;
  vf_instantiate("next", h); vf_instantiate("next", g);
  vf_assume((a.fa[h] < a.F) & (a.fa[g] < a.F));
  Quad q;
  q.up = curves(a, c, h); // i, j, k
  Tri lo = curves(a, c, g); // j, i, l
  for (int v = 0; v < 3; v++) {
    int w = v == 2 ? 2 : 1 - v;
    q.lo.clip[w] = lo.clip[v]; q.lo.out[w] = lo.out[v]; q.lo.along[w] = lo.along[v];
  }
  q.ij = coord(q.up, 2); q.jk = coord(q.up, 0); q.ki = coord(q.up, 1); q.lj = coord(q.lo, 0); q.il = coord(q.lo, 1);
  return q;
}
#ifndef VF_NATIVE
static Quad given;
static int flipC(int ij, int jk, int ki, int il, int lj) { // contract of flipNormalCoordinates (C15__flipCoordinate)
  vf_assert((ij == given.ij) & (jk == given.jk) & (ki == given.ki) & (il == given.il) & (lj == given.lj), "the coordinates around the edge");
  return (int)flipped(given);
}
#endif
VF_CONTRACT(C15, flipData) {
  AM& a = *anyTriMesh();
  ManifoldSurfaceMesh& m = a.m();
  NormalCoordinates& c = anyCoords(a);
  size_t e = anyEdge(a), x = anyEdge(a, "another edge"), y = anyHe(a, "another halfedge");
  Quad q = quad(a, c, e);
  size_t h = 2 * e, g = h + 1, jk = a.nx[h], ki = a.nx[jk], il = a.nx[g], lj = a.nx[il];
  vf_assume((jk != g) & (ki != g)); // otherwise it cannot be flipped
#ifndef VF_NATIVE
  given = q;
  vf_replace("geometrycentral::surface::flipNormalCoordinates(", (void (*)()) & flipC, 0);
#endif
  size_t k = a.ve[ki], l = a.ve[lj];
  int rki = c.roundabouts.raw()[(long)ki], rlj = c.roundabouts.raw()[(long)lj], dk = c.roundaboutDegrees.raw()[(long)k], dl = c.roundaboutDegrees.raw()[(long)l];
  vf_assume((rki >= 0) & (rlj >= 0) & (dk >= 0) & (dl >= 0));
  int nx = c.edgeCoords.raw()[(long)x], ry = c.roundabouts.raw()[(long)y];
  std::tuple<int, size_t, size_t> data = c.computeFlippedData(m.edge(e));
  bool r = m.flip(m.edge(e), false);
  vf_assert(r, "an edge between two triangles flips");
  c.applyFlippedData(m.edge(e), data);
  Z kl = flipped(q);
  vf_assert(c.edgeCoords.raw()[(long)e] == kl, "coordinate of the flipped edge");
  vf_assert(imp(x != e, c.edgeCoords.raw()[(long)x] == nx) & imp(y / 2 != e, c.roundabouts.raw()[(long)y] == ry), "nothing else changes");
  // counterclockwise around k, the new side follows ki; around l, it follows lj
  size_t atK = m.heNextArr[m.heNextArr[ki]] ^ 1, atL = m.heNextArr[m.heNextArr[lj]] ^ 1;
  vf_assert((atK / 2 == e) & (atL / 2 == e) & (atK != atL), "the new sides");
  size_t p = (size_t)rki + (size_t)q.up.along[1] + strictDegree((int)q.il, (int)q.ki, (int)kl);
  size_t o = (size_t)rlj + (size_t)q.lo.along[0] + strictDegree((int)q.jk, (int)q.lj, (int)kl);
  vf_assert((size_t)c.roundabouts.raw()[(long)atK] == (dk == 0 ? 0 : p % (size_t)dk), "position among the curves leaving k");
  vf_assert((size_t)c.roundabouts.raw()[(long)atL] == (dl == 0 ? 0 : o % (size_t)dl), "position among the curves leaving l");
  vf_reach("flipped");
}
VF_CONTRACT(C15, splitData) {
  AM& a = *anyTriMesh();
  NormalCoordinates& c = anyCoords(a);
  size_t e = anyEdge(a);
  Quad q = quad(a, c, e);
  Z s = vf_long("segment", 0, MANY), m = crossing(q.up, 2);
  vf_assume(s <= m);
  std::array<int, 4> d = c.computeInteriorEdgeSplitDataCombinatorial(*(IntrinsicGeometryInterface*)&c, a.m().edge(e), (size_t)s);
  Z below = q.lo.clip[2] + q.lo.out[0] + q.lo.out[1] + pos(q.lo.clip[0] - s) + pos(q.lo.clip[1] - (m - s));
  Z above = q.up.clip[2] + q.up.out[0] + q.up.out[1] + pos(q.up.clip[0] - s) + pos(q.up.clip[1] - (m - s));
  vf_assert(d[0] == below, "curves between the new vertex and l");
  vf_assert(d[1] == m - s - q.up.along[2], "curves between the new vertex and j");
  vf_assert(d[2] == above, "curves between the new vertex and k");
  vf_assert(d[3] == s - q.up.along[2], "curves between the new vertex and i");
  vf_reach("split");
}
VF_CONTRACT(C15, roundabout) {
  AM& a = *anyTriMesh();
  NormalCoordinates& c = anyCoords(a);
  size_t h = anyHe(a, "h"), y = anyHe(a, "another halfedge"), v = a.ve[h];
  vf_instantiate("next", h ^ 1);
  int d = c.roundaboutDegrees.raw()[(long)v], ry = c.roundabouts.raw()[(long)y];
  vf_assume(d >= 0);
  Halfedge he = a.m().halfedge(h);
  if (a.fa[h] >= a.F) {
    c.setRoundaboutFromPrevRoundabout(he);
    vf_assert(c.roundabouts.raw()[(long)h] == d - 1, "the boundary is the last one");
    vf_reach("boundary");
  } else {
    vf_assume(a.fa[h ^ 1] < a.F);
    Tri t = curves(a, c, h ^ 1);
    size_t p = a.nx[h ^ 1];
    int r = c.roundabouts.raw()[(long)p];
    vf_assume(r >= 0);
    c.setRoundaboutFromPrevRoundabout(he);
    size_t s = (size_t)r + (size_t)t.along[0] + (size_t)t.out[1];
    vf_assert((size_t)c.roundabouts.raw()[(long)h] == (d == 0 ? 0 : s % (size_t)d), "after the curves along the previous side and in the corner between");
    vf_reach("interior");
  }
  vf_assert(imp(y != h, c.roundabouts.raw()[(long)y] == ry), "nothing else changes");
}
#ifdef VF_NATIVE
// bounded: the edges of a triangulation as curves on a triangulation reached from it by flips and splits
typedef std::multiset<std::pair<size_t, size_t>> Ends;
static Halfedge turn(Halfedge h) { return h.next().next().twin(); } // counterclockwise around the tail
static Ends allCurves(AM& a, NormalCoordinates& c) {
  ManifoldSurfaceMesh& m = a.m();
  std::vector<std::vector<int>> seen(m.nEdgesCapacity());
  for (Edge e : m.edges()) seen[e.getIndex()].assign((size_t)std::max(0, c.edgeCoords[e]), 0);
  Ends ends;
  std::vector<NormalCoordinatesCurve> all = c.topologicalTraceAllCurves();
  std::set<std::vector<std::pair<size_t, int>>> listed;
  for (auto& curve : all) {
    auto first = curve.crossings.front(), last = curve.crossings.back();
    size_t from, to;
    if (first.first < 0) {
      vf_assert(curve.crossings.size() == 1, "a curve along an edge");
      vf_assert(first.first == c.edgeCoords[first.second.edge()], "as many curves as run along the edge");
      from = first.second.tailVertex().getIndex(); to = first.second.tipVertex().getIndex();
      for (int i = 0; i < -first.first; i++) ends.insert(std::minmax(from, to));
      continue;
    }
    // a curve may be listed once from either end
    std::vector<std::pair<size_t, int>> word, reverse;
    for (auto& p : curve.crossings) word.push_back({p.second.getIndex(), p.first});
    for (auto& p : curve.crossings) reverse.push_back({p.second.twin().getIndex(), c.edgeCoords[p.second.edge()] - 1 - p.first});
    std::reverse(reverse.begin(), reverse.end());
    vf_assert(listed.insert(word).second, "no curve is listed twice");
    if (listed.count(reverse) && reverse != word) continue;
    for (auto& p : curve.crossings) {
      int n = c.edgeCoords[p.second.edge()];
      vf_assert(p.first >= 0 && p.first < n, "a crossing of the edge");
      seen[p.second.edge().getIndex()][(size_t)(p.second == p.second.edge().halfedge() ? p.first : n - 1 - p.first)]++;
    }
    // walking back from the last crossing visits the same crossings
    NormalCoordinatesCurve back = c.topologicalTrace(last.second.twin(), c.edgeCoords[last.second.edge()] - 1 - last.first);
    vf_assert(back.crossings.size() == curve.crossings.size(), "the same length in both directions");
    for (size_t i = 0; i < back.crossings.size(); i++) {
      auto p = curve.crossings[curve.crossings.size() - 1 - i], q = back.crossings[i];
      vf_assert(q.second == p.second.twin() && q.first == c.edgeCoords[p.second.edge()] - 1 - p.first, "the same crossings in both directions");
    }
    size_t mid = vf_size("middle", 0, curve.crossings.size() - 1);
    auto both = c.topologicalTraceBidirectional(curve.crossings[mid].second, curve.crossings[mid].first);
    vf_assert(std::get<0>(both).crossings == curve.crossings && (size_t)std::get<1>(both) == mid, "traced in both directions from the middle");
    from = first.second.next().next().vertex().getIndex();
    to = last.second.twin().next().next().vertex().getIndex();
    ends.insert(std::minmax(from, to));
  }
  for (auto& s : seen)
    for (int k : s) vf_assert(k == 1, "every crossing belongs to one curve");
  return ends;
}
static void consistent(AM& a, NormalCoordinates& c) {
  ManifoldSurfaceMesh& m = a.m();
  for (Halfedge h : m.interiorHalfedges()) {
    Tri t; // ij, jk, ki
    vf_assert(decode({c[h.next().edge()], c[h.next().next().edge()], c[h.edge()]}, t), "the coordinates belong to curves");
    // from h to the next halfedge counterclockwise, at the corner of h
    int d = c.roundaboutDegrees[h.vertex()];
    Halfedge g = turn(h);
    if (d > 0 && !(g.edge().isBoundary() && g.isInterior())) {
      int want = (c.roundabouts[h] + (int)t.along[2] + (int)t.out[0]) % d;
      vf_assert(c.roundabouts[g] == want, "positions count the curves leaving the vertex counterclockwise");
    }
  }
}
VF_BOUNDED(C15, flipsAndSplits) {
  AM* a = anyTriMesh();
  ManifoldSurfaceMesh& m = a->m();
  NormalCoordinates c(m);
  c.setCurvesFromEdges(m);
  Ends want;
  for (Edge e : m.edges()) {
    vf_assert(c[e] == -1, "one curve along every edge");
    want.insert(std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex()));
  }
  for (Vertex v : m.vertices()) vf_assert(c.roundaboutDegrees[v] == (int)v.degree(), "one curve leaves along every edge");
  consistent(*a, c);
  size_t N = vf_size("flips", 0, 12), splits = vf_size("splits", 0, 2);
  for (size_t i = 0; i < N; i++) {
    size_t e = anyEdge(*a);
    Edge E = m.edge(e);
    if (E.isBoundary()) continue;
    size_t h = 2 * e, g = h + 1;
    if (a->nx[h] == g || a->nx[g] == h) continue;
    Quad q = quad(*a, c, e);
    auto data = c.computeFlippedData(E);
    vf_assert(m.flip(E, false), "an edge between two triangles flips");
    c.applyFlippedData(E, data);
    record(a);
    vf_assert(c[E] == flipped(q), "the number of curves crossing the new edge, or minus the number along it");
    consistent(*a, c);
    vf_assert(allCurves(*a, c) == want, "the same curves");
    vf_reach("flipped");
  }
  for (size_t i = 0; i < splits; i++) {
    size_t e = anyEdge(*a);
    Edge E = m.edge(e);
    if (E.isBoundary()) continue;
    if (E.halfedge().face() == E.halfedge().twin().face()) continue;
    int n = std::max(0, c[E]);
    if (c[E] < 0) for (int k = 0; k < -c[E]; k++) { // the curves along the edge are cut in two
      size_t s = E.firstVertex().getIndex(), t = E.secondVertex().getIndex();
      want.erase(want.find(std::minmax(s, t)));
    }
    int seg = (int)vf_size("segment", 0, (size_t)n), along = std::max(0, -c[E]);
    size_t tail = E.halfedge().tailVertex().getIndex(), tip = E.halfedge().tipVertex().getIndex();
    auto d = c.computeInteriorEdgeSplitDataCombinatorial(*(IntrinsicGeometryInterface*)nullptr, E, (size_t)seg);
    Halfedge x = m.splitEdgeTriangular(E);
    size_t v = x.vertex().getIndex();
    for (int k = 0; k < along; k++) { want.insert(std::minmax(tail, v)); want.insert(std::minmax(v, tip)); }
    Halfedge y = x;
    for (size_t k = 1; k < 5; k++, y = turn(y)) c[y.edge()] = d[k % 4];
    vf_assert(y == x, "four edges at the new vertex");
    record(a);
    for (Halfedge h : m.interiorHalfedges()) {
      Tri t;
      vf_assert(decode({c[h.next().edge()], c[h.next().next().edge()], c[h.edge()]}, t), "the coordinates belong to curves after the split");
    }
    vf_assert(allCurves(*a, c) == want, "the same curves after the split");
    vf_reach("split");
  }
  vf_reach("done");
}
#endif
