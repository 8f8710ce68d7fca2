// C06: navigation operators, predicates, iterators, for every valid manifold mesh (see symmesh.h).
#include "rings.h"
using namespace sm;
static bool liveKeep(void* c, size_t v, size_t) { AM& a = *(AM*)c; return (v < a.H) & (a.nx[v] != NONE); }

// ------------------------------------------------------------------------------------------------ operators
VF_CONTRACT(C06, halfedge) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t i = anyHe(a);
  Halfedge h = m.halfedge(i);
  vf_assert((h.getIndex() == i) & (h.getMesh() == &m) & !h.isDead(), "a live handle");
  vf_assert((h.twin() == m.halfedge(a.tw(i))) & (h.sibling() == h.twin()) & (h.twin() != h) & (h.twin().twin() == h), "twin is a fixed-point free involution, and the sibling");
  vf_assert(!h.twin().isDead() & !h.next().isDead(), "twin and successor are live");
  vf_assert((h.next().getIndex() == a.nx[i]) & (h.next().getMesh() == &m), "successor");
  vf_assert((h.vertex().getIndex() == a.ve[i]) & (h.tailVertex() == h.vertex()) & (h.tipVertex() == h.twin().vertex()) & (h.next().vertex() == h.tipVertex()), "tail and tip");
  vf_assert(!h.vertex().isDead() & !h.edge().isDead() & !h.face().isDead(), "incident elements are live");
  vf_assert((h.edge() == h.twin().edge()) & ((h.edge().halfedge() == h) | (h.edge().halfedge() == h.twin())), "the edge holds exactly the halfedge and its twin");
  vf_assert((h.face().getIndex() == a.fa[i]) & (h.next().face() == h.face()), "the face is shared with the successor");
  vf_assert((h.corner().halfedge() == h) & (h.corner().vertex() == h.vertex()) & (h.corner().face() == h.face()) & !h.corner().isDead(), "corner of the halfedge");
  vf_assert(h.nextOutgoingNeighbor() == h.twin().next(), "next outgoing neighbour");
  vf_assert((h.nextOutgoingNeighbor().vertex() == h.vertex()), "next outgoing neighbour leaves the same vertex");
  vf_assert((h.nextIncomingNeighbor() == h.next().twin()) & (h.nextIncomingNeighbor().tipVertex() == h.tipVertex()), "next incoming neighbour enters the same vertex");
  vf_assert(h.isInterior() == (a.fa[i] < a.F), "interior means on a face");
  vf_assert(h.isInterior() == !h.face().isBoundaryLoop(), "exterior means on a boundary loop");
  vf_assert(h.isInterior() | h.twin().isInterior(), "an edge has an interior side");
  vf_assert(h.orientation() == (h.edge().halfedge() == h), "orientation is relative to the edge");
  vf_assert(h.orientation() != h.twin().orientation(), "the sides of an edge have opposite orientation");
}
VF_CONTRACT(C06, prev) {
  AM& a = *anyMesh();
  size_t i = anyHe(a), x = anyHe(a, "x");
  vf_loop_keep("prevOrbitFace", liveKeep, &a);
  vf_loop_keep("prevOrbitVertex", liveKeep, &a);
  Halfedge h = a.m().halfedge(i);
  Halfedge p = h.prevOrbitFace(), q = h.prevOrbitVertex();
  vf_assert((p.getIndex() < a.H) & (q.getIndex() < a.H), "a halfedge");
  vf_assert(!p.isDead() & (p.next() == h), "the predecessor's successor is the halfedge");
  vf_assert(p.face() == h.face(), "the predecessor is on the same face");
  vf_assert((q == p) & (q.tipVertex() == h.vertex()), "both predecessors agree");
  vf_assert(imp(a.nx[x] == i, p.getIndex() == x), "the predecessor is unique");
}
VF_CONTRACT(C06, vertex) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t i = anyHe(a), vi = anyVertex(a);
  Vertex v = m.vertex(vi);
  Halfedge h = m.halfedge(i);
  vf_assert(!v.isDead() & !v.halfedge().isDead() & (v.halfedge().vertex() == v), "a vertex stores an outgoing halfedge");
  vf_assert(v.corner().halfedge() == v.halfedge(), "corner of a vertex");
  vf_assert(imp(v.isBoundary(), v.halfedge().isInterior()), "loops around a boundary vertex start at an interior halfedge");
  vf_assert(imp(v.isBoundary(), !v.halfedge().twin().isInterior()), "a boundary vertex has a boundary edge");
  vf_assert(imp((h.vertex() == v) & (!h.isInterior() | !h.twin().isInterior()), v.isBoundary() | !h.twin().isInterior()), "an exterior outgoing halfedge makes a vertex boundary");
  vf_assert(imp((h.vertex() == v) & !h.isInterior(), v.isBoundary()), "a vertex with an exterior halfedge is on the boundary");
  vf_assert(imp((h.tipVertex() == v) & !h.isInterior(), h.nextIncomingNeighbor().twin().vertex() == v), "exterior halfedges enter boundary vertices");
  vf_assert(imp((h.tipVertex() == v) & !h.isInterior(), !h.next().isInterior() & (h.next().vertex() == v)), "a boundary loop goes on");
  vf_assert(imp((h.tipVertex() == v) & !h.isInterior(), v.isBoundary()), "a vertex entered by an exterior halfedge is on the boundary");
  vf_assert(v.isManifold() & v.isManifoldAndOriented(), "every vertex of a manifold mesh is manifold");
}
VF_CONTRACT(C06, edge) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t ei = anyEdge(a), vi = anyVertex(a);
  Edge e = m.edge(ei);
  Halfedge h = e.halfedge();
  vf_assert(!e.isDead() & !h.isDead() & (h.edge() == e), "an edge stores a halfedge of its own");
  vf_assert(h.isInterior(), "an edge stores an interior halfedge");
  vf_assert((e.firstVertex() == h.tailVertex()) & (e.secondVertex() == h.tipVertex()), "end points");
  vf_assert((e.adjacentVertices()[0] == e.firstVertex()) & (e.adjacentVertices()[1] == e.secondVertex()), "both end points");
  vf_assert((e.otherVertex(e.firstVertex()) == e.secondVertex()) & (e.otherVertex(e.secondVertex()) == e.firstVertex()), "the other end point");
  vf_assert(e.isBoundary() == (!h.isInterior() | !h.twin().isInterior()), "boundary edges have an exterior side");
  vf_assert(imp(e.isBoundary(), !h.twin().next().isInterior()), "the boundary loop goes on");
  vf_assert(imp(e.isBoundary(), e.firstVertex().isBoundary() & e.secondVertex().isBoundary()), "end points of a boundary edge are on the boundary");
  vf_assert(e.isManifold() & e.isOriented(), "every edge of a manifold mesh is manifold and oriented");
}
VF_CONTRACT(C06, diamond) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t e = anyEdge(a), h = 2 * e, t = 2 * e + 1;
  bool ok = (a.fa[t] < a.F) & (a.nx[a.nx[a.nx[h]]] == h) & (a.nx[a.nx[a.nx[t]]] == t);
  bool threw = false;
  std::array<Halfedge, 4> d;
  try {
    d = m.edge(e).diamondBoundary();
  } catch (...) {
    threw = true;
  }
  vf_assert(threw == !ok, "refused exactly unless both sides are triangles");
  if (threw) return;
  vf_assert((d[0].getIndex() == a.nx[h]) & (d[1].getIndex() == a.nx[a.nx[h]]) & (d[2].getIndex() == a.nx[t]) & (d[3].getIndex() == a.nx[a.nx[t]]), "the four sides around the edge, in order");
  vf_reach("diamond");
}
VF_CONTRACT(C06, face) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
  size_t fi = anyFace(a);
  Face f = m.face(fi);
  Halfedge h = f.halfedge();
  vf_assert(!f.isDead() & !h.isDead() & (h.face() == f) & h.isInterior(), "a face stores a halfedge of its own");
  vf_assert(!f.isBoundaryLoop(), "a face is no boundary loop");
  vf_assert(f.isTriangle() == (a.nx[a.nx[a.nx[h.getIndex()]]] == h.getIndex()), "triangles have three sides");
  bool threw = false;
  try {
    f.asBoundaryLoop();
  } catch (...) {
    threw = true;
  }
  vf_assert(threw, "a face cannot be seen as a boundary loop");
}
VF_CONTRACT(C06, boundaryLoop) {
  AM& a = *anyMesh();
  ManifoldSurfaceMesh& m = a.m();
#ifdef VF_NATIVE
  vf_assume(a.B > 0);
  size_t b = vf_size("b", 0, a.B - 1);
#else
  size_t b = vf_size("b", 0, 1ul << 40);
#endif
  vf_assume(b < a.B);
  BoundaryLoop l = m.boundaryLoop(b);
  vf_assert(l.isDead() == (a.fh[a.C - 1 - b] == NONE), "dead boundary loops have no halfedge");
  vf_assume(!l.isDead());
  Halfedge h = l.halfedge();
  vf_assert(!h.isDead() & !h.isInterior() & (h.face() == l.asFace()), "a boundary loop stores an exterior halfedge of its own");
  vf_assert(l.asFace().isBoundaryLoop(), "a boundary loop as a face");
  vf_assert(l.asFace().asBoundaryLoop() == l, "to a face and back");
  vf_assert(l.asFace().getIndex() >= a.F, "boundary loops and faces are distinct");
  vf_assert(h.edge().isBoundary() & h.vertex().isBoundary(), "its edges and vertices are on the boundary");
}

// ------------------------------------------------------------------------------------------------ ranges
// An element range: begin is the first element in the range, ++ goes to the next one, end follows the last.
struct Skip { AM* a; size_t k; bool (*ok)(AM&, size_t); };
static bool notPassed(void* c, size_t v, size_t entry) { Skip& s = *(Skip*)c; return !((s.k >= entry) & (s.k < v) & s.ok(*s.a, s.k)); }
template <class F> static void range(bool (*ok)(AM&, size_t), size_t (*fill)(AM&), RangeSetBase<F> (*get)(ManifoldSurfaceMesh&)) {
  AM& a = *anyMesh();
  size_t n = fill(a);
  size_t s = anyIndex("start", n), k = anyIndex("k", n);
  vf_assume((s < n) & (k < n));
  Skip sk{&a, k, ok};
  vf_loop_keep("RangeIteratorBase", notPassed, &sk);
  RangeSetBase<F> r = get(a.m());
  vf_assert((r.iStart == 0) & (r.iEnd == n) & (r.mesh == &a.m()), "the range covers every slot in use");
  RangeIteratorBase<F> b = r.begin(), e = r.end();
  vf_assert(e.iCurr == n, "the end");
  vf_assert(b.iCurr <= n, "the begin is inside");
  if (b.iCurr < n) vf_assert(ok(a, b.iCurr), "the range begins at an element of the range, or is empty");
  vf_assert(imp(ok(a, k), k >= b.iCurr), "no element precedes the begin");
  vf_assert((b != e) == (b.iCurr != n), "at the end exactly when all slots are passed");
  RangeIteratorBase<F> it(&a.m(), s, n);
  it.iCurr = s;
  ++it;
  vf_assert((it.iCurr > s) & (it.iCurr <= n), "advances");
  if (it.iCurr < n) vf_assert(ok(a, it.iCurr), "visits only elements of the range");
  vf_assert(imp((k > s) & ok(a, k), k >= it.iCurr), "skips no element of the range");
  vf_assert((it != e) == (it.iCurr != n), "at the end exactly when all slots are passed");
  vf_assert(((*it).getIndex() == it.iCurr) & ((*it).getMesh() == &a.m()), "yields the element");
}
static size_t nH(AM& a) { return a.H; }
static size_t nV(AM& a) { return a.V; }
static size_t nE(AM& a) { return a.E; }
static size_t nF(AM& a) { return a.F; }
static size_t nB(AM& a) { return a.B; }
static bool okV(AM& a, size_t i) { return a.vh[i] != NONE; }
static bool okH(AM& a, size_t i) { return a.nx[i] != NONE; }
static bool okI(AM& a, size_t i) { return (a.nx[i] != NONE) & (a.fa[i] < a.F); }
static bool okX(AM& a, size_t i) { return (a.nx[i] != NONE) & (a.fa[i] >= a.F); }
static bool okE(AM& a, size_t i) { return a.nx[2 * i] != NONE; }
static bool okF(AM& a, size_t i) { return a.fh[i] != NONE; }
static bool okB(AM& a, size_t i) { return a.fh[a.C - 1 - i] != NONE; }
VF_CONTRACT(C06, range_vertices) { range<VertexRangeF>(okV, nV, [](ManifoldSurfaceMesh& m) { return m.vertices(); }); }
VF_CONTRACT(C06, range_halfedges) { range<HalfedgeRangeF>(okH, nH, [](ManifoldSurfaceMesh& m) { return m.halfedges(); }); }
VF_CONTRACT(C06, range_interior) { range<HalfedgeInteriorRangeF>(okI, nH, [](ManifoldSurfaceMesh& m) { return m.interiorHalfedges(); }); }
VF_CONTRACT(C06, range_exterior) { range<HalfedgeExteriorRangeF>(okX, nH, [](ManifoldSurfaceMesh& m) { return m.exteriorHalfedges(); }); }
VF_CONTRACT(C06, range_corners) { range<CornerRangeF>(okI, nH, [](ManifoldSurfaceMesh& m) { return m.corners(); }); }
VF_CONTRACT(C06, range_edges) { range<EdgeRangeF>(okE, nE, [](ManifoldSurfaceMesh& m) { return m.edges(); }); }
VF_CONTRACT(C06, range_faces) { range<FaceRangeF>(okF, nF, [](ManifoldSurfaceMesh& m) { return m.faces(); }); }
VF_CONTRACT(C06, range_loops) { range<BoundaryLoopRangeF>(okB, nB, [](ManifoldSurfaceMesh& m) { return m.boundaryLoops(); }); }

// ------------------------------------------------------------------------------------------------ loops around an element
// ++ goes to the next incident element, skipping none (k: an arbitrary halfedge on the same cycle)
struct Around { AM* a; Ring* r; size_t h, k; };
static bool faceSkip(void* c, size_t v, size_t) {
  Around& s = *(Around*)c;
  AM& a = *s.a;
  return (v < a.H) & (a.nx[v] != NONE) & (a.ve[v] == a.ve[s.h]) & ((a.fa[s.k] >= a.F) | (s.k == s.h) | ((s.r->rel(s.h, s.k) >= s.r->rel(s.h, v)) & (v != s.h)));
}
template <class N> static void aroundVertexInterior() {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a), k = anyHe(a, "k");
  vf_assume((a.ve[k] == a.ve[h]) & (a.fa[h] < a.F));
  Around s{&a, &r, h, k};
  vf_instantiate("pos", h);
  vf_instantiate("pos", k);
  vf_loop_keep("NavigationIteratorBase", faceSkip, &s);
  NavigationIteratorBase<N> it(a.m().halfedge(h), true), end(a.m().halfedge(h), false);
  vf_assert((it.state.currE.getIndex() == h) & (it != end), "starts at the given element");
  ++it;
  size_t x = it.state.currE.getIndex();
  vf_assert((x < a.H) & (a.nx[x] != NONE), "a live halfedge");
  vf_assert((a.ve[x] == a.ve[h]) & (a.fa[x] < a.F), "visits only incident elements");
  vf_assert((it == end) == (x == h), "ends exactly when it is back at the start");
  vf_assert(imp((a.fa[k] < a.F) & (k != h) & (x != h), r.rel(h, k) >= r.rel(h, x)), "skips no incident element");
  vf_assert(imp((a.fa[k] < a.F) & (x == h), k == h), "is back at the start only after all incident elements");
  vf_assert((*it).getIndex() == (std::is_same<N, VertexAdjacentFaceNavigator>::value ? a.fa[x] : x), "yields the element");
}
VF_CONTRACT(C06, vertexFaces) { aroundVertexInterior<VertexAdjacentFaceNavigator>(); }
VF_CONTRACT(C06, vertexCorners) { aroundVertexInterior<VertexAdjacentCornerNavigator>(); }

// loops that visit every halfedge of a cycle
static void step(AM& a, Ring& r, size_t h, size_t x, bool atEnd, bool byVertex) {
  vf_assert((x < a.H) & (a.nx[x] != NONE), "a live halfedge");
  vf_assert(atEnd == (x == h), "ends exactly when it is back at the start");
  if (byVertex) {
    vf_assert(a.ve[x] == a.ve[h], "visits only incident elements");
    vf_assert(r.rel(h, x) == (r.deg[a.ve[h]] == 1 ? 0 : 1), "goes to the next one");
  } else {
    vf_assert(a.fa[x] == a.fa[h], "visits only incident elements");
    vf_assert(r.frel(h, x) == (r.fdeg[a.fa[h]] == 1 ? 0 : 1), "goes to the next one");
  }
}
template <class N, class G> static void aroundAll(bool byVertex, G yields) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a);
  NavigationIteratorBase<N> it(a.m().halfedge(h), true), end(a.m().halfedge(h), false);
  vf_assert((it.state.currE.getIndex() == h) & (it != end), "starts at the given element");
  ++it;
  size_t x = it.state.currE.getIndex();
  step(a, r, h, x, it == end, byVertex);
  vf_assert((*it).getIndex() == yields(a, x), "yields the element");
}
VF_CONTRACT(C06, vertexOutgoing) { aroundAll<VertexOutgoingHalfedgeNavigator>(true, [](AM&, size_t x) { return x; }); }
VF_CONTRACT(C06, faceHalfedges) { aroundAll<FaceAdjacentHalfedgeNavigator>(false, [](AM&, size_t x) { return x; }); }
VF_CONTRACT(C06, faceVertices) { aroundAll<FaceAdjacentVertexNavigator>(false, [](AM& a, size_t x) { return a.ve[x]; }); }
VF_CONTRACT(C06, faceEdges) { aroundAll<FaceAdjacentEdgeNavigator>(false, [](AM&, size_t x) { return x >> 1; }); }
VF_CONTRACT(C06, faceCorners) { aroundAll<FaceAdjacentCornerNavigator>(false, [](AM&, size_t x) { return x; }); }
VF_CONTRACT(C06, loopHalfedges) { aroundAll<BoundaryLoopAdjacentHalfedgeNavigator>(false, [](AM&, size_t x) { return x; }); }
VF_CONTRACT(C06, loopVertices) { aroundAll<BoundaryLoopAdjacentVertexNavigator>(false, [](AM& a, size_t x) { return a.ve[x]; }); }
VF_CONTRACT(C06, loopEdges) { aroundAll<BoundaryLoopAdjacentEdgeNavigator>(false, [](AM&, size_t x) { return x >> 1; }); }
VF_CONTRACT(C06, vertexIncoming) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a);
  NavigationIteratorBase<VertexIncomingHalfedgeNavigator> it(a.m().halfedge(h), true), end(a.m().halfedge(h), false);
  ++it;
  size_t x = it.state.currE.getIndex();
  vf_assert((x < a.H) & (a.nx[x] != NONE) & (a.ve[a.nx[x]] == a.ve[a.nx[h]]), "visits only incoming halfedges");
  vf_assert((it == end) == (x == h), "ends exactly when it is back at the start");
  size_t o = x ^ 1, i = h ^ 1; // the twins leave the vertex
  vf_assert(r.rel(o, i) == (r.deg[a.ve[i]] == 1 ? 0 : 1) | r.rel(i, o) == (r.deg[a.ve[i]] == 1 ? 0 : 1), "goes to the next one");
  vf_assert((*it).getIndex() == x, "yields the element");
}
template <class N, class G> static void aroundState(G yields) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a);
  VertexNeighborIteratorState s0(a.m().halfedge(h), true);
  NavigationIteratorBase<N> it(s0, true), end(s0, false);
  vf_assert((it.state.currE.currHe.getIndex() == h) & (it != end), "starts at the given element");
  ++it;
  size_t x = it.state.currE.currHe.getIndex();
  step(a, r, h, x, it == end, true);
  vf_assert((*it).getIndex() == yields(a, x), "yields the element");
}
VF_CONTRACT(C06, vertexEdges) { aroundState<VertexAdjacentEdgeNavigator>([](AM&, size_t x) { return x >> 1; }); }
VF_CONTRACT(C06, vertexVertices) { aroundState<VertexAdjacentVertexNavigator>([](AM& a, size_t x) { return a.ve[x ^ 1]; }); }
// the sides of an edge
VF_CONTRACT(C06, edgeHalfedges) {
  AM& a = *anyMesh();
  size_t h = anyHe(a);
  NavigationIteratorBase<EdgeAdjacentHalfedgeNavigator> it(a.m().halfedge(h), true), end(a.m().halfedge(h), false);
  vf_assert(((*it).getIndex() == h) & (it != end), "starts at the given side");
  ++it;
  vf_assert(((*it).getIndex() == (h ^ 1)) & (it != end), "then the other side");
  ++it;
  vf_assert(it == end, "then the end");
}
template <class N> static void edgeInterior(bool face) {
  AM& a = *anyMesh();
  size_t h = anyHe(a);
  vf_assume(a.fa[h] < a.F);
  size_t t = h ^ 1;
  NavigationIteratorBase<N> it(a.m().halfedge(h), true), end(a.m().halfedge(h), false);
  vf_assert(((*it).getIndex() == (face ? a.fa[h] : h)) & (it != end), "starts at the given side");
  ++it;
  if (a.fa[t] < a.F) {
    vf_assert(((*it).getIndex() == (face ? a.fa[t] : t)) & (it != end), "then the other interior side");
    ++it;
  }
  vf_assert(it == end, "then the end");
}
VF_CONTRACT(C06, edgeInteriorHalfedges) { edgeInterior<EdgeAdjacentInteriorHalfedgeNavigator>(false); }
VF_CONTRACT(C06, edgeFaces) { edgeInterior<EdgeAdjacentFaceNavigator>(true); }

// the faces around a face, one per side with a face beyond it
struct Sides { AM* a; Ring* r; size_t h, k; NavigationIteratorBase<FaceAdjacentFaceNavigator>* it; };
static bool sideInv(void* c) {
  Sides& s = *(Sides*)c;
  AM& a = *s.a;
  size_t x = s.it->state.currE.first.ind, y = s.it->state.currE.second.ind;
  return (x < a.H) & (a.nx[x] != NONE) & (a.fa[x] == a.fa[s.h]) & ((y == x) | (y == (x ^ 1))) & ((a.fa[s.k ^ 1] >= a.F) | (s.k == s.h) | ((s.r->frel(s.h, s.k) >= s.r->frel(s.h, x)) & (x != s.h)));
}
VF_CONTRACT(C06, faceFaces) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a), k = anyHe(a, "k");
  vf_assume((a.fa[k] == a.fa[h]) & (a.fa[h] < a.F) & (a.fa[h ^ 1] < a.F));
  Halfedge hh = a.m().halfedge(h);
  NavigationIteratorBase<FaceAdjacentFaceNavigator> it(std::make_pair(hh, hh), true), end(std::make_pair(hh, hh), false);
  vf_assert((it.state.currE.first == hh) & (it.state.currE.second == hh.twin()) & (it != end), "starts across the given side");
  vf_assert((*it).getIndex() == a.fa[h ^ 1], "yields the face across");
  Sides s{&a, &r, h, k, &it};
  vf_instantiate("fpos", h);
  vf_instantiate("fpos", k);
  vf_loop_inv("NavigationIteratorBase", sideInv, &s);
  ++it;
  size_t x = it.state.currE.first.getIndex();
  vf_assert((x < a.H) & (a.nx[x] != NONE) & (a.fa[x] == a.fa[h]), "stays on the face");
  vf_assert((it.state.currE.second.getIndex() == (x ^ 1)) & (a.fa[x ^ 1] < a.F), "visits only faces");
  vf_assert((it == end) == (x == h), "ends exactly when it is back at the start");
  vf_assert(imp((a.fa[k ^ 1] < a.F) & (k != h) & (x != h), r.frel(h, k) >= r.frel(h, x)), "skips no side with a face beyond it");
  vf_assert(imp((a.fa[k ^ 1] < a.F) & (x == h), k == h), "is back at the start only after all sides");
  vf_assert((*it).getIndex() == a.fa[x ^ 1], "yields the face across");
}

static bool beginInv(void* c) {
  Sides& s = *(Sides*)c;
  AM& a = *s.a;
  size_t x = s.it->state.currE.first.ind, y = s.it->state.currE.second.ind;
  return (x < a.H) & (a.nx[x] != NONE) & (a.fa[x] == a.fa[s.h]) & ((y == x) | (y == (x ^ 1))) & ((a.fa[s.k ^ 1] >= a.F) | (s.r->frel(s.h, s.k) >= s.r->frel(s.h, x)));
}
VF_CONTRACT(C06, faceFacesBegin) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t h = anyHe(a), k = anyHe(a, "k");
  vf_assume((a.fa[k] == a.fa[h]) & (a.fa[h] < a.F));
  std::pair<Halfedge, Halfedge> p = std::make_pair(a.m().halfedge(h), a.m().halfedge(h));
  typedef NavigationIteratorBase<FaceAdjacentFaceNavigator> It;
  It* q = (It*)::operator new(sizeof(It));
  Sides s{&a, &r, h, k, q};
  vf_instantiate("fpos", h);
  vf_instantiate("fpos", k);
  vf_loop_inv("NavigationIteratorBase", beginInv, &s);
  new (q) It(p, true);
  It& it = *q;
  size_t x = it.state.currE.first.getIndex(), y = it.state.currE.second.getIndex();
  vf_assert((x < a.H) & (a.nx[x] != NONE) & (a.fa[x] == a.fa[h]), "stays on the face");
  if (it.justStarted) {
    vf_reach("some side");
    vf_assert((y == (x ^ 1)) & (a.fa[y] < a.F), "begins at a side with a face beyond it");
    vf_assert(imp(a.fa[k ^ 1] < a.F, r.frel(h, k) >= r.frel(h, x)), "skips no side with a face beyond it");
  } else {
    vf_reach("no side");
    vf_assert(a.fa[k ^ 1] >= a.F, "visits nothing only if no side has a face beyond it");
  }
}

// ------------------------------------------------------------------------------------------------ degrees
struct Deg { AM* a; Ring* r; size_t h; };
static bool degV(void* c, size_t v, size_t, size_t i) { // i steps around the vertex
  Deg& d = *(Deg*)c;
  AM& a = *d.a;
  size_t n = d.r->deg[a.ve[d.h]];
  return (v < a.H) & (a.nx[v] != NONE) & (a.ve[v] == a.ve[d.h]) & (i <= n) & (((i < n) & (d.r->rel(d.h, v) == i)) | ((i == n) & (v == d.h)));
}
static bool degF(void* c, size_t v, size_t, size_t i) {
  Deg& d = *(Deg*)c;
  AM& a = *d.a;
  size_t n = d.r->fdeg[a.fa[d.h]];
  return (v < a.H) & (a.nx[v] != NONE) & (a.fa[v] == a.fa[d.h]) & (i <= n) & (((i < n) & (d.r->frel(d.h, v) == i)) | ((i == n) & (v == d.h)));
}
VF_CONTRACT(C06, vertexDegree) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t v = anyVertex(a);
  Deg d{&a, &r, a.vh[v]};
  vf_instantiate("pos", d.h);
  vf_loop_step("Vertex::degree", degV, &d);
  vf_assert(a.m().vertex(v).degree() == r.deg[v], "the degree is the length of the cycle of edges");
}
VF_CONTRACT(C06, faceDegree) {
  AM& a = *anyMesh();
  Ring& r = *rings(a);
  size_t f = anyFace(a);
  Deg d{&a, &r, a.fh[f]};
  vf_instantiate("fpos", d.h);
  vf_loop_step("Face::degree", degF, &d);
  vf_assert(a.m().face(f).degree() == r.fdeg[f], "the degree is the number of sides");
}

#ifdef VF_NATIVE
#include "navnative.h"
static void navCheck(SurfaceMesh& m) {
  std::string p = zoo::navProblem(m);
  vf_assert(p.empty(), p.c_str());
}
VF_BOUNDED(C06, manifoldMeshes) {
  auto m = zoo::baseMesh();
  if (vf_bool("edited")) zoo::history(*m, 6);
  navCheck(*m);
}
VF_BOUNDED(C06, generalMeshes) {
  auto m = zoo::baseGeneral();
  navCheck(*m);
}
#endif
