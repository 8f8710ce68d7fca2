// C16: edits of general surface meshes.
#include "general.h"
using namespace gm;
#ifndef VF_NATIVE
// Vertex lists as sequences (O: outgoing, I: incoming).  The same contract for both.
struct Side {
  std::vector<size_t>&next, &prev, &start;           // now
  std::vector<size_t>&next0, &prev0, &start0;        // before
  std::vector<size_t>&pos, &len, &at;
};
static Side outSide(GM& a) { return {a.m().heVertOutNextArr, a.m().heVertOutPrevArr, a.m().vHeOutStartArr, a.on, a.op, a.os, a.pO, a.lO, a.aO}; }
static Side inSide(GM& a) { return {a.m().heVertInNextArr, a.m().heVertInPrevArr, a.m().vHeInStartArr, a.in, a.ip, a.is, a.pI, a.lI, a.aI}; }
static size_t owner(GM& a, size_t h, bool in) { return in ? a.ve[a.nx[h]] : a.ve[h]; }
// the list of v0 after removing i: it starts with the predecessor of i
struct Removed {
  Side s;
  size_t v0, i, p, q, L;
  Removed(GM& a, Side s_, bool in, size_t i_) : s(s_), v0(owner(a, i_, in)), i(i_) {
    p = s.prev0[i];
    q = s.pos[p];
    L = s.len[v0];
  }
  size_t pos(size_t x, size_t v) {
    size_t d = vf_ite(s.pos[x] >= q, s.pos[x] - q, s.pos[x] + L - q);
    return vf_ite(v == v0, vf_ite(d == 0, 0, d - 1), s.pos[x]);
  }
  size_t len(size_t v) { return vf_ite(v == v0, L - 1, s.len[v]); }
  size_t at(size_t v, size_t k) {
    size_t j = vf_ite(k + 1 + q >= L, k + 1 + q - L, k + 1 + q);
    return vf_ite(v == v0, vf_ite(k == 0, p, s.at[v * W + j]), s.at[v * W + k]);
  }
};
// the list of v0 after adding i at its end
struct Added {
  Side s;
  size_t v0, i, L;
  Added(GM& a, Side s_, bool in, size_t i_) : s(s_), v0(owner(a, i_, in)), i(i_) { L = s.len[v0]; }
  size_t pos(size_t x, size_t v) { return vf_ite(x == i, L, s.pos[x]); }
  size_t len(size_t v) { return vf_ite(v == v0, L + 1, s.len[v]); }
  size_t at(size_t v, size_t k) { return vf_ite((v == v0) & (k == L), i, s.at[v * W + k]); }
};
template <class P> static void listed(GM& a, Side s, P post, bool in, size_t x, size_t gone) { // x is in the list of its vertex
  size_t v = owner(a, x, in), n = s.next[x], p = s.prev[x];
  vf_assert((n < a.H) & (n != gone) & (p < a.H) & (p != gone), "links stay within the lists");
  vf_assert((owner(a, n, in) == v) & (owner(a, p, in) == v), "links stay within the list of the vertex");
  vf_assert((s.prev[n] == x) & (s.next[p] == x), "links agree in both directions");
  size_t k = post.pos(x, v), l = post.len(v);
  vf_assert(k < l, "positions are below the length");
  vf_assert(post.at(v, k) == x, "a position belongs to one halfedge");
  vf_assert(post.pos(n, v) == vf_ite(k + 1 == l, 0, k + 1), "the next entry of the list");
  vf_assert(post.pos(p, v) == vf_ite(k == 0, l - 1, k - 1), "the previous entry of the list");
}
template <class P> static void starts(GM& a, Side s, P post, bool in, size_t v, size_t gone) {
  size_t h = s.start[v];
  if (h == NONE) {
    vf_assert(post.len(v) == 0, "no start only for an empty list");
    return;
  }
  vf_assert((h < a.H) & (h != gone), "the start of a list is in it");
  vf_assert((owner(a, h, in) == v) & (post.pos(h, v) == 0), "the start of a list is its first entry");
}
static size_t anyListed(GM& a, const char* n, bool in) {
  size_t x = anyHe(a, n);
  vf_assume(a.away[x] == 0);
  // facts about x and its neighbours
  vf_assume(in ? a.in[x] < a.H : a.on[x] < a.H);
  return x;
}
static size_t anyVertex(GM& a) { return anyLive("v", a.V, a.vh); }
static void removed(bool in) {
  GM& a = *anyGeneral(true);
  size_t i = anyHe(a);
  vf_assume(a.away[i] == 0);
  size_t x = anyListed(a, "x", in), v = anyVertex(a);
  vf_assume(x != i);
  const char* list = in ? "inNext" : "outNext";
  vf_instantiate(list, i);
  vf_instantiate(list, in ? a.ip[i] : a.op[i]);
  vf_instantiate(list, x);
  Side s = in ? inSide(a) : outSide(a);
  Removed post(a, s, in, i);
  a.m().removeFromVertexLists(Halfedge(&a.m(), i));
  vf_reach("removed");
  listed(a, s, post, in, x, i);
  starts(a, s, post, in, v, i);
}
VF_CONTRACT(C16, removeOutgoing) { removed(false); }
VF_CONTRACT(C16, removeIncoming) { removed(true); }
static void added(bool in) {
  GM& a = *anyGeneral(true);
  size_t i = anyHe(a);
  vf_assume(a.away[i] != 0);
  size_t x = anyHe(a, "x"), v = anyVertex(a);
  vf_assume((x == i) | (a.away[x] == 0));
  Side s = in ? inSide(a) : outSide(a);
  Added post(a, s, in, i);
  a.m().addToVertexLists(Halfedge(&a.m(), i));
  vf_reach("added");
  listed(a, s, post, in, x, NONE);
  starts(a, s, post, in, v, NONE);
}
VF_CONTRACT(C16, addOutgoing) { added(false); }
VF_CONTRACT(C16, addIncoming) { added(true); }

// ------------------------------------------------------------------------------------------------ siblings
struct Separation { GM* a; size_t first; };
static Separation* Sep;
struct OfEdge { GM* a; size_t e, i; };
static bool sameEdge(void* c, size_t h, size_t) {
  OfEdge& x = *(OfEdge*)c;
  GM& a = *x.a;
  return (h < a.H) & (a.nx[h] != NONE) & (a.ed[h] == x.e);
}
VF_CONTRACT(C16, removeSibling) {
  GM& a = *anyGeneral();
  size_t i = anyHe(a), x = anyHe(a, "x");
  OfEdge o{&a, a.ed[i], i};
  vf_loop_keep("removeFromSiblingList", sameEdge, &o);
  vf_instantiate("sib", i);
  a.m().removeFromSiblingList(Halfedge(&a.m(), i));
  vf_reach("removed");
  vf_instantiate("sib", x);
  size_t p = a.sp[i], L = a.lS[o.e];
  vf_instantiate("sib", p);
  std::vector<size_t>& si = a.m().heSiblingArr;
  vf_assert(si[x] == vf_ite(x == p, a.si[i], a.si[x]), "the previous sibling skips the removed one; the others are unchanged");
  if (x == i) return;
  // the other halfedges of the edge are one cycle again, starting at p
  size_t e = a.ed[x], n = si[x], q = a.pS[p];
  vf_assert((n != i) & (a.ed[n] == e), "siblings stay within the edge");
  auto pos = [&](size_t y) {
    size_t d = vf_ite(a.pS[y] >= q, a.pS[y] - q, a.pS[y] + L - q);
    return vf_ite(e == o.e, vf_ite(d == 0, 0, d - 1), a.pS[y]);
  };
  size_t k = pos(x), l = vf_ite(e == o.e, L - 1, a.lS[e]), j = vf_ite(k + 1 + q >= L, k + 1 + q - L, k + 1 + q);
  vf_assert(k < l, "positions are below the number of siblings");
  vf_assert(vf_ite(e == o.e, vf_ite(k == 0, p, a.aS[e * W + j]), a.aS[e * W + k]) == x, "a position belongs to one halfedge");
  vf_assert(pos(n) == vf_ite(k + 1 == l, 0, k + 1), "the siblings of an edge are one cycle");
}
static bool nthSibling(void* c, size_t h, size_t, size_t i) {
  OfEdge& x = *(OfEdge*)c;
  GM& a = *x.a;
  size_t l = a.lS[x.e];
  return (h < a.H) & (a.nx[h] != NONE) & (a.ed[h] == x.e) & (i <= l) & (((i < l) & (a.pS[h] == i)) | ((i == l) & (a.pS[h] == 0)));
}
static bool countIsIter(void*, size_t n, size_t, size_t i) { return n == i; }
VF_CONTRACT(C16, edgeDegree) {
  GM& a = *anyGeneral();
  size_t e = anyEdge(a);
  OfEdge o{&a, e, a.eh[e]};
  vf_instantiate("sib", o.i);
  vf_loop_step("Edge::degree", nthSibling, &o);
  vf_loop_step("Edge::degree", countIsIter, &o);
  size_t d = a.m().edge(e).degree();
  vf_reach("counted");
  vf_assert(d == a.lS[e], "the degree of an edge is the number of its halfedges");
}
// contracts of the two functions for their caller
static size_t edgeDegreeC(Edge* e) { return Sep->a->lS[e->getIndex()]; }
static void removeSiblingC(SurfaceMesh* m, Halfedge he) {
  Separation& s = *Sep;
  size_t i = he.getIndex(), p = s.a->sp[i];
  if (p == s.first) p = s.a->sp[p];
  vf_assert((i < s.a->H) & (p < s.a->H) & (i != s.first), "a halfedge leaves the cycle of its siblings once");
  vf_assert(m->heSiblingArr[p] == i, "a halfedge leaves the cycle of its siblings");
  m->heSiblingArr[p] = m->heSiblingArr[i];
  s.first = i;
}
static void separated(int part) {
  GM& a = *anyGeneral();
  size_t h = anyHe(a, "h"), g = anyHe(a, "g"), x = anyHe(a, "x");
  vf_assume((h != g) & (a.ed[h] == a.ed[g]));
  Sep = new Separation{&a, NONE};
  vf_replace("geometrycentral::surface::Edge::degree(", (void (*)()) & edgeDegreeC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::removeFromSiblingList(", (void (*)()) & removeSiblingC, 0);
  SurfaceMesh& m = a.m();
  for (size_t k : {h, g, x}) vf_instantiate("sib", k);
  size_t e = a.ed[h], L = a.lS[e], s0 = a.eh[e];
  vf_instantiate("ehe", e);
  for (size_t k : {s0, a.sp[h], a.sp[g]}) vf_instantiate("sib", k);
  vf_instantiate("sib", a.si[s0]);
  Edge r = m.separateToNewEdge(Halfedge(&m, h), Halfedge(&m, g));
  bool same = (m.heNextArr[x] == a.nx[x]) & (m.heVertexArr[x] == a.ve[x]) & (m.heFaceArr[x] == a.fa[x]);
  vf_assert(same, "faces are unchanged");
  vf_assert(m.heOrientArr[x] == a.orient[x], "orientations are unchanged");
  if (L <= 2) {
    vf_reach("nothing to separate");
    vf_assert((m.heSiblingArr[x] == a.si[x]) & (m.heEdgeArr[x] == a.ed[x]), "nothing to separate");
    vf_assert((r.getIndex() == e) & (m.nEdgesFillCount == a.E), "nothing to separate");
    return;
  }
  vf_reach("separated");
  size_t f = r.getIndex(), s = m.eHalfedgeArr[e];
  if (part == 0) {
    vf_assert((f == a.E) & (m.nEdgesFillCount == a.E + 1) & (m.eHalfedgeArr[f] == h), "the new edge uses a fresh slot");
    vf_assert((m.heSiblingArr[h] == g) & (m.heSiblingArr[g] == h), "the two halfedges are the new edge");
    vf_assert(m.heEdgeArr[x] == vf_ite((x == h) | (x == g), f, a.ed[x]), "the others keep their edge");
    vf_assert((s < a.H) & (s != h) & (s != g), "the old edge stores one of its own");
    vf_assert((a.nx[s] != NONE) & (a.ed[s] == e), "the old edge stores one of its own");
    return;
  }
  vf_assume((x != h) & (x != g));
  vf_instantiate("sib", s);
  size_t n = m.heSiblingArr[x], c = a.ed[x], q = a.pS[s];
  vf_assert((n < a.H) & (n != h) & (n != g), "siblings stay within the edge");
  vf_assert(a.ed[n] == c, "siblings stay within the edge");
  // distance from s along the old cycle, without the two
  auto dist = [&](size_t y) { return vf_ite(a.pS[y] >= q, a.pS[y] - q, a.pS[y] + L - q); };
  size_t d1 = dist(h), d2 = dist(g), lo = vf_ite(d1 < d2, d1, d2), hi = vf_ite(d1 < d2, d2, d1);
  auto pos = [&](size_t y) {
    size_t d = dist(y);
    return vf_ite(c == e, vf_ite(d > hi, d - 2, vf_ite(d > lo, d - 1, d)), a.pS[y]);
  };
  size_t k = pos(x), l = vf_ite(c == e, L - 2, a.lS[c]);
  vf_assert(k < l, "positions are below the number of siblings");
  size_t d = vf_ite(k >= lo, k + 1, k);
  d = vf_ite(d >= hi, d + 1, d);
  size_t j = vf_ite(d + q >= L, d + q - L, d + q);
  vf_assert(a.aS[c * W + vf_ite(c == e, j, k)] == x, "a position belongs to one halfedge");
  vf_assert(pos(n) == vf_ite(k + 1 == l, 0, k + 1), "the siblings of an edge are one cycle");
}
VF_CONTRACT(C16, separate_links) { separated(0); }
VF_CONTRACT(C16, separate_cycle) { separated(1); }
// ------------------------------------------------------------------------------------------------ flip
// Contracts of the vertex lists for their callers: a halfedge may only leave lists in which it is, and while it is away its
// tail and tip may change; the tails and tips of the halfedges in the lists may not.
struct Lists {
  GM* a;
  size_t n, h[4];                     // away
  size_t k, key[8], tail[8], tip[8];  // put back elsewhere
  size_t at(size_t x) { // position in key
    for (size_t i = 0; i < k; i++)
      if (key[i] == x) return i;
    return 8;
  }
};
static Lists* Ls;
static void takeOut(SurfaceMesh* m, Halfedge he) {
  Lists& l = *Ls;
  size_t h = he.getIndex(), j = l.at(h);
  size_t u = j < 8 ? l.tail[j] : l.a->ve[h], v = j < 8 ? l.tip[j] : l.a->ve[l.a->nx[h]];
  vf_assert((h < l.a->H) & (m->heVertexArr[h] == u), "a halfedge leaves the list of its tail");
  vf_assert(m->heVertexArr[m->heNextArr[h]] == v, "a halfedge leaves the list of its tip");
  for (size_t i = 0; i < l.n; i++) vf_assert(l.h[i] != h, "a halfedge leaves the lists once");
  l.h[l.n++] = h;
}
static void putBack(SurfaceMesh* m, Halfedge he) {
  Lists& l = *Ls;
  size_t h = he.getIndex(), k = 4, j = l.at(h);
  for (size_t i = 0; i < l.n; i++)
    if (l.h[i] == h) k = i;
  vf_assert(k < 4, "a halfedge enters the lists only if it has left them");
  l.h[k] = l.h[--l.n];
  if (j == 8) l.key[j = l.k++] = h;
  l.tail[j] = m->heVertexArr[h];
  l.tip[j] = m->heVertexArr[m->heNextArr[h]];
}
static void listContracts(GM& a) {
  Ls = new Lists{&a, 0, {NONE, NONE, NONE, NONE}, 0, {}, {}, {}};
  vf_replace("geometrycentral::surface::SurfaceMesh::removeFromVertexLists(", (void (*)()) & takeOut, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::addToVertexLists(", (void (*)()) & putBack, 0);
}
static void cut(bool c, const char* l) { vf_assert(c, l); vf_assume(c); }
struct GFlip {
  GM& a;
  size_t e, h, t, h2, h3, t2, t3;
  GFlip(GM& a_, size_t e_) : a(a_), e(e_), h(a.eh[e]), t(a.si[h]), h2(a.nx[h]), h3(a.nx[h2]), t2(a.nx[t]), t3(a.nx[t2]) {}
  bool legal() { return (t != h) & (a.si[t] == h) & (a.nx[h3] == h) & (a.nx[t3] == t) & (h2 != t) & (t2 != h); }
  bool same() { return (a.orient[h] != 0) == (a.orient[t] != 0); } // the faces have different orientation
};
VF_CONTRACT(C16, flipRefused) {
  GM& a = *anyGeneral();
  GFlip w(a, anyEdge(a));
  vf_instantiate("sib", w.h);
  vf_instantiate("sib", w.t);
  vf_assume(!w.legal());
  size_t x = anyHe(a, "x");
  listContracts(a);
  SurfaceMesh& m = a.m();
  vf_assert(!m.flip(m.edge(w.e), false), "only edges between two triangles are flipped");
  vf_reach("refused");
  vf_assert((m.heNextArr[x] == a.nx[x]) & (m.heVertexArr[x] == a.ve[x]) & (m.heFaceArr[x] == a.fa[x]) & (m.heSiblingArr[x] == a.si[x]) & (m.heEdgeArr[x] == a.ed[x]), "a refused flip changes nothing");
  vf_assert(m.heOrientArr[x] == a.orient[x], "a refused flip changes no orientation");
  vf_assert(Ls->n == 0, "every halfedge is in the lists");
}
// part 0: the faces after the flip, 1: siblings still match, 2: vertices, faces and edges store halfedges of their own
static void flipped(bool same, int part) {
  GM& a = *anyGeneral();
  GFlip w(a, anyEdge(a));
  size_t h = w.h, t = w.t, h2 = w.h2, h3 = w.h3, t2 = w.t2, t3 = w.t3;
  for (size_t k : {h, t, h2, h3, t2, t3}) vf_instantiate("sib", k);
  vf_assume(w.legal());
  vf_assume(w.same() == same);
  cut((h2 != h3) & (h3 != h) & (t2 != t3) & (t3 != t), "a triangle has three sides");
  cut((a.fa[h] != a.fa[t]) & (h2 != t2) & (h2 != t3) & (h3 != t2) & (h3 != t3) & (h3 != t) & (t3 != h), "the two triangles are distinct");
  size_t s0 = a.fh[a.fa[h]];
  vf_instantiate("next", s0);
  vf_instantiate("fhe", a.fa[h]);
  cut((s0 == h) | (s0 == h2) | (s0 == h3), "a triangle starts at one of its sides");
  if (same) vf_rewrite("fhe", a.fa[h], s0 == h ? h : s0 == h2 ? h2 : h3);
  size_t x = anyHe(a, "x");
  size_t v = part == 2 ? anyVertex(a) : 0, f = part == 2 ? anyFace(a) : 0;
  listContracts(a);
  SurfaceMesh& m = a.m();
  vf_assert(m.flip(m.edge(w.e), false), "edges between two triangles are flipped");
  vf_reach("flipped");
  vf_assert(Ls->n == 0, "every halfedge is back in the lists");
  if (part == 0) {
    // with opposite faces the second triangle is traversed backwards before and after
    size_t n = same ? sel(x, {h, h3, t3, t, h2, t2}, {h3, t3, h, h2, t2, t}, a.nx[x]) : sel(x, {h, t3, h2, t, h3, t2}, {t3, h2, h, h3, t2, t}, a.nx[x]);
    vf_assert(m.heNextArr[x] == n, "successors after the flip");
    size_t u = same ? sel(x, {h, h3, t3, t, h2, t2}, {a.ve[t3], a.ve[h3], a.ve[h], a.ve[t3], a.ve[h3], a.ve[t2]}, a.ve[x]) : sel(x, {h, t}, {a.ve[h3], a.ve[t3]}, a.ve[x]);
    if (same) u = vf_ite(x == t, a.ve[t3], u);
    vf_assert(m.heVertexArr[x] == u, "the flipped edge joins the opposite vertices");
    size_t g = same ? sel(x, {t3, h2}, {a.fa[h], a.fa[t]}, a.fa[x]) : sel(x, {t3, h3}, {a.fa[h], a.fa[t]}, a.fa[x]);
    vf_assert(m.heFaceArr[x] == g, "faces after the flip");
    vf_assert((m.heSiblingArr[x] == a.si[x]) & (m.heEdgeArr[x] == a.ed[x]), "halfedges keep their edges");
    vf_assert(imp((x != h) & (x != t) & (x != h2) & (x != h3) & (x != t2) & (x != t3), (m.heVertexArr[m.heNextArr[x]] == a.ve[a.nx[x]]) & (m.heOrientArr[x] == a.orient[x])), "the lists of the other halfedges are still right");
  }
  if (part == 1) {
    size_t s = a.si[x];
    vf_instantiate("sib", x);
    vf_instantiate("next", s);
    vf_assert(sideBySide(m.heVertexArr[x], m.heVertexArr[m.heNextArr[x]], m.heOrientArr[x], m.heVertexArr[s], m.heVertexArr[m.heNextArr[s]], m.heOrientArr[s]), "siblings join the same vertices");
  }
  if (part == 2) {
    size_t r = m.vHalfedgeArr[v], q = m.fHalfedgeArr[f];
    vf_assert(r < a.H, "a vertex stores a live halfedge of its own");
    vf_assert(m.heVertexArr[r] == v, "a vertex stores a live halfedge of its own");
    vf_assert(q < a.H, "a face stores a live halfedge of its own");
    vf_assert(m.heFaceArr[q] == f, "a face stores a live halfedge of its own");
    vf_assert(m.heFaceArr[m.heNextArr[x]] == m.heFaceArr[x], "successor stays in the face");
  }
}
VF_CONTRACT(C16, flip_oriented_faces) { flipped(false, 0); }
VF_CONTRACT(C16, flip_oriented_siblings) { flipped(false, 1); }
VF_CONTRACT(C16, flip_oriented_stored) { flipped(false, 2); }
VF_CONTRACT(C16, flip_opposed_faces) { flipped(true, 0); }
VF_CONTRACT(C16, flip_opposed_siblings) { flipped(true, 1); }
VF_CONTRACT(C16, flip_opposed_stored) { flipped(true, 2); }

// ------------------------------------------------------------------------------------------------ inverting a face
struct Inversion { GM* a; size_t f, v; bool changed; };
static Inversion* Inv;
#define IX Inversion& x = *(Inversion*)c; GM& a = *x.a
static bool inFace(Inversion& x, size_t h) { return (h < x.a->H) & (x.a->nx[h] != NONE) & (x.a->fa[h] == x.f); }
// the i-th halfedge of the face in the old and in the new order
static bool nthSide(void* c, size_t h, size_t, size_t i) {
  IX;
  size_t l = a.lB[x.f];
  return inFace(x, h) & (i <= l) & (a.pB[h] == vf_ite(i == l, 0, i));
}
static bool nthBack(void* c, size_t h, size_t, size_t i) {
  IX;
  size_t l = a.lB[x.f];
  return inFace(x, h) & (i <= l) & (a.pB[h] == vf_ite((i == 0) | (i == l), 0, l - i));
}
// the second loop, whose first iteration is executed: i + 1 halfedges are done
static bool curSide(void* c, size_t h, size_t, size_t i) {
  IX;
  return inFace(x, h) & (i + 1 < a.lB[x.f]) & (a.pB[h] == i + 1);
}
static bool prevSide(void* c, size_t h, size_t, size_t i) { IX; return inFace(x, h) & (i < a.lB[x.f]) & (a.pB[h] == i); }
static size_t turnedNext(void* c, size_t i, size_t j) { IX; return vf_ite(inFace(x, j) & (a.pB[j] >= 1) & (a.pB[j] <= i), a.pv[j], a.nx[j]); }
static size_t turnedTail(void* c, size_t i, size_t j) { IX; return vf_ite(inFace(x, j) & (a.pB[j] <= i), a.ve[a.nx[j]], a.ve[j]); }
static size_t turnedFlag(void* c, size_t i, size_t j) { IX; return vf_ite(inFace(x, j) & (a.pB[j] <= i), a.orient[j] == 0, a.orient[j]); }
static bool stored(void* c, size_t i) { // of the vertex v
  IX;
  size_t h0 = a.vh[x.v], h = a.m().vHalfedgeArr[x.v];
  bool kept = (h == h0) & !(inFace(x, h0) & (a.pB[a.pv[h0]] <= i));
  return kept | ((h < a.H) & inFace(x, h) & (a.pB[h] <= i) & (a.ve[a.nx[h]] == x.v));
}
static void takeSideOut(SurfaceMesh* m, Halfedge he) {
  Inversion& x = *Inv;
  GM& a = *x.a;
  size_t h = he.getIndex();
  vf_assert(inFace(x, h), "the sides of the face leave the lists");
  vf_assert((m->heNextArr[h] == a.nx[h]) & (m->heVertexArr[h] == a.ve[h]), "halfedges leave the lists before they change");
  vf_assert(m->heVertexArr[a.nx[h]] == a.ve[a.nx[h]], "halfedges leave the lists before they change");
}
static void putSideBack(SurfaceMesh* m, Halfedge he) {
  Inversion& x = *Inv;
  GM& a = *x.a;
  size_t h = he.getIndex();
  vf_assert(inFace(x, h), "the sides of the face enter the lists");
  vf_assert((m->heVertexArr[h] == a.ve[a.nx[h]]) & (m->heNextArr[h] == a.pv[h]), "halfedges enter the lists after they changed");
  vf_assert(m->heVertexArr[m->heNextArr[h]] == a.ve[h], "halfedges enter the lists after they changed");
}
static void inverted(int part) {
  GM& a = *anyGeneral();
  Inversion& x = *new Inversion{&a, anyFace(a), 0, false};
  Inv = &x;
  x.v = anyVertex(a);
  size_t y = anyHe(a, "y"), f = x.f, h0 = a.fh[f];
  vf_instantiate("next", h0);
  vf_instantiate("next", a.vh[x.v]);
  vf_instantiate("vhe", x.v);
  vf_instantiate("sib", y);
  vf_instantiate("next", a.si[y]);
  vf_loop_count("SurfaceMesh::invertOrientation");
  vf_loop_step("SurfaceMesh::invertOrientation#1", nthSide, &x);
  vf_loop_peel("SurfaceMesh::invertOrientation#2");
  vf_loop_step("SurfaceMesh::invertOrientation#2", curSide, &x);
  vf_loop_step("SurfaceMesh::invertOrientation#2", prevSide, &x);
  vf_loop_array("SurfaceMesh::invertOrientation#2", "next", turnedNext, &x);
  vf_loop_array("SurfaceMesh::invertOrientation#2", "vert", turnedTail, &x);
  vf_loop_array("SurfaceMesh::invertOrientation#2", "orient", turnedFlag, &x);
  vf_loop_at("SurfaceMesh::invertOrientation#2", stored, &x);
  vf_loop_step("SurfaceMesh::invertOrientation#3", nthBack, &x);
  vf_replace("geometrycentral::surface::SurfaceMesh::removeFromVertexLists(", (void (*)()) & takeSideOut, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::addToVertexLists(", (void (*)()) & putSideBack, 0);
  SurfaceMesh& m = a.m();
  m.invertOrientation(m.face(f));
  vf_reach("inverted");
  bool in = a.fa[y] == f;
  if (part == 0) {
    vf_assert(m.heNextArr[y] == vf_ite(in, a.pv[y], a.nx[y]), "the face is traversed backwards");
    vf_assert(m.heVertexArr[y] == vf_ite(in, a.ve[a.nx[y]], a.ve[y]), "its halfedges swap tail and tip");
    vf_assert((m.heOrientArr[y] != 0) == ((a.orient[y] != 0) != in), "its halfedges swap orientation");
    vf_assert((m.heFaceArr[y] == a.fa[y]) & (m.heSiblingArr[y] == a.si[y]) & (m.heEdgeArr[y] == a.ed[y]), "halfedges keep their faces and edges");
    size_t r = m.vHalfedgeArr[x.v];
    vf_assert((r < a.H), "a vertex stores a live halfedge of its own");
    vf_instantiate("next", r);
    vf_assert(m.heVertexArr[r] == x.v, "a vertex stores a live halfedge of its own");
    vf_assert(m.fHalfedgeArr[f] == h0, "the face keeps its halfedge");
  } else {
    size_t s = a.si[y];
    vf_assert(sideBySide(m.heVertexArr[y], m.heVertexArr[m.heNextArr[y]], m.heOrientArr[y], m.heVertexArr[s], m.heVertexArr[m.heNextArr[s]], m.heOrientArr[s]), "siblings join the same vertices");
  }
}
VF_CONTRACT(C16, invert_face) { inverted(0); }
VF_CONTRACT(C16, invert_siblings) { inverted(1); }

// ------------------------------------------------------------------------------------------------ duplicating a face
// Creation of elements (contract newHalfedge below; C03): the next slot of each array, storage growing as needed.  For the
// caller there is room enough from the start.
VF_CONTRACT(C16, newHalfedge) {
  GM& a = *anyGeneral();
  SurfaceMesh& m = a.m();
  size_t x = anyHe(a, "x");
  Halfedge h = m.getNewHalfedge(true);
  vf_reach("created");
  vf_assert((h.getIndex() == a.H) & (m.nHalfedgesFillCount == a.H + 1), "a new halfedge uses the next slot");
  vf_assert((m.nHalfedgesCount == m.nInteriorHalfedgesCount) & (m.modificationTick != a.tick), "and is counted");
  size_t N = m.nHalfedgesCapacityCount;
  vf_assert(N > a.H, "within the capacity");
  vf_assert((m.heNextArr.size() == N) & (m.heVertexArr.size() == N) & (m.heFaceArr.size() == N) & (m.heSiblingArr.size() == N) & (m.heEdgeArr.size() == N) & (m.heOrientArr.size() == N), "every array has the capacity");
  vf_assert((m.heVertOutNextArr.size() == N) & (m.heVertOutPrevArr.size() == N) & (m.heVertInNextArr.size() == N) & (m.heVertInPrevArr.size() == N), "every list has the capacity");
  vf_assert((m.heNextArr[x] == a.nx[x]) & (m.heVertexArr[x] == a.ve[x]) & (m.heFaceArr[x] == a.fa[x]) & (m.heSiblingArr[x] == a.si[x]) & (m.heEdgeArr[x] == a.ed[x]), "the other halfedges are unchanged");
  vf_assert((m.heVertOutNextArr[x] == a.on[x]) & (m.heVertOutPrevArr[x] == a.op[x]) & (m.heVertInNextArr[x] == a.in[x]) & (m.heVertInPrevArr[x] == a.ip[x]), "the lists are unchanged");
  vf_assert(m.heOrientArr[x] == a.orient[x], "orientations are unchanged");
}
struct Copy { GM* a; size_t f, l, fill, g; };
static Copy* Dup;
#define DX Copy& x = *(Copy*)c; GM& a = *x.a
static size_t original(Copy& x, size_t j) { return x.a->aB[x.f * W + (j - x.a->H)]; } // the side of f of which the new halfedge j is a copy
static bool isNew(Copy& x, size_t i, size_t j) { return (j >= x.a->H) & (j < x.a->H + i); }
static bool isOld(Copy& x, size_t i, size_t j) { return (j < x.a->H) & (x.a->nx[j] != NONE) & (x.a->fa[j] == x.f) & (x.a->pB[j] < i); }
static bool copied(void* c, size_t h, size_t, size_t i) { // i + 1 sides are done
  DX;
  return (h < a.H) & (a.nx[h] != NONE) & (a.fa[h] == x.f) & (i + 1 <= x.l) & (a.pB[h] == vf_ite(i + 1 == x.l, 0, i + 1));
}
static bool newest(void* c, size_t h, size_t, size_t i) { DX; return h == a.H + i; }
static bool fills(void* c, size_t n, size_t, size_t i) { DX; return n == a.H + i + 1; }
static size_t cNext(void* c, size_t i, size_t j) { DX; return vf_ite(isNew(x, i, j), j + 1, a.nx[j]); }
static size_t cTail(void* c, size_t i, size_t j) { DX; return isNew(x, i + 1, j) ? a.ve[original(x, j)] : a.ve[j]; }
static size_t cEdge(void* c, size_t i, size_t j) { DX; return isNew(x, i + 1, j) ? a.ed[original(x, j)] : a.ed[j]; }
static size_t cFace(void* c, size_t i, size_t j) { DX; return isNew(x, i + 1, j) ? x.g : a.fa[j]; }
static size_t cFlag(void* c, size_t i, size_t j) { DX; return isNew(x, i + 1, j) ? a.orient[original(x, j)] : a.orient[j]; }
static size_t cSib(void* c, size_t i, size_t j) { DX; return isNew(x, i + 1, j) ? a.si[original(x, j)] : isOld(x, i + 1, j) ? a.H + a.pB[j] : a.si[j]; }
static Halfedge newHalfedgeC(SurfaceMesh* m, bool) {
  m->nHalfedgesCount++;
  m->nInteriorHalfedgesCount++;
  return Halfedge(m, m->nHalfedgesFillCount++);
}
static Face newFaceC(SurfaceMesh* m) {
  m->nFacesCount++;
  return Face(m, m->nFacesFillCount++);
}
static void listCopy(SurfaceMesh* m, Halfedge he) {
  Copy& x = *Dup;
  GM& a = *x.a;
  size_t h = he.getIndex();
  vf_assert((h >= a.H) & (h < a.H + x.l), "the new halfedges enter the lists");
}
static bool nthCopy(void* c, size_t h, size_t, size_t i) { DX; return (i <= x.l) & (h == vf_ite(i == x.l, a.H, a.H + i)); }
static bool someCopy(void* c, size_t h, size_t) { DX; return (h >= a.H) & (h < a.H + x.l); }
static void duplicated(int part) {
  GM& a = *anyGeneral();
  SurfaceMesh& m = a.m();
  size_t f = anyFace(a), y = anyHe(a, "y");
  Copy& x = *new Copy{&a, f, a.lB[f], a.H, a.F};
  Dup = &x;
  vf_instantiate("next", a.fh[f]);
  vf_instantiate("fhe", f);
  cut((x.l >= 2) & (x.l < W), "a face has at least two sides");
  vf_assume((a.H + x.l <= m.heNextArr.size()) & (a.F < m.fHalfedgeArr.size())); // room enough
  size_t k = vf_size("k", 0, W);
  vf_assume(k < x.l);
  size_t j = a.H + k, o = original(x, j);
  // the k-th side of the face
  vf_assume(o < a.H);
  vf_assume((a.nx[o] != NONE) & (a.fa[o] == f) & (a.pB[o] == k));
  vf_replace("geometrycentral::surface::SurfaceMesh::getNewHalfedge(", (void (*)()) & newHalfedgeC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::getNewFace(", (void (*)()) & newFaceC, 0);
  vf_replace("geometrycentral::surface::SurfaceMesh::addToVertexLists(", (void (*)()) & listCopy, 0);
  const char* L1 = "SurfaceMesh::duplicateFace#1";
  vf_loop_count("SurfaceMesh::duplicateFace");
  vf_loop_peel(L1);
  vf_loop_step(L1, copied, &x);
  vf_loop_step(L1, newest, &x);
  vf_loop_step(L1, fills, &x);
  vf_loop_array(L1, "next", cNext, &x);
  vf_loop_array(L1, "vert", cTail, &x);
  vf_loop_array(L1, "hedge", cEdge, &x);
  vf_loop_array(L1, "face", cFace, &x);
  vf_loop_array(L1, "orient", cFlag, &x);
  vf_loop_array(L1, "sib", cSib, &x);
  vf_loop_step("SurfaceMesh::duplicateFace#2", nthCopy, &x);
  vf_loop_keep("SurfaceMesh::duplicateFace#2", someCopy, &x);
  Face g = m.duplicateFace(m.face(f));
  vf_reach("duplicated");
  vf_assert((g.getIndex() == a.F) & (m.fHalfedgeArr[a.F] == a.H), "the copy is a new face");
  vf_assert((m.nHalfedgesFillCount == a.H + x.l), "with as many sides");
  if (part == 0) {
    vf_assert(m.heNextArr[j] == vf_ite(k + 1 == x.l, a.H, j + 1), "the new halfedges are one cycle");
    vf_assert((m.heFaceArr[j] == a.F) & (m.heVertexArr[j] == a.ve[o]), "with the same vertices in the same order");
    vf_assert((m.heEdgeArr[j] == a.ed[o]) & (m.heSiblingArr[j] == a.si[o]), "each next to its original");
    vf_assert(m.heOrientArr[j] == a.orient[o], "with the orientation of its original");
  } else {
    vf_assert((m.heNextArr[y] == a.nx[y]) & (m.heVertexArr[y] == a.ve[y]) & (m.heFaceArr[y] == a.fa[y]) & (m.heEdgeArr[y] == a.ed[y]), "the old halfedges are unchanged");
    vf_assert(m.heOrientArr[y] == a.orient[y], "the old orientations are unchanged");
    vf_assert(m.heSiblingArr[y] == vf_ite(a.fa[y] == f, a.H + a.pB[y], a.si[y]), "the copies are inserted after their originals");
  }
}
VF_CONTRACT(C16, duplicate_copy) { duplicated(0); }
VF_CONTRACT(C16, duplicate_rest) { duplicated(1); }
#endif
#ifdef VF_NATIVE
static void bounded(int op) {
  GM& a = *anyGeneral();
  zoo::runGeneral(a.m(), op, true);
  vf_reach("edited");
}
VF_BOUNDED(C16, invert) { bounded(0); }
VF_BOUNDED(C16, duplicate) { bounded(1); }
VF_BOUNDED(C16, separate) { bounded(2); }
VF_BOUNDED(C16, flips) { bounded(3); }
VF_BOUNDED(C16, separateEdges) { bounded(4); }
VF_BOUNDED(C16, separateVertices) { bounded(5); }
VF_BOUNDED(C16, orientFaces) { bounded(6); }
#endif
