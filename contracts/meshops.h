// One random local edit of a manifold mesh with its documented effect (native stand-in).
#pragma once
#include "zoo.h"

namespace zoo {
enum { VALID = 1, EFFECT = 2, COUNTS = 4 };
struct OpRun {
  ManifoldSurfaceMesh& m;
  int mode;
  Snap S, T;
  std::set<size_t> touched, deleted;
  std::map<size_t, std::set<size_t>> alias; // vertex -> allowed new tails
  OpRun(ManifoldSurfaceMesh& m_, int mode_) : m(m_), mode(mode_), S(snap(m_)) {}
  void chk(bool c, const char* l) {
    if (mode & EFFECT) vf_assert(c, l);
  }
  bool isNewHe(size_t h) { return h >= S.next.size() && h < T.next.size() && T.next[h] != INV; }
  bool isNewV(size_t v) { return v >= S.vHe.size() && v < T.vHe.size() && T.vHe[v] != INV; }
  bool isNewF(size_t f) { return f >= S.fHe.size() && f < T.fHe.size() && T.fHe[f] != INV; }
  void post() { T = snap(m); }
  std::vector<size_t> cyc(size_t h) { return faceCycle(m, h); } // of the current mesh
  // in the new mesh hs is one face cycle with the given tails; returns the face
  size_t cycle(const std::vector<size_t>& hs, const std::vector<size_t>& tl, const char* l) {
    bool ok = true;
    size_t f = INV;
    for (size_t i = 0; i < hs.size(); i++) {
      size_t h = hs[i];
      touched.insert(h);
      if (h >= T.next.size() || T.next[h] == INV) { ok = false; break; }
      if (T.next[h] != hs[(i + 1) % hs.size()]) ok = false;
      size_t want = tl[i], got = T.vert[h];
      if (want != got && !(alias.count(want) && alias[want].count(got))) ok = false;
      if (i == 0) f = T.face[h];
      if (T.face[h] != f) ok = false;
    }
    chk(ok, l);
    return f;
  }
  // everything not touched is as before
  void frame(const char* l = "elements outside the edited neighbourhood are unchanged") {
    if (!(mode & EFFECT)) return;
    bool ok = true;
    for (size_t h = 0; h < S.next.size(); h++) {
      if (deleted.count(h)) { ok = ok && (T.next[h] == INV); continue; }
      if (touched.count(h)) { ok = ok && (T.next[h] != INV); continue; }
      size_t a = S.vert[h], b = T.vert[h];
      if (S.next[h] != T.next[h] || (a != b && !(alias.count(a) && alias[a].count(b))) || S.face[h] != T.face[h]) ok = false;
    }
    for (size_t h = S.next.size(); h < T.next.size(); h++)
      if (T.next[h] != INV && !touched.count(h)) ok = false;
    vf_assert(ok, l);
  }
  void counts(long dV, long dE, long dF, long dB) {
    chk((long)m.nVertices() == (long)S.nV + dV, "vertex count changes by the documented amount");
    chk((long)m.nEdges() == (long)S.nE + dE, "edge count changes by the documented amount");
    chk((long)m.nHalfedges() == (long)S.nH + 2 * dE, "halfedge count changes by the documented amount");
    chk((long)m.nFaces() == (long)S.nF + dF, "face count changes by the documented amount");
    chk((long)m.nBoundaryLoops() == (long)S.nB + dB, "boundary loop count changes by the documented amount");
  }
  void unchanged(const char* l) { chk(sameConn(S, T), l); }
  void facesAlive(std::initializer_list<size_t> dead = {}) { // old faces and vertices stay live unless listed
    bool ok = true;
    std::set<size_t> d(dead);
    for (size_t f = 0; f < S.fHe.size(); f++)
      if ((S.fHe[f] != INV && !d.count(f)) != (T.fHe[f] != INV)) ok = false;
    chk(ok, "exactly the documented faces survive");
  }
  void vertsAlive(size_t dead = INV) {
    bool ok = true;
    for (size_t v = 0; v < S.vHe.size(); v++)
      if ((S.vHe[v] != INV && v != dead) != (T.vHe[v] != INV)) ok = false;
    chk(ok, "exactly the documented vertices survive");
  }
  bool ext(size_t h) const { return S.face[h] >= Snap::BASE; }
  size_t prevS(size_t h) const {
    size_t p = h;
    while (S.next[p] != h) p = S.next[p];
    return p;
  }
  bool vBoundaryS(size_t v) const {
    for (size_t h = 0; h < S.next.size(); h++)
      if (S.next[h] != INV && S.vert[h] == v && ext(h)) return true;
    return false;
  }
  std::set<size_t> neighS(size_t v) const {
    std::set<size_t> r;
    for (size_t h = 0; h < S.next.size(); h++)
      if (S.next[h] != INV && S.vert[h] == v) r.insert(S.vert[h ^ 1]);
    return r;
  }
  size_t degS(size_t v) const {
    size_t r = 0;
    for (size_t h = 0; h < S.next.size(); h++) r += (S.next[h] != INV && S.vert[h] == v);
    return r;
  }

  // ---------------------------------------------------------------- operations
  void flip() {
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    bool prevent = vf_bool("preventSelfEdges");
    auto A = cyc(h), B = cyc(t);
    bool legal = !ext(h) && !ext(t) && A.size() == 3 && B.size() == 3 && A[1] != t && B[1] != h;
    size_t c = INV, d = INV;
    if (legal) {
      c = S.vert[A[2]];
      d = S.vert[B[2]];
    }
    bool r = m.flip(m.edge(e), prevent);
    post();
    if (!r) {
      unchanged("a refused flip changes nothing");
      if (legal && !prevent) chk(false, "a flippable edge is flipped");
      if (legal && prevent && c != d && !neighS(c).count(d)) chk(false, "a flippable edge is flipped");
      return;
    }
    chk(legal, "a boundary edge, a non-triangle or a degree-1 edge is not flipped");
    if (!legal) return;
    if (prevent) chk(c != d, "preventSelfEdges: the flip does not create a self-edge");
    auto vA = std::vector<size_t>{S.vert[A[0]], S.vert[A[1]], S.vert[A[2]]};
    size_t a = vA[0], b = vA[1];
    size_t f1 = cycle({h, B[2], A[1]}, {c, d, b}, "the flipped edge joins the opposite vertices (first face)");
    size_t f2 = cycle({t, A[2], B[1]}, {d, c, a}, "the flipped edge joins the opposite vertices (second face)");
    std::set<size_t> fs{f1, f2}, fo{S.face[h], S.face[t]};
    chk(fs == fo, "the two faces keep their handles");
    frame();
    counts(0, 0, 0, 0);
    vertsAlive();
    facesAlive();
  }
  void insertAlong(bool split) {
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    auto A = cyc(h), B = cyc(t);
    bool boundary = ext(t) || ext(h);
    if (split) {
      vf_assume(A.size() == 3 && (boundary || B.size() == 3) && !ext(h));
      vf_assume(S.face[h] != S.face[t]); // the two triangles are distinct
    }
    size_t u = S.vert[h], w = S.vert[t];
    Halfedge he = split ? m.splitEdgeTriangular(m.edge(e)) : m.insertVertexAlongEdge(m.edge(e));
    post();
    size_t r = he.getIndex();
    chk(r < T.next.size() && T.next[r] != INV, "the returned halfedge is live");
    size_t n = T.vert[r];
    chk(isNewV(n), "the returned halfedge starts at the new vertex");
    if (!(mode & EFFECT)) return;
    size_t p; // the other half in the same direction: tail u, tip n
    if (r == h) {
      p = INV;
      for (size_t x = S.next.size(); x < T.next.size(); x++)
        if (T.next[x] != INV && T.vert[x] == u && T.vert[x ^ 1] == n && T.next[x] != INV && (split || T.next[x] == r) && (!split || T.next[x ^ 1] != INV)) {
          // with split there may be a second candidate (the diagonal to u in a glued complex): take the one on the face of A's last halfedge
          if (split && S.vert[A[2]] == u && T.next[A[2]] != x) continue;
          if (p == INV || T.next[A.back()] == x) p = x;
        }
    } else
      p = h;
    chk(p != INV && (r == h || isNewHe(r)), "the original edge is repurposed as one of the two halves");
    if (p == INV) return;
    chk(r % 2 == 0 && p % 2 == 0, "both halves keep the canonical direction");
    chk(T.vert[r ^ 1] == w && T.vert[p ^ 1] == n && T.vert[p] == u, "the two halves join the old endpoints to the new vertex");
    if (!split) {
      auto subst = [&](const std::vector<size_t>& C, std::vector<size_t>& hs, std::vector<size_t>& tl) {
        for (size_t x : C) {
          if (x == h) { hs.push_back(p); tl.push_back(u); hs.push_back(r); tl.push_back(n); }
          else if (x == t) { hs.push_back(r ^ 1); tl.push_back(w); hs.push_back(p ^ 1); tl.push_back(n); }
          else { hs.push_back(x); tl.push_back(S.vert[x]); }
        }
      };
      std::vector<size_t> hs, tl;
      subst(A, hs, tl);
      chk(cycle(hs, tl, "the first face gains the vertex between its old neighbours") == S.face[h], "the first face keeps its handle");
      hs.clear(); tl.clear();
      subst(B, hs, tl);
      chk(cycle(hs, tl, "the second face gains the vertex between its old neighbours") == S.face[t], "the second face keeps its handle");
      counts(1, 1, 0, 0);
    } else {
      size_t x = T.next[A[1]], c = S.vert[A[2]];
      chk(isNewHe(x), "the first face is split by a new edge");
      size_t f1 = cycle({r, A[1], x}, {n, w, c}, "the first face is split from the new vertex to the opposite one");
      size_t f2 = cycle({p, x ^ 1, A[2]}, {u, n, c}, "the first face is split from the new vertex to the opposite one (other half)");
      chk((f1 == S.face[h] && isNewF(f2)) || (f2 == S.face[h] && isNewF(f1)), "one half of the first face keeps its handle");
      if (ext(t)) {
        std::vector<size_t> hs, tl;
        for (size_t y : B) {
          if (y == t) { hs.push_back(r ^ 1); tl.push_back(w); hs.push_back(p ^ 1); tl.push_back(n); }
          else { hs.push_back(y); tl.push_back(S.vert[y]); }
        }
        chk(cycle(hs, tl, "the boundary loop gains the new vertex") == S.face[t], "the boundary loop keeps its handle");
        counts(1, 2, 1, 0);
      } else {
        size_t y = T.next[r ^ 1], d = S.vert[B[2]];
        chk(isNewHe(y), "the second face is split by a new edge");
        size_t f3 = cycle({r ^ 1, y, B[2]}, {w, n, d}, "the second face is split from the new vertex to the opposite one");
        size_t f4 = cycle({p ^ 1, B[1], y ^ 1}, {n, u, d}, "the second face is split from the new vertex to the opposite one (other half)");
        chk((f3 == S.face[t] && isNewF(f4)) || (f4 == S.face[t] && isNewF(f3)), "one half of the second face keeps its handle");
        counts(1, 3, 2, 0);
      }
    }
    frame();
    vertsAlive();
    facesAlive();
  }
  void insertVertex() {
    size_t f = pick("f", liveFaces(m));
    auto C = cyc(m.fHalfedgeArr[f]);
    Vertex v = m.insertVertex(m.face(f));
    post();
    size_t n = v.getIndex();
    chk(isNewV(n), "the returned vertex is new");
    if (!(mode & EFFECT)) return;
    size_t kept = 0;
    for (size_t i = 0; i < C.size(); i++) {
      size_t l = T.next[C[i]];
      chk(isNewHe(l), "each side of the face is joined to the new vertex by a new edge");
      size_t k = T.next[l];
      chk(isNewHe(k), "each side of the face is joined to the new vertex by a new edge");
      size_t g = cycle({C[i], l, k}, {S.vert[C[i]], S.vert[C[(i + 1) % C.size()]], n}, "each side of the face spans a triangle with the new vertex");
      if (g == f) kept++;
      else chk(isNewF(g), "the other triangles are new faces");
    }
    chk(kept == 1, "one triangle keeps the handle of the face");
    counts(1, C.size(), (long)C.size() - 1, 0);
    frame();
    vertsAlive();
    facesAlive();
  }
  void connect() {
    size_t f = pick("f", liveFaces(m));
    auto C = cyc(m.fHalfedgeArr[f]);
    size_t i = vf_size("i", 0, C.size() - 1), j = vf_size("j", 0, C.size() - 1);
    size_t hA = C[i], hB = C[j];
    bool ok = i != j && C[(i + 1) % C.size()] != hB && C[(j + 1) % C.size()] != hA;
    Halfedge he;
    bool threw = false;
    try {
      he = m.connectVertices(m.halfedge(hA), m.halfedge(hB));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw) {
      chk(!ok, "connecting non-adjacent corners succeeds");
      unchanged("a rejected connection changes nothing");
      return;
    }
    chk(ok, "adjacent or equal corners are rejected");
    if (!ok) return;
    size_t r = he.getIndex();
    chk(isNewHe(r), "the returned halfedge is new");
    std::vector<size_t> h1{r}, t1{S.vert[hA]}, h2{r ^ 1}, t2{S.vert[hB]};
    for (size_t k = j; k != i; k = (k + 1) % C.size()) h1.push_back(C[k]), t1.push_back(S.vert[C[k]]);
    for (size_t k = i; k != j; k = (k + 1) % C.size()) h2.push_back(C[k]), t2.push_back(S.vert[C[k]]);
    size_t f1 = cycle(h1, t1, "the first half of the face follows the new halfedge");
    size_t f2 = cycle(h2, t2, "the second half of the face follows its twin");
    chk(f1 == f && isNewF(f2), "the twin of the returned halfedge is in the new face");
    counts(0, 1, 1, 0);
    frame();
    vertsAlive();
    facesAlive();
  }
  void switchSides() {
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    vf_assume(!ext(h) && !ext(t));
    auto A = cyc(h), B = cyc(t);
    Halfedge he = m.switchHalfedgeSides(m.edge(e));
    post();
    chk(he.getIndex() == h, "the edge's halfedge is returned");
    auto sub = [&](const std::vector<size_t>& C) {
      std::vector<size_t> r;
      for (size_t x : C) r.push_back(x == h ? t : x == t ? h : x);
      return r;
    };
    chk(cycle(sub(A), tails2(A), "the first face is traversed through the other halfedge") == S.face[h], "the first face keeps its handle");
    chk(cycle(sub(B), tails2(B), "the second face is traversed through the other halfedge") == S.face[t], "the second face keeps its handle");
    counts(0, 0, 0, 0);
    frame();
    vertsAlive();
    facesAlive();
  }
  std::vector<size_t> tails2(const std::vector<size_t>& C) {
    std::vector<size_t> r;
    for (size_t x : C) r.push_back(S.vert[x]);
    return r;
  }
  void triangulate() {
    size_t f = pick("f", liveFaces(m));
    auto C = cyc(m.fHalfedgeArr[f]);
    vf_assume(C.size() >= 3);
    std::vector<Face> fs = m.triangulate(m.face(f));
    post();
    if (!(mode & EFFECT)) return;
    chk(fs.size() == C.size() - 2, "a face of degree n gives n-2 triangles");
    std::set<size_t> ids, hes;
    bool in = false;
    for (Face g : fs) {
      size_t k = g.getIndex();
      chk(ids.insert(k).second, "the returned faces are distinct");
      if (k == f) in = true;
      else chk(isNewF(k), "the other returned faces are new");
      auto c = faceCycle(m, m.fHalfedgeArr[k]);
      chk(c.size() == 3, "every returned face is a triangle");
      for (size_t x : c) {
        hes.insert(x);
        touched.insert(x);
        chk(T.face[x] == k, "every returned face is a triangle");
      }
    }
    chk(in, "the input face is one of the returned faces");
    for (size_t x : C) chk(hes.count(x) && T.vert[x] == S.vert[x], "the sides of the face survive");
    size_t nnew = 0;
    for (size_t x : hes) {
      if (x < S.next.size()) chk(std::find(C.begin(), C.end(), x) != C.end(), "only sides of the face and new halfedges bound the triangles");
      else {
        nnew++;
        chk(hes.count(x ^ 1), "both sides of a new edge are in returned faces");
      }
    }
    chk(nnew == 2 * (C.size() - 3), "n-3 diagonals are added");
    counts(0, (long)C.size() - 3, (long)C.size() - 3, 0);
    frame();
    vertsAlive();
    facesAlive();
  }
  void removeEdge() {
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    auto A = cyc(h), B = cyc(t);
    bool threw = false;
    Face g;
    try {
      g = m.removeEdge(m.edge(e));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw || g == Face()) {
      unchanged("a refused edge removal changes nothing");
      if (threw) chk(ext(h) || ext(t), "an interior edge is not rejected");
      else chk(S.face[h] == S.face[t], "an edge between two faces is removed");
      return;
    }
    chk(!ext(h) && !ext(t) && S.face[h] != S.face[t], "only an edge between two faces is removed");
    if (ext(h) || ext(t) || S.face[h] == S.face[t]) return;
    std::vector<size_t> hs(A.begin() + 1, A.end()), tl;
    hs.insert(hs.end(), B.begin() + 1, B.end());
    deleted = {h, t};
    size_t f = cycle(hs, tails2(hs), "the two faces are joined along the removed edge");
    chk(f == g.getIndex() && (f == S.face[h] || f == S.face[t]), "the joined face is returned and keeps a handle");
    counts(0, -1, -1, 0);
    frame();
    vertsAlive();
    facesAlive({f == S.face[h] ? S.face[t] : S.face[h]});
  }
  void removeVertex() {
    size_t v = pick("v", liveVerts(m));
    bool bdy = vBoundaryS(v);
    bool simp = true; // the ring is simple: distinct edges, distinct vertices, distinct faces
    std::vector<size_t> ring, out;
    std::set<size_t> es, vs{v}, fs;
    if (!bdy) {
      size_t h0 = m.vHalfedgeArr[v], h = h0;
      do {
        out.push_back(h);
        if (!es.insert(h / 2).second) simp = false;
        if (!fs.insert(S.face[h]).second) simp = false;
        h = prevS(h) ^ 1; // counter-clockwise
      } while (h != h0);
      for (size_t o : out) {
        auto c = cyc(o);
        if (c.size() < 3) simp = false;
        for (size_t k = 1; k + 1 < c.size(); k++) {
          ring.push_back(c[k]);
          if (!es.insert(c[k] / 2).second || !vs.insert(S.vert[c[k]]).second) simp = false;
        }
      }
    }
    vf_assume(ring.size() != 1); // no valid mesh has a face with a single side
    bool threw = false;
    Face g;
    try {
      g = m.removeVertex(m.vertex(v));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw || g == Face()) {
      unchanged("a refused vertex removal changes nothing");
      if (threw) chk(bdy, "an interior vertex is not rejected");
      else chk(!simp, "an interior vertex with a simple ring is removed");
      return;
    }
    chk(!bdy && simp, "only an interior vertex with a simple ring is removed");
    if (bdy || !simp) return;
    for (size_t o : out) deleted.insert(o), deleted.insert(o ^ 1);
    size_t f = cycle(ring, tails2(ring), "the ring of the vertex becomes one face");
    chk(f == g.getIndex() && fs.count(f), "the joined face is returned and keeps a handle");
    counts(-1, -(long)out.size(), 1 - (long)out.size(), 0);
    frame();
    vertsAlive(v);
    bool ok = true;
    for (size_t x : fs) ok = ok && ((T.fHe[x] != INV) == (x == f));
    chk(ok, "the other faces around the vertex are gone");
  }
  void removeFace() {
    size_t f = pick("f", liveFaces(m));
    auto C = cyc(m.fHalfedgeArr[f]);
    size_t nb = 0, hb = INV;
    for (size_t x : C)
      if (ext(x ^ 1)) nb++, hb = x;
    bool opp = false; // some other vertex of the face is on the boundary, or the face is glued to itself
    std::set<size_t> vs, es;
    for (size_t x : C) {
      if (!vs.insert(S.vert[x]).second || !es.insert(x / 2).second) opp = true;
      if (hb != INV && x != hb && x != S.next[hb] && vBoundaryS(S.vert[x])) opp = true;
    }
    auto F0 = facePolys(m), L0 = loopPolys(m);
    std::vector<size_t> loop;
    if (hb != INV) loop = cyc(hb ^ 1);
    bool threw = false, r = false;
    try {
      r = m.removeFaceAlongBoundary(m.face(f));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw || !r) {
      unchanged("a refused face removal changes nothing");
      if (threw) chk(nb == 0, "a boundary face is not rejected");
      else chk(nb != 1 || opp, "a face with one boundary edge and no other boundary vertex is removed");
      return;
    }
    chk(nb == 1 && !opp, "only a face with one boundary edge and no other boundary vertex is removed");
    if (!(nb == 1 && !opp) || !(mode & EFFECT)) return;
    F0.erase(F0.find(canon(tails2(C))));
    chk(facePolys(m) == F0, "the other faces keep their vertices");
    // loop: the halfedge hb^1 is replaced by the other sides of the face
    std::vector<size_t> nl;
    size_t at = std::find(C.begin(), C.end(), hb) - C.begin();
    for (size_t x : loop) {
      if (x != (hb ^ 1)) nl.push_back(S.vert[x]);
      else
        for (size_t k = 1; k < C.size(); k++) nl.push_back(S.vert[C[(at + k) % C.size()]]);
    }
    L0.erase(L0.find(canon(tails2(loop))));
    L0.insert(canon(nl));
    chk(loopPolys(m) == L0, "the boundary loop runs along the other sides of the face");
    deleted = {hb, hb ^ 1};
    for (size_t x : C)
      if (x != hb) touched.insert(x), touched.insert(x ^ 1), touched.insert(prevS(x ^ 1));
    for (size_t x : loop)
      if (x != (hb ^ 1)) touched.insert(x);
    frame();
    counts(0, -1, -1, 0);
    vertsAlive();
    facesAlive({f});
  }
  void separate() {
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    size_t a = S.vert[h], b = S.vert[t];
    bool ba = vBoundaryS(a), bb = vBoundaryS(b);
    vf_assume(a != b); // a self-edge cannot be cut open without splitting its vertex
    if (ba != bb && !simplicial(m)) vf_assume(false);
    auto A = cyc(h), B = cyc(t);
    bool threw = false;
    std::tuple<Halfedge, Halfedge> r;
    try {
      r = m.separateEdge(m.edge(e));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw) {
      unchanged("a rejected separation changes nothing");
      chk(ext(h) || ext(t) || (ba && bb), "an interior edge with an interior endpoint is separated");
      return;
    }
    chk(!ext(h) && !ext(t) && !(ba && bb), "only an interior edge with an interior endpoint is separated");
    if (ext(h) || ext(t) || (ba && bb)) return;
    if (!(mode & EFFECT)) return;
    size_t h1 = std::get<0>(r).getIndex(), h2 = std::get<1>(r).getIndex();
    chk(h1 < T.next.size() && h2 < T.next.size() && T.next[h1] != INV && T.next[h2] != INV, "the returned halfedges are live");
    chk(h1 / 2 != h2 / 2 && (h1 / 2 == e || h2 / 2 == e), "there are two copies of the edge, one of them the original");
    if (ba || bb) {
      size_t s = ba ? a : b;
      alias[s] = {S.vHe.size()};
    }
    auto sub = [&](const std::vector<size_t>& C) {
      std::vector<size_t> q;
      for (size_t x : C) q.push_back(x == h ? h1 : x == t ? h2 : x);
      return q;
    };
    chk(cycle(sub(A), tails2(A), "the first returned halfedge takes the place of the edge's halfedge") == S.face[h], "the first face keeps its handle");
    chk(cycle(sub(B), tails2(B), "the second returned halfedge takes the place of the twin") == S.face[t], "the second face keeps its handle");
    chk(T.face[h1 ^ 1] >= Snap::BASE && T.face[h2 ^ 1] >= Snap::BASE, "both copies are boundary edges");
    touched.insert(h1 ^ 1);
    touched.insert(h2 ^ 1);
    if (!ba && !bb) {
      chk(T.next[h1 ^ 1] == (h2 ^ 1) && T.next[h2 ^ 1] == (h1 ^ 1), "a new boundary loop runs along the two copies");
      counts(0, 1, 0, 1);
    } else {
      counts(1, 1, 0, 0);
      size_t s = ba ? a : b;
      size_t pb = INV; // the exterior halfedge into s
      for (size_t x = 0; x < S.next.size(); x++)
        if (S.next[x] != INV && ext(x) && S.vert[x ^ 1] == s) pb = x;
      size_t nb = S.next[pb];
      touched.insert(pb);
      chk(T.next[T.next[T.next[pb]]] == nb && std::set<size_t>({T.next[pb], T.next[T.next[pb]]}) == std::set<size_t>({h1 ^ 1, h2 ^ 1}) &&
              T.face[h1 ^ 1] == S.face[pb] && T.face[h2 ^ 1] == S.face[pb] && T.face[pb] == S.face[pb],
          "the boundary loop runs along the two copies of the edge");
      chk(T.vert[pb] == S.vert[pb] || alias.count(S.vert[pb]), "the boundary loop keeps its vertices");
    }
    frame();
    vertsAlive();
    facesAlive();
  }
  void collapse() {
    vf_assume(simplicial(m));
    size_t e = pick("e", liveEdges(m)), h = 2 * e, t = h + 1;
    size_t a = S.vert[h], b = S.vert[t];
    auto F0 = facePolys(m), L0 = loopPolys(m);
    bool bdy = ext(h) || ext(t);
    bool ba = vBoundaryS(a), bb = vBoundaryS(b);
    std::set<size_t> na = neighS(a), nb = neighS(b), common;
    for (size_t x : na)
      if (nb.count(x)) common.insert(x);
    Vertex v;
    bool threw = false;
    try {
      v = m.collapseEdgeTriangular(m.edge(e));
    } catch (std::runtime_error&) {
      threw = true;
    }
    post();
    if (threw || v == Vertex()) {
      unchanged("a refused collapse changes nothing");
      if (!bdy && !ba && !bb) {
        // link condition: the common neighbours are exactly the two opposite vertices, none of degree 3
        bool link = common.size() == 2;
        for (size_t x : common) link = link && degS(x) > 3;
        link = link && degS(a) > 3 && degS(b) > 3;
        chk(!link, "an interior edge satisfying the link condition is collapsed");
      }
      return;
    }
    if (!(mode & EFFECT)) return;
    size_t k = v.getIndex(), dd = INV;
    // the removed vertex: the only vertex that died
    for (size_t x = 0; x < S.vHe.size(); x++)
      if (S.vHe[x] != INV && T.vHe[x] == INV) { chk(dd == INV, "one vertex disappears"); dd = x; }
    chk(dd != INV && k < T.vHe.size() && T.vHe[k] != INV, "the surviving vertex is returned");
    if (dd == INV) return;
    chk((k == a || k == b) || bdy, "the surviving vertex is an endpoint of the edge");
    std::multiset<std::vector<size_t>> F1, L1;
    auto merge = [&](const std::multiset<std::vector<size_t>>& P, std::multiset<std::vector<size_t>>& Q, bool loop) {
      for (auto c : P) {
        std::vector<size_t> q;
        bool both = false;
        for (size_t i = 0; i < c.size(); i++) {
          size_t x = c[i], y = c[(i + 1) % c.size()];
          if ((x == dd && y == k) || (x == k && y == dd)) { both = true; continue; }
          q.push_back(x == dd ? k : x);
        }
        if (loop) for (size_t& z : q) if (z == dd) z = k;
        if (both && !loop) continue;
        Q.insert(canon(q));
      }
    };
    merge(F0, F1, false);
    merge(L0, L1, true);
    chk(facePolys(m) == F1, "the faces are those of the mesh with the two endpoints identified");
    chk(loopPolys(m) == L1, "the boundary loops are those of the mesh with the two endpoints identified");
    if (bdy) counts(-1, -2, -1, 0);
    else counts(-1, -3, -2, 0);
    vertsAlive(dd);
    // frame: faces that do not touch the removed faces keep their halfedges
    std::set<size_t> dirty;
    for (size_t x = 0; x < S.next.size(); x++)
      if (S.next[x] != INV && S.vert[x] == dd) {
        dirty.insert(x); dirty.insert(x ^ 1);
        for (size_t y : {x, x ^ 1}) { dirty.insert(S.next[y]); dirty.insert(prevS(y)); dirty.insert(S.next[y] ^ 1); dirty.insert(prevS(y) ^ 1); }
      }
    bool ok = true;
    for (size_t x = 0; x < S.next.size(); x++) {
      if (S.next[x] == INV || dirty.count(x)) continue;
      bool nearby = dirty.count(S.next[x]) || dirty.count(prevS(x));
      if (nearby) continue;
      if (T.next[x] != S.next[x] || T.vert[x] != S.vert[x] || T.face[x] != S.face[x]) ok = false;
    }
    chk(ok, "elements outside the edited neighbourhood are unchanged");
  }

  void finish() {
    if (mode & VALID) vf_assert(problem(m).empty(), problem(m).c_str());
    if (mode & COUNTS) {
      vf_assert(countProblem(m).empty(), countProblem(m).c_str());
    }
  }
};
static const int NOPS = 12;
inline void runOp(ManifoldSurfaceMesh& m, int op, int mode) {
  OpRun r(m, mode);
  switch (op) {
  case 0: r.flip(); break;
  case 1: r.insertAlong(false); break;
  case 2: r.insertAlong(true); break;
  case 3: r.insertVertex(); break;
  case 4: r.connect(); break;
  case 5: r.switchSides(); break;
  case 6: r.triangulate(); break;
  case 7: r.removeEdge(); break;
  case 8: r.removeVertex(); break;
  case 9: r.removeFace(); break;
  case 10: r.separate(); break;
  case 11: r.collapse(); break;
  }
  r.finish();
}
// a short random history of edits; used to reach meshes that no constructor yields
inline void history(ManifoldSurfaceMesh& m, size_t maxOps) {
  size_t n = vf_size("history", 0, maxOps);
  for (size_t i = 0; i < n; i++) {
    size_t op = vf_size("hop", 0, NOPS);
    if (op == NOPS) m.compress();
    else runOp(m, (int)op, 0);
    vf_assume(problem(m).empty()); // an edit that breaks the mesh is reported where it is the edit under test
  }
}
} // namespace zoo
