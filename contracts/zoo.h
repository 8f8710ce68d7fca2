// Native side of the mesh contracts: a family of small meshes, an independent validity oracle, snapshots.
// Used only where VF_NATIVE is defined (bounded stand-ins and witnesses); never counted as proof.
#pragma once
#include "vf.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <tuple>

namespace zoo {
using namespace geometrycentral;
using namespace geometrycentral::surface;
using std::size_t;
typedef std::vector<std::vector<size_t>> Polys;
typedef std::vector<std::vector<std::tuple<size_t, size_t>>> Twins;
static const size_t INV = INVALID_IND;

inline void fan(Polys& p, size_t c, const std::vector<size_t>& ring, bool closed) {
  for (size_t i = 0; i + (closed ? 0 : 1) < ring.size(); i++) p.push_back({c, ring[i], ring[(i + 1) % ring.size()]});
}
inline Polys grid(size_t n, size_t m, bool wrapN, bool wrapM, bool tri, std::set<size_t> holes = {}) {
  size_t vn = wrapN ? n : n + 1, vm = wrapM ? m : m + 1;
  auto id = [&](size_t i, size_t j) { return (i % vn) * vm + (j % vm); };
  Polys p;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++) {
      if (holes.count(i * m + j)) continue;
      if (tri) {
        p.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
        p.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      } else
        p.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
    }
  return p;
}
inline Polys renumber(const Polys& p) { // drop unused vertex ids
  std::map<size_t, size_t> m;
  for (auto& f : p)
    for (size_t v : f) m[v] = 0;
  size_t k = 0;
  for (auto& x : m) x.second = k++;
  Polys q = p;
  for (auto& f : q)
    for (size_t& v : f) v = m[v];
  return q;
}
inline Polys unite(Polys a, const Polys& b) {
  size_t n = 0;
  for (auto& f : a)
    for (size_t v : f) n = std::max(n, v + 1);
  for (auto f : b) {
    for (size_t& v : f) v += n;
    a.push_back(f);
  }
  return a;
}
// manifold, orientable polygon lists
inline std::vector<Polys>& manifoldPolys() {
  static std::vector<Polys> z;
  if (!z.empty()) return z;
  Polys tet{{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}};
  Polys oct{{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}, {5, 2, 1}, {5, 3, 2}, {5, 4, 3}, {5, 1, 4}};
  Polys cube{{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}};
  Polys prism{{0, 1, 2}, {3, 5, 4}, {0, 3, 4, 1}, {1, 4, 5, 2}, {2, 5, 3, 0}};
  z.push_back({{0, 1, 2}});                         // 0 triangle
  z.push_back({{0, 1, 2, 3}});                      // 1 quad
  z.push_back({{0, 1, 2}, {2, 1, 3}});              // 2 two triangles
  z.push_back(tet);                                 // 3
  z.push_back(oct);                                 // 4
  z.push_back(cube);                                // 5
  z.push_back(prism);                               // 6
  { Polys p; fan(p, 0, {1, 2, 3}, true); z.push_back(p); }          // 7 degree-3 disk
  { Polys p; fan(p, 0, {1, 2, 3, 4, 5}, true); z.push_back(p); }    // 8 degree-5 disk
  { Polys p; fan(p, 0, {1, 2, 3, 4}, false); z.push_back(p); }      // 9 open fan
  { Polys p = tet; p.pop_back(); z.push_back(p); }                  // 10 tet minus a face
  { Polys p = cube; p.erase(p.begin()); p.erase(p.begin()); z.push_back(p); } // 11 annulus
  z.push_back(renumber(grid(3, 3, false, false, true, {4})));       // 12 annulus with triangles
  z.push_back(renumber(grid(3, 5, false, false, false, {6, 8})));   // 13 two holes, quads
  z.push_back(grid(3, 3, true, true, true));                        // 14 torus
  z.push_back(grid(3, 3, true, true, false));                       // 15 torus, quads
  z.push_back(unite(tet, {{0, 1, 2}, {2, 1, 3}}));                  // 16 two components
  z.push_back({{0, 1, 2, 3, 4}, {1, 0, 5}, {4, 3, 6, 7}});          // 17 mixed degrees
  z.push_back({{0, 1, 2, 3, 4, 5, 6}});                             // 18 heptagon
  z.push_back(grid(2, 3, false, false, true));                      // 19 grid
  z.push_back(renumber(grid(3, 5, true, false, true, {6, 8})));     // 20 tube with holes
  z.push_back(unite({{0, 1, 2}}, {{0, 1, 2, 3}}));                  // 21 two disks
  { // 22 icosahedron
    Polys p;
    for (size_t i = 0; i < 5; i++) {
      size_t j = (i + 1) % 5;
      p.push_back({0, 1 + i, 1 + j});
      p.push_back({1 + i, 6 + i, 1 + j});
      p.push_back({6 + i, 6 + j, 1 + j});
      p.push_back({11, 6 + j, 6 + i});
    }
    z.push_back(p);
  }
  { Polys p = oct; p.erase(p.begin() + 6); p.erase(p.begin()); z.push_back(p); } // 23 octahedron minus two opposite faces
  z.push_back(grid(3, 3, false, false, false));                     // 24 quad grid
  z.push_back(grid(3, 4, false, false, true));                      // 25 triangle grid
  z.push_back({{0, 1, 2, 3, 4}, {5, 1, 0}, {5, 0, 4}, {5, 4, 3}, {5, 3, 6}, {6, 3, 2}}); // 26 pentagon with an open ring
  return z;
}
// glued Delta-complexes (self-glued faces, self-edges): polygons plus explicit twins
inline std::vector<std::pair<Polys, Twins>>& glued() {
  static std::vector<std::pair<Polys, Twins>> z;
  if (!z.empty()) return z;
  const size_t N = INV;
  typedef std::tuple<size_t, size_t> T;
  // torus with one vertex from one quad
  z.push_back({{{0, 0, 0, 0}}, {{T(0, 2), T(0, 3), T(0, 0), T(0, 1)}}});
  // torus with one vertex from two triangles
  z.push_back({{{0, 0, 0}, {0, 0, 0}}, {{T(1, 0), T(1, 1), T(1, 2)}, {T(0, 0), T(0, 1), T(0, 2)}}});
  // one quad with two adjacent sides glued: cone (degree-1 vertex), two boundary edges
  z.push_back({{{0, 1, 2, 1}}, {{T(N, N), T(0, 2), T(0, 1), T(N, N)}}});
  // sphere from two triangles glued along all sides
  z.push_back({{{0, 1, 2}, {1, 0, 2}}, {{T(1, 0), T(1, 2), T(1, 1)}, {T(0, 0), T(0, 2), T(0, 1)}}});
  // two cones glued along the rim: sphere with two degree-1 vertices
  z.push_back({{{0, 1, 1}, {2, 1, 1}}, {{T(0, 2), T(1, 1), T(0, 0)}, {T(1, 2), T(0, 1), T(1, 0)}}});
  // annulus from one hexagon
  z.push_back({{{0, 1, 0, 2, 3, 2}}, {{T(N, N), T(N, N), T(0, 5), T(N, N), T(N, N), T(0, 2)}}});
  return z;
}

inline std::string str(const std::vector<size_t>& v) {
  std::ostringstream o;
  for (size_t x : v) o << (x == INV ? std::string("-") : std::to_string(x)) << " ";
  return o.str();
}

// ------------------------------------------------------------------------------------------------ snapshots
struct Snap {
  std::vector<size_t> next, vert, face, sib, edge, vHe, fHe, eHe; // face and fHe with boundary loops as cap-independent ids (BASE + loop)
  std::vector<char> orient;
  size_t nV, nE, nF, nH, nI, nB, tick;
  static constexpr size_t BASE = 1000000;
};
inline Snap snap(SurfaceMesh& m) {
  Snap s;
  size_t H = m.nHalfedgesFillCount;
  for (size_t h = 0; h < H; h++) {
    bool dead = m.heNextArr[h] == INV;
    s.next.push_back(m.heNextArr[h]);
    s.vert.push_back(dead ? INV : m.heVertexArr[h]);
    size_t f = m.heFaceArr[h];
    if (!dead && f != INV && f >= m.nFacesFillCount) f = Snap::BASE + (m.nFacesCapacityCount - 1 - f);
    s.face.push_back(dead ? INV : f);
    s.sib.push_back(dead ? INV : (m.useImplicitTwinFlag ? (h ^ 1) : m.heSiblingArr[h]));
    s.edge.push_back(dead ? INV : (m.useImplicitTwinFlag ? h / 2 : m.heEdgeArr[h]));
    if (!m.useImplicitTwinFlag) s.orient.push_back(m.heOrientArr[h]);
  }
  for (size_t v = 0; v < m.nVerticesFillCount; v++) s.vHe.push_back(m.vHalfedgeArr[v]);
  for (size_t f = 0; f < m.nFacesFillCount; f++) s.fHe.push_back(m.fHalfedgeArr[f]);
  for (size_t b = 0; b < m.nBoundaryLoopsFillCount; b++) s.eHe.push_back(m.fHalfedgeArr[m.nFacesCapacityCount - 1 - b]);
  s.nV = m.nVerticesCount; s.nE = m.nEdgesCount; s.nF = m.nFacesCount; s.nH = m.nHalfedgesCount;
  s.nI = m.nInteriorHalfedgesCount; s.nB = m.nBoundaryLoopsCount; s.tick = 0;
  return s;
}
inline bool sameConn(const Snap& a, const Snap& b) {
  return a.next == b.next && a.vert == b.vert && a.face == b.face && a.sib == b.sib && a.edge == b.edge && a.vHe == b.vHe && a.fHe == b.fHe &&
         a.eHe == b.eHe && a.orient == b.orient && a.nV == b.nV && a.nE == b.nE && a.nF == b.nF && a.nH == b.nH && a.nI == b.nI && a.nB == b.nB;
}

// ------------------------------------------------------------------------------------------------ validity oracle
// counts agree with liveness (C03)
inline std::string countProblem(SurfaceMesh& m) {
  size_t H = 0, I = 0, V = 0, F = 0, B = 0, E = 0;
#define REQ(c, msg) do { if (!(c)) return msg; } while (0)
  REQ(m.nHalfedgesFillCount <= m.nHalfedgesCapacityCount, "halfedges used <= allocated");
  REQ(m.nVerticesFillCount <= m.nVerticesCapacityCount, "vertices used <= allocated");
  REQ(m.nEdgesFillCount <= m.nEdgesCapacityCount, "edges used <= allocated");
  REQ(m.nFacesFillCount + m.nBoundaryLoopsFillCount <= m.nFacesCapacityCount, "faces and loops used <= allocated");
  REQ(m.heNextArr.size() >= m.nHalfedgesCapacityCount && m.heVertexArr.size() >= m.nHalfedgesCapacityCount && m.heFaceArr.size() >= m.nHalfedgesCapacityCount, "halfedge storage covers the capacity");
  REQ(m.vHalfedgeArr.size() >= m.nVerticesCapacityCount, "vertex storage covers the capacity");
  REQ(m.fHalfedgeArr.size() == m.nFacesCapacityCount, "face storage equals the capacity");
  if (!m.useImplicitTwinFlag) {
    REQ(m.heSiblingArr.size() >= m.nHalfedgesCapacityCount && m.heEdgeArr.size() >= m.nHalfedgesCapacityCount && m.heOrientArr.size() >= m.nHalfedgesCapacityCount &&
        m.heVertInNextArr.size() >= m.nHalfedgesCapacityCount && m.heVertInPrevArr.size() >= m.nHalfedgesCapacityCount &&
        m.heVertOutNextArr.size() >= m.nHalfedgesCapacityCount && m.heVertOutPrevArr.size() >= m.nHalfedgesCapacityCount, "explicit-twin halfedge storage covers the capacity");
    REQ(m.eHalfedgeArr.size() >= m.nEdgesCapacityCount, "edge storage covers the capacity");
    REQ(m.vHeInStartArr.size() >= m.nVerticesCapacityCount && m.vHeOutStartArr.size() >= m.nVerticesCapacityCount, "vertex list storage covers the capacity");
  }
  std::set<size_t> edges;
  for (size_t h = 0; h < m.nHalfedgesFillCount; h++)
    if (m.heNextArr[h] != INV) {
      H++;
      if (m.heFaceArr[h] < m.nFacesFillCount) I++;
      edges.insert(m.useImplicitTwinFlag ? h / 2 : m.heEdgeArr[h]);
    }
  for (size_t v = 0; v < m.nVerticesFillCount; v++) V += m.vHalfedgeArr[v] != INV;
  for (size_t f = 0; f < m.nFacesFillCount; f++) F += m.fHalfedgeArr[f] != INV;
  for (size_t b = 0; b < m.nBoundaryLoopsFillCount; b++) B += m.fHalfedgeArr[m.nFacesCapacityCount - 1 - b] != INV;
  E = edges.size();
  REQ(m.nHalfedges() == H, "nHalfedges() counts the live halfedges");
  REQ(m.nInteriorHalfedges() == I, "nInteriorHalfedges() counts the live interior halfedges");
  REQ(m.nCorners() == I, "nCorners() counts the live corners");
  REQ(m.nExteriorHalfedges() == H - I, "nExteriorHalfedges() counts the live exterior halfedges");
  REQ(m.nVertices() == V, "nVertices() counts the live vertices");
  REQ(m.nEdges() == E, "nEdges() counts the live edges");
  REQ(m.nFaces() == F, "nFaces() counts the live faces");
  REQ(m.nBoundaryLoops() == B, "nBoundaryLoops() counts the live boundary loops");
  return "";
}
// connectivity of a manifold mesh (C01)
inline std::string problem(ManifoldSurfaceMesh& m) {
  size_t H = m.nHalfedgesFillCount, V = m.nVerticesFillCount, FC = m.nFacesCapacityCount;
  REQ(H % 2 == 0 && m.nEdgesFillCount * 2 == H, "halfedges come in pairs");
  auto& nx = m.heNextArr;
  auto& ve = m.heVertexArr;
  auto& fa = m.heFaceArr;
  std::vector<char> img(H, 0);
  std::vector<size_t> vdeg(V, 0), fdeg(FC, 0);
  auto liveFace = [&](size_t f) { return f < FC && (f < m.nFacesFillCount || f >= FC - m.nBoundaryLoopsFillCount) && m.fHalfedgeArr[f] != INV; };
  for (size_t h = 0; h < H; h++) {
    if (nx[h] == INV) {
      REQ(nx[h ^ 1] == INV, "twins are live together");
      continue;
    }
    REQ(nx[h ^ 1] != INV, "twins are live together");
    REQ(nx[h] < H && nx[nx[h]] != INV, "the successor is a live halfedge");
    REQ(!img[nx[h]], "successor is injective");
    img[nx[h]] = 1;
    REQ(ve[h] < V && m.vHalfedgeArr[ve[h]] != INV, "the tail is a live vertex");
    REQ(liveFace(fa[h]), "the face is a live face or boundary loop");
    vdeg[ve[h]]++;
    fdeg[fa[h]]++;
  }
  for (size_t h = 0; h < H; h++) {
    if (nx[h] == INV) continue;
    REQ(ve[nx[h]] == ve[h ^ 1], "tail of the successor is the tip");
    REQ(fa[nx[h]] == fa[h], "successor stays in the face");
    REQ(fa[h] < m.nFacesFillCount || fa[h ^ 1] < m.nFacesFillCount, "an edge has an interior side");
    if (!(h & 1)) REQ(fa[h] < m.nFacesFillCount, "an edge stores an interior halfedge");
  }
  for (size_t f = 0; f < FC; f++) {
    if (!liveFace(f)) continue;
    size_t h0 = m.fHalfedgeArr[f];
    REQ(h0 < H && nx[h0] != INV && fa[h0] == f, "a face stores a live halfedge of its own");
    size_t n = 0, h = h0;
    do { n++; h = nx[h]; } while (h != h0 && n <= H);
    REQ(n == fdeg[f], f < m.nFacesFillCount ? "a face is one cycle" : "a boundary loop is one cycle");
    REQ(n >= 2, "a face or boundary loop has at least two sides");
  }
  for (size_t v = 0; v < V; v++) {
    size_t h0 = m.vHalfedgeArr[v];
    if (h0 == INV) continue;
    REQ(h0 < H && nx[h0] != INV && ve[h0] == v, "a vertex stores a live halfedge of its own");
    size_t n = 0, h = h0;
    bool bdy = false;
    do { n++; if (fa[h] >= m.nFacesFillCount) bdy = true; h = nx[h ^ 1]; } while (h != h0 && n <= H);
    REQ(n == vdeg[v], "a vertex is one cycle of halfedges");
    if (bdy) REQ(fa[h0] < m.nFacesFillCount && fa[h0 ^ 1] >= m.nFacesFillCount, "a boundary vertex stores the first halfedge of its interior fan");
  }
  return "";
}
// connectivity of a general mesh (C16)
inline std::string problemGeneral(SurfaceMesh& m) {
  size_t H = m.nHalfedgesFillCount, V = m.nVerticesFillCount, FC = m.nFacesFillCount;
  auto& nx = m.heNextArr;
  auto& ve = m.heVertexArr;
  auto& fa = m.heFaceArr;
  std::vector<char> img(H, 0);
  std::vector<size_t> fdeg(FC, 0), odeg(V, 0), ideg(V, 0), edeg(m.nEdgesFillCount, 0);
  for (size_t h = 0; h < H; h++) {
    if (nx[h] == INV) continue;
    REQ(nx[h] < H && nx[nx[h]] != INV, "the successor is a live halfedge");
    REQ(!img[nx[h]], "successor is injective");
    img[nx[h]] = 1;
    REQ(ve[h] < V && m.vHalfedgeArr[ve[h]] != INV, "the tail is a live vertex");
    REQ(fa[h] < FC && m.fHalfedgeArr[fa[h]] != INV, "the face is a live face");
    REQ(m.heEdgeArr[h] < m.nEdgesFillCount && m.eHalfedgeArr[m.heEdgeArr[h]] != INV, "the edge is a live edge");
    odeg[ve[h]]++;
    fdeg[fa[h]]++;
    edeg[m.heEdgeArr[h]]++;
  }
  for (size_t h = 0; h < H; h++) {
    if (nx[h] == INV) continue;
    REQ(fa[nx[h]] == fa[h], "successor stays in the face");
    ideg[ve[nx[h]]]++;
    size_t s = m.heSiblingArr[h];
    REQ(s < H && nx[s] != INV && m.heEdgeArr[s] == m.heEdgeArr[h], "the sibling is a live halfedge of the same edge");
    size_t a = ve[h], b = ve[nx[h]], c = ve[s], d = ve[nx[s]];
    REQ((a == c && b == d) || (a == d && b == c), "siblings join the same vertices");
    if (a != b) REQ((a == c) == (m.heOrientArr[h] == m.heOrientArr[s]), "orientation flags agree with the vertex order");
  }
  for (size_t f = 0; f < FC; f++) {
    size_t h0 = m.fHalfedgeArr[f];
    if (h0 == INV) continue;
    REQ(h0 < H && nx[h0] != INV && fa[h0] == f, "a face stores a live halfedge of its own");
    size_t n = 0, h = h0;
    do { n++; h = nx[h]; } while (h != h0 && n <= H);
    REQ(n == fdeg[f], "a face is one cycle");
  }
  for (size_t e = 0; e < m.nEdgesFillCount; e++) {
    size_t h0 = m.eHalfedgeArr[e];
    if (h0 == INV) continue;
    REQ(h0 < H && nx[h0] != INV && m.heEdgeArr[h0] == e, "an edge stores a live halfedge of its own");
    size_t n = 0, h = h0;
    do { n++; h = m.heSiblingArr[h]; } while (h != h0 && n <= H);
    REQ(n == edeg[e], "the halfedges of an edge form one sibling cycle");
  }
  for (size_t v = 0; v < V; v++) {
    size_t h0 = m.vHalfedgeArr[v];
    if (h0 == INV) continue;
    REQ(h0 < H && nx[h0] != INV && ve[h0] == v, "a vertex stores a live halfedge of its own");
    for (int out = 0; out < 2; out++) {
      auto& N = out ? m.heVertOutNextArr : m.heVertInNextArr;
      auto& P = out ? m.heVertOutPrevArr : m.heVertInPrevArr;
      size_t s = (out ? m.vHeOutStartArr : m.vHeInStartArr)[v];
      REQ(s < H && nx[s] != INV, "a vertex list starts at a live halfedge");
      size_t n = 0, h = s;
      do {
        REQ(h < H && nx[h] != INV && (out ? ve[h] : ve[nx[h]]) == v, "a vertex list holds halfedges of that vertex");
        REQ(N[h] < H && P[N[h]] == h, "vertex list links are mutually consistent");
        n++;
        h = N[h];
      } while (h != s && n <= H);
      REQ(n == (out ? odeg[v] : ideg[v]), out ? "the outgoing halfedges of a vertex form one list" : "the incoming halfedges of a vertex form one list");
    }
  }
  return "";
}
#undef REQ

// simplicial: triangles, distinct vertices, at most one edge per vertex pair
inline bool simplicial(SurfaceMesh& m) {
  std::map<std::pair<size_t, size_t>, size_t> e;
  for (size_t h = 0; h < m.nHalfedgesFillCount; h++) {
    if (m.heNextArr[h] == INV) continue;
    size_t a = m.heVertexArr[h], n = m.heNextArr[h], b = m.heVertexArr[n];
    if (a == b) return false;
    size_t ed = m.useImplicitTwinFlag ? h / 2 : m.heEdgeArr[h];
    auto k = std::make_pair(std::min(a, b), std::max(a, b));
    auto it = e.find(k);
    if (it != e.end() && it->second != ed) return false;
    e[k] = ed;
    if (m.heFaceArr[h] < m.nFacesFillCount && m.heNextArr[m.heNextArr[n]] != h) return false;
  }
  return true;
}

// ------------------------------------------------------------------------------------------------ picking elements
inline size_t pick(const char* name, const std::vector<size_t>& v) {
  vf_assume(!v.empty());
  return v[vf_size(name, 0, v.size() - 1)];
}
inline std::vector<size_t> liveEdges(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t e = 0; e < m.nEdgesFillCount; e++)
    if (m.useImplicitTwinFlag ? m.heNextArr[2 * e] != INV : m.eHalfedgeArr[e] != INV) r.push_back(e);
  return r;
}
inline std::vector<size_t> liveFaces(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t f = 0; f < m.nFacesFillCount; f++)
    if (m.fHalfedgeArr[f] != INV) r.push_back(f);
  return r;
}
inline std::vector<size_t> liveVerts(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t f = 0; f < m.nVerticesFillCount; f++)
    if (m.vHalfedgeArr[f] != INV) r.push_back(f);
  return r;
}
inline std::vector<size_t> liveHes(SurfaceMesh& m) {
  std::vector<size_t> r;
  for (size_t f = 0; f < m.nHalfedgesFillCount; f++)
    if (m.heNextArr[f] != INV) r.push_back(f);
  return r;
}
inline std::vector<size_t> faceCycle(SurfaceMesh& m, size_t h0) { // halfedges of the face cycle through h0
  std::vector<size_t> r;
  size_t h = h0;
  do { r.push_back(h); h = m.heNextArr[h]; } while (h != h0 && r.size() <= m.nHalfedgesFillCount);
  return r;
}
inline std::vector<size_t> tails(SurfaceMesh& m, const std::vector<size_t>& hs) {
  std::vector<size_t> r;
  for (size_t h : hs) r.push_back(m.heVertexArr[h]);
  return r;
}
inline std::vector<size_t> canon(std::vector<size_t> c) { // cyclic word up to rotation
  std::vector<size_t> best = c;
  for (size_t i = 1; i < c.size(); i++) {
    std::rotate(c.begin(), c.begin() + 1, c.end());
    if (c < best) best = c;
  }
  return best;
}
// all faces as vertex cycles (multiset), and all boundary loops
inline std::multiset<std::vector<size_t>> facePolys(SurfaceMesh& m) {
  std::multiset<std::vector<size_t>> r;
  for (size_t f : liveFaces(m)) r.insert(canon(tails(m, faceCycle(m, m.fHalfedgeArr[f]))));
  return r;
}
inline std::multiset<std::vector<size_t>> loopPolys(SurfaceMesh& m) {
  std::multiset<std::vector<size_t>> r;
  for (size_t b = 0; b < m.nBoundaryLoopsFillCount; b++) {
    size_t h = m.fHalfedgeArr[m.nFacesCapacityCount - 1 - b];
    if (h != INV) r.insert(canon(tails(m, faceCycle(m, h))));
  }
  return r;
}

// ------------------------------------------------------------------------------------------------ arbitrary meshes
// a glued complex built straight from the connectivity arrays (self-edges, degree-1 vertices, self-glued faces)
inline std::unique_ptr<ManifoldSurfaceMesh> rawGlued(const Polys& polys, const Twins& tw) {
  std::vector<std::vector<size_t>> id(polys.size());
  size_t H = 0;
  for (size_t f = 0; f < polys.size(); f++) id[f].assign(polys[f].size(), INV);
  std::vector<char> ext;
  for (size_t f = 0; f < polys.size(); f++)
    for (size_t j = 0; j < polys[f].size(); j++) {
      if (id[f][j] != INV) continue;
      id[f][j] = H;
      size_t g = std::get<0>(tw[f][j]), k = std::get<1>(tw[f][j]);
      if (g != INV) id[g][k] = H + 1;
      H += 2;
    }
  size_t nV = 0, nF = polys.size();
  for (auto& p : polys)
    for (size_t v : p) nV = std::max(nV, v + 1);
  std::vector<size_t> next(H, INV), vert(H, INV), face(H, INV), vHe(nV, INV), fHe(nF, INV);
  for (size_t f = 0; f < nF; f++) {
    size_t d = polys[f].size();
    fHe[f] = id[f][0];
    for (size_t j = 0; j < d; j++) {
      size_t h = id[f][j];
      next[h] = id[f][(j + 1) % d];
      vert[h] = polys[f][j];
      face[h] = f;
      if (vHe[vert[h]] == INV) vHe[vert[h]] = h;
    }
  }
  size_t nB = 0;
  std::vector<size_t> loops;
  for (size_t h0 = 0; h0 < H; h0++) {
    if (face[h0] != INV) continue;
    // walk the boundary loop through the exterior halfedge h0
    size_t h = h0;
    do {
      face[h] = 1000 + nB;
      size_t t = h ^ 1; // interior; the tip of h is the tail of t
      vert[h] = vert[next[t]];
      vHe[vert[t]] = t;
      size_t x = t; // successor: rotate around the tail of t
      while (true) {
        size_t p = x;
        while (next[p] != x) p = next[p]; // predecessor in the face
        x = p ^ 1;
        if (face[x] == INV || face[x] >= 1000) break;
      }
      next[h] = x;
      h = x;
    } while (h != h0);
    loops.push_back(h0);
    nB++;
  }
  for (size_t b = 0; b < nB; b++) fHe.push_back(INV);
  size_t FC = fHe.size();
  for (size_t b = 0; b < nB; b++) fHe[FC - 1 - b] = loops[b];
  for (size_t h = 0; h < H; h++)
    if (face[h] >= 1000) face[h] = FC - 1 - (face[h] - 1000);
  return std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(next, vert, face, vHe, fHe, nB));
}
inline std::unique_ptr<ManifoldSurfaceMesh> baseMesh(const char* name = "mesh") {
  auto& P = manifoldPolys();
  auto& G = glued();
  size_t k = vf_size(name, 0, P.size() + G.size() - 1);
  try {
    if (k < P.size()) return std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(P[k]));
    auto& g = G[k - P.size()];
    return rawGlued(g.first, g.second);
  } catch (std::exception& e) {
    vf_assert(false, (std::string("zoo mesh ") + std::to_string(k) + " is accepted: " + e.what()).c_str());
  }
  return nullptr;
}
// ------------------------------------------------------------------------------------------------ general meshes
inline std::vector<Polys>& generalPolys() {
  static std::vector<Polys> z;
  if (!z.empty()) return z;
  z = manifoldPolys();
  z.push_back({{0, 1, 2}, {0, 1, 3}, {1, 0, 4}});                       // three faces on one edge
  z.push_back({{0, 1, 2}, {0, 3, 4}});                                  // bowtie
  z.push_back({{0, 1, 2}, {1, 2, 3}});                                  // two triangles of opposite orientation
  z.push_back({{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 0, 4}, {4, 0, 1}}); // strip of five triangles
  z.push_back({{0, 1, 2}, {1, 2, 3}, {2, 3, 4}, {3, 4, 0}, {4, 0, 1}}); // Moebius
  z.push_back({{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}, {0, 1, 4}, {0, 5, 1}, {0, 4, 5}, {1, 5, 4}}); // two tets on an edge
  z.push_back({{0, 1, 2}, {0, 1, 2}});                                  // a face twice
  z.push_back({{0, 1, 2}, {0, 2, 1}, {0, 1, 2}});                       // three faces on the same vertices
  z.push_back({{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}, {0, 4, 5}, {0, 6, 4}, {0, 5, 6}, {4, 6, 5}}); // two tets at a vertex
  z.push_back({{0, 1, 2, 3}, {1, 0, 4}, {0, 1, 5}, {2, 1, 6}});
  z.push_back({{0, 1, 2}, {3, 4, 5}, {0, 3, 6}});
  return z;
}
inline std::unique_ptr<SurfaceMesh> baseGeneral() {
  auto& P = generalPolys();
  size_t k = vf_size("general", 0, P.size() + 14);
  if (k < P.size()) return std::unique_ptr<SurfaceMesh>(new SurfaceMesh(P[k]));
  // polygon soup
  size_t nv = vf_size("soupV", 3, 7), nf = vf_size("soupF", 1, 7);
  Polys p;
  for (size_t i = 0; i < nf; i++) {
    size_t d = std::min(nv, (size_t)(vf_bool("quad") ? 4 : 3));
    std::vector<size_t> f;
    std::vector<size_t> left;
    for (size_t v = 0; v < nv; v++) left.push_back(v);
    while (f.size() < d) {
      size_t i = vf_size("corner", 0, left.size() - 1);
      f.push_back(left[i]);
      left.erase(left.begin() + i);
    }
    p.push_back(f);
  }
  return std::unique_ptr<SurfaceMesh>(new SurfaceMesh(renumber(p)));
}
// a general triangle mesh
inline std::unique_ptr<SurfaceMesh> triGeneral() {
  auto& P = generalPolys();
  size_t k = vf_size("general", 0, P.size() + 14);
  Polys p;
  if (k < P.size()) {
    for (auto& f : P[k])
      for (size_t i = 1; i + 1 < f.size(); i++) p.push_back({f[0], f[i], f[i + 1]});
  } else {
    size_t nv = vf_size("soupV", 3, 6), nf = vf_size("soupF", 1, 8);
    for (size_t i = 0; i < nf; i++) {
      size_t x = vf_size("a", 0, nv - 1), y = vf_size("b", 0, nv - 2), z = vf_size("c", 0, nv - 3);
      std::vector<size_t> f{x};
      if (y >= x) y++;
      f.push_back(y);
      for (size_t v = 0; v < nv; v++)
        if (v != x && v != y && z-- == 0) f.push_back(v);
      p.push_back(f);
    }
  }
  return std::unique_ptr<SurfaceMesh>(new SurfaceMesh(renumber(p)));
}
} // namespace zoo
