#pragma once
#include "symmesh.h"
namespace sm {
// exact positions on the cycle of a vertex / face: the stored halfedge is last
struct Ring {
  std::vector<size_t> pos, inv, base, deg; // vertex
  std::vector<size_t> fpos, finv, fbase, fdeg;
  AM* a;
  size_t rel(size_t h, size_t x) { // steps from h to x around their common tail
    size_t d = deg[a->ve[h]], p = pos[h], q = pos[x];
    return vf_ite(q <= p, p - q, p + d - q);
  }
  size_t frel(size_t h, size_t x) {
    size_t d = fdeg[a->fa[h]], p = fpos[h], q = fpos[x];
    return vf_ite(q <= p, p - q, p + d - q);
  }
};
#ifdef VF_NATIVE
static Ring* rings(AM& a) {
  Ring* r = new Ring();
  r->a = &a;
  size_t H = a.nx.size();
  r->pos.assign(H, 0); r->inv.assign(H, 0); r->fpos.assign(H, 0); r->finv.assign(H, 0);
  r->base.assign(a.vh.size(), 0); r->deg = r->base; r->fbase.assign(a.fh.size(), 0); r->fdeg = r->fbase;
  size_t k = 0;
  for (size_t v = 0; v < a.V; v++) {
    if (a.vh[v] == NONE) continue;
    std::vector<size_t> c;
    for (size_t h = a.nx[a.vh[v] ^ 1];; h = a.nx[h ^ 1]) { c.push_back(h); if (h == a.vh[v]) break; }
    r->base[v] = k; r->deg[v] = c.size();
    for (size_t i = 0; i < c.size(); i++) { r->pos[c[i]] = k + c.size() - 1 - i; r->inv[r->pos[c[i]]] = c[i]; }
    k += c.size();
  }
  k = 0;
  for (size_t f = 0; f < a.C; f++) {
    if (!a.faceOk(f) || a.fh[f] == NONE) continue;
    std::vector<size_t> c;
    for (size_t h = a.nx[a.fh[f]];; h = a.nx[h]) { c.push_back(h); if (h == a.fh[f]) break; }
    r->fbase[f] = k; r->fdeg[f] = c.size();
    for (size_t i = 0; i < c.size(); i++) { r->fpos[c[i]] = k + c.size() - 1 - i; r->finv[r->fpos[c[i]]] = c[i]; }
    k += c.size();
  }
  return r;
}
#else
static bool axPos(void* c, size_t h) {
  Ring& r = *(Ring*)c;
  AM& a = *r.a;
  size_t v = a.ve[h], b = r.base[v], d = r.deg[v], p = r.pos[h];
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv, (b <= p) & (p < b + d) & (b < (1ul << 44)) & (d < (1ul << 44)) & (r.inv[p] == h) & (r.pos[a.nx[h ^ 1]] == vf_ite(h == a.vh[v], b + d - 1, p - 1)) & ((h == a.vh[v]) == (p == b)));
}
static bool axFpos(void* c, size_t h) {
  Ring& r = *(Ring*)c;
  AM& a = *r.a;
  size_t f = a.fa[h], b = r.fbase[f], d = r.fdeg[f], p = r.fpos[h];
  bool lv = (h < a.H) & (a.nx[h] != NONE);
  return imp(lv, (b <= p) & (p < b + d) & (b < (1ul << 44)) & (d < (1ul << 44)) & (r.finv[p] == h) & (r.fpos[a.nx[h]] == vf_ite(h == a.fh[f], b + d - 1, p - 1)) & ((h == a.fh[f]) == (p == b)));
}
static Ring* rings(AM& a) {
  Ring* r = new Ring();
  r->a = &a;
  size_t L = a.m().heNextArr.size(), CV = a.m().nVerticesCapacityCount;
  vf_sym_sizes(&r->pos, "pos", L); vf_sym_sizes(&r->inv, "inv", 1ul << 46); vf_sym_sizes(&r->base, "base", CV); vf_sym_sizes(&r->deg, "deg", CV);
  vf_sym_sizes(&r->fpos, "fpos", L); vf_sym_sizes(&r->finv, "finv", 1ul << 46); vf_sym_sizes(&r->fbase, "fbase", a.C); vf_sym_sizes(&r->fdeg, "fdeg", a.C);
  vf_forall("pos", axPos, r);
  vf_forall("fpos", axFpos, r);
  return r;
}
#endif
} // namespace sm
