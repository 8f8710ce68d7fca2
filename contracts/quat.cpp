// C09: quaternions form the Hamilton algebra.
#include "vf.h"
#include "geometrycentral/utilities/quaternion.h"
using namespace geometrycentral;

struct Q { double s, x, y, z; };
static Q q4(const char* a, const char* b, const char* c, const char* d) {
  Q q; q.s = vf_real(a); q.x = vf_real(b); q.y = vf_real(c); q.z = vf_real(d); return q;
}
static Quaternion mk(Q a) { return Quaternion(a.s, a.x, a.y, a.z); }
#define EQ(R, S, X, Y, Z, L) do { Quaternion r_ = (R); vf_eq(r_.re(), (S), L " re"); vf_eq(r_.im().x, (X), L " i"); vf_eq(r_.im().y, (Y), L " j"); vf_eq(r_.im().z, (Z), L " k"); } while (0)
// Hamilton's rules i^2=j^2=k^2=ijk=-1
static Q ham(Q a, Q b) {
  return Q{a.s * b.s - a.x * b.x - a.y * b.y - a.z * b.z, a.s * b.x + a.x * b.s + a.y * b.z - a.z * b.y,
           a.s * b.y - a.x * b.z + a.y * b.s + a.z * b.x, a.s * b.z + a.x * b.y - a.y * b.x + a.z * b.s};
}
VF_CONTRACT(C09, construct_access) {
  Q a = q4("as", "ax", "ay", "az"), b = q4("bs", "bx", "by", "bz");
  Quaternion q = mk(a);
  EQ(q, a.s, a.x, a.y, a.z, "components");
  EQ(Quaternion(), 0., 0., 0., 0., "default");
  EQ(Quaternion(a.s), a.s, 0., 0., 0., "real");
  EQ(Quaternion(Vector3{a.x, a.y, a.z}), 0., a.x, a.y, a.z, "imaginary");
  EQ(Quaternion(a.s, Vector3{a.x, a.y, a.z}), a.s, a.x, a.y, a.z, "scalar+vector");
  vf_eq(q[0], a.s, "[0]"); vf_eq(q[1], a.x, "[1]"); vf_eq(q[2], a.y, "[2]"); vf_eq(q[3], a.z, "[3]");
  const Quaternion& c = q;
  vf_eq(c[0], a.s, "const [0]"); vf_eq(c[1], a.x, "const [1]"); vf_eq(c[2], a.y, "const [2]"); vf_eq(c[3], a.z, "const [3]");
  vf_eq(c.re(), a.s, "const re"); vf_eq(c.im().x, a.x, "const im x"); vf_eq(c.im().y, a.y, "const im y"); vf_eq(c.im().z, a.z, "const im z");
  Quaternion w = q; w[0] = b.s; EQ(w, b.s, a.x, a.y, a.z, "[0]=");
  w = q; w[1] = b.s; EQ(w, a.s, b.s, a.y, a.z, "[1]="); w = q; w[2] = b.s; EQ(w, a.s, a.x, b.s, a.z, "[2]=");
  w = q; w[3] = b.s; EQ(w, a.s, a.x, a.y, b.s, "[3]=");
  w = q; w.re() = b.s; EQ(w, b.s, a.x, a.y, a.z, "re()=");
  w = q; w.im() = Vector3{b.x, b.y, b.z}; EQ(w, a.s, b.x, b.y, b.z, "im()=");
  w = q; w = b.s; EQ(w, b.s, 0., 0., 0., "= real");
  w = q; w = Vector3{b.x, b.y, b.z}; EQ(w, 0., b.x, b.y, b.z, "= vector");
  w = q; EQ(w = b.s, b.s, 0., 0., 0., "(= real)");
  vf_reach("end");
}
VF_CONTRACT(C09, linear) {
  Q a = q4("as", "ax", "ay", "az"), b = q4("bs", "bx", "by", "bz");
  double c = vf_real("c");
  Quaternion p = mk(a), q = mk(b);
  EQ(p + q, a.s + b.s, a.x + b.x, a.y + b.y, a.z + b.z, "p+q");
  EQ(p - q, a.s - b.s, a.x - b.x, a.y - b.y, a.z - b.z, "p-q");
  EQ(-p, -a.s, -a.x, -a.y, -a.z, "-p");
  EQ(p * c, a.s * c, a.x * c, a.y * c, a.z * c, "p*c");
  EQ(c * p, a.s * c, a.x * c, a.y * c, a.z * c, "c*p");
  Quaternion w = p; w += q; EQ(w, a.s + b.s, a.x + b.x, a.y + b.y, a.z + b.z, "p+=q");
  w = p; w += c; EQ(w, a.s + c, a.x, a.y, a.z, "p+=c");
  w = p; w -= q; EQ(w, a.s - b.s, a.x - b.x, a.y - b.y, a.z - b.z, "p-=q");
  w = p; w -= c; EQ(w, a.s - c, a.x, a.y, a.z, "p-=c");
  w = p; w *= c; EQ(w, a.s * c, a.x * c, a.y * c, a.z * c, "p*=c");
  w = p; w += w; EQ(w, 2. * a.s, 2. * a.x, 2. * a.y, 2. * a.z, "w+=w");
  w = p; w -= w; EQ(w, 0., 0., 0., 0., "w-=w");
  w = p; w += w.re(); EQ(w, 2. * a.s, a.x, a.y, a.z, "w+=re");
  w = p; w *= w.re(); EQ(w, a.s * a.s, a.s * a.x, a.s * a.y, a.s * a.z, "w*=re");
  vf_reach("end");
}
VF_CONTRACT(C09, scalar_division) {
  Q a = q4("as", "ax", "ay", "az");
  double c = vf_real("c");
  vf_assume(c != 0.);
  Quaternion p = mk(a);
  EQ(p / c, a.s / c, a.x / c, a.y / c, a.z / c, "p/c");
  Quaternion w = p; w /= c; EQ(w, a.s / c, a.x / c, a.y / c, a.z / c, "p/=c");
  vf_reach("end");
}
VF_CONTRACT(C09, hamilton_product) {
  Q a = q4("as", "ax", "ay", "az"), b = q4("bs", "bx", "by", "bz");
  Quaternion p = mk(a), q = mk(b);
  Q h = ham(a, b);
  EQ(p * q, h.s, h.x, h.y, h.z, "p*q");
  Quaternion w = p; w *= q; EQ(w, h.s, h.x, h.y, h.z, "p*=q");
  Q hh = ham(a, a);
  w = p; w *= w; EQ(w, hh.s, hh.x, hh.y, hh.z, "w*=w");
  EQ(p * p, hh.s, hh.x, hh.y, hh.z, "p*p");
  double M[4][4];
  p.toMatrix(M);
  double v[4] = {b.s, b.x, b.y, b.z}, e[4] = {h.s, h.x, h.y, h.z};
  for (int i = 0; i < 4; i++) vf_eq(M[i][0] * v[0] + M[i][1] * v[1] + M[i][2] * v[2] + M[i][3] * v[3], e[i], "matrix of left multiplication");
  vf_reach("end");
}
VF_CONTRACT(C09, conjugate_norm) {
  Q a = q4("as", "ax", "ay", "az");
  Quaternion p = mk(a);
  EQ(p.bar(), a.s, -a.x, -a.y, -a.z, "bar");
  EQ(conjugate(p), a.s, -a.x, -a.y, -a.z, "conjugate");
  double n2 = a.s * a.s + a.x * a.x + a.y * a.y + a.z * a.z;
  vf_eq(p.norm2(), n2, "norm2");
  double n = p.norm();
  vf_assert(n >= 0., "norm >= 0"); vf_eq(n * n, n2, "norm^2");
  vf_reach("end");
}
VF_CONTRACT(C09, inverse_unit) {
  Q a = q4("as", "ax", "ay", "az");
  double n2 = a.s * a.s + a.x * a.x + a.y * a.y + a.z * a.z;
  vf_assume(n2 > 0.01);
  Quaternion p = mk(a);
  Quaternion i = p.inv();
  Q h = ham(a, Q{i.re(), i.im().x, i.im().y, i.im().z});
  vf_eq(h.s, 1., "p*inv re"); vf_eq(h.x, 0., "p*inv i"); vf_eq(h.y, 0., "p*inv j"); vf_eq(h.z, 0., "p*inv k");
  double n = std::sqrt(n2);
  EQ(p.unit(), a.s / n, a.x / n, a.y / n, a.z / n, "unit");
  Quaternion w = p; w.normalize();
  EQ(w, a.s / n, a.x / n, a.y / n, a.z / n, "normalize");
  vf_reach("end");
}
