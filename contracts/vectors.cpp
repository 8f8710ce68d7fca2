// C07: vector algebra.  Every function of Vector2 / Vector3 against its definition over the reals.
#include "vf.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"
using namespace geometrycentral;

static Vector2 v2(const char* a, const char* b) { double x = vf_real(a); double y = vf_real(b); return Vector2{x, y}; }
static Vector3 v3(const char* a, const char* b, const char* c) {
  double x = vf_real(a); double y = vf_real(b); double z = vf_real(c); return Vector3{x, y, z};
}
#define EQ2(R, X, Y, L) do { Vector2 r_ = (R); vf_eq(r_.x, (X), L " x"); vf_eq(r_.y, (Y), L " y"); } while (0)
#define EQ3(R, X, Y, Z, L) do { Vector3 r_ = (R); vf_eq(r_.x, (X), L " x"); vf_eq(r_.y, (Y), L " y"); vf_eq(r_.z, (Z), L " z"); } while (0)

// ---------------------------------------------------------------------------------------------------- Vector2
VF_CONTRACT(C07, v2_linear) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  double s = vf_real("s");
  EQ2(u + v, u.x + v.x, u.y + v.y, "u+v");
  EQ2(u - v, u.x - v.x, u.y - v.y, "u-v");
  EQ2(-u, -u.x, -u.y, "-u");
  EQ2(u * s, u.x * s, u.y * s, "u*s");
  EQ2(s * u, u.x * s, u.y * s, "s*u");
  EQ2(2 * u, u.x * 2., u.y * 2., "2*u");
  Vector2 w = u; w += v; EQ2(w, u.x + v.x, u.y + v.y, "u+=v");
  w = u; w -= v; EQ2(w, u.x - v.x, u.y - v.y, "u-=v");
  w = u; w *= s; EQ2(w, u.x * s, u.y * s, "u*=s");
  w = u; EQ2(w += v, u.x + v.x, u.y + v.y, "(u+=v)");
  w = u; w += w; EQ2(w, u.x + u.x, u.y + u.y, "w+=w");
  w = u; w -= w; EQ2(w, 0., 0., "w-=w");
  w = u; w *= w.x; EQ2(w, u.x * u.x, u.y * u.x, "w*=w.x"); w = u; w *= w.y; EQ2(w, u.x * u.y, u.y * u.y, "w*=w.y");
  EQ2(Vector2::zero(), 0., 0., "zero");
  EQ2(Vector2::constant(s), s, s, "constant");
  vf_eq(sum(u), u.x + u.y, "sum");
  const Vector2& c = u;
  vf_eq(c[0], u.x, "[0]"); vf_eq(c[1], u.y, "[1]");
  w = u; w[0] = s; EQ2(w, s, u.y, "[0]="); w = u; w[1] = s; EQ2(w, u.x, s, "[1]=");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_scalar_division) {
  Vector2 u = v2("ux", "uy"); double s = vf_real("s");
  vf_assume(s != 0.);
  EQ2(u / s, u.x / s, u.y / s, "u/s");
  Vector2 w = u; w /= s; EQ2(w, u.x / s, u.y / s, "u/=s");
  if ((u.x != 0.) & (u.y != 0.)) { w = u; w /= w.x; EQ2(w, 1., u.y / u.x, "w/=w.x"); w = u; w /= w.y; EQ2(w, u.x / u.y, 1., "w/=w.y"); }
  vf_reach("end");
}
VF_CONTRACT(C07, v2_equality) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  bool same = (u.x == v.x) & (u.y == v.y);
  vf_assert((u == v) == same, "==");
  vf_assert((u != v) == !same, "!=");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_complex_product) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  EQ2(u * v, u.x * v.x - u.y * v.y, u.x * v.y + u.y * v.x, "u*v");
  Vector2 w = u; w *= v; EQ2(w, u.x * v.x - u.y * v.y, u.x * v.y + u.y * v.x, "u*=v");
  w = u; w *= w; EQ2(w, u.x * u.x - u.y * u.y, 2. * u.x * u.y, "w*=w");
  EQ2(u.conj(), u.x, -u.y, "conj");
  EQ2(Vector2::fromComplex(std::complex<double>(u.x, u.y)), u.x, u.y, "fromComplex");
  std::complex<double> c = u;
  vf_eq(c.real(), u.x, "complex real"); vf_eq(c.imag(), u.y, "complex imag");
  EQ2(u.rotate90(), -u.y, u.x, "rotate90");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_complex_division) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  double d = v.x * v.x + v.y * v.y;
  vf_assume(d > 0.);
  Vector2 q = u / v;
  EQ2(q * v, u.x, u.y, "(u/v)*v = u");
  Vector2 w = u; w /= v; EQ2(w, q.x, q.y, "u/=v");
  w = v; w /= w; EQ2(w, 1., 0., "w/=w");
  EQ2(v.inv(), v.x / d, -v.y / d, "inv");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_products_norms) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  vf_eq(dot(u, v), u.x * v.x + u.y * v.y, "dot");
  vf_eq(cross(u, v), u.x * v.y - u.y * v.x, "cross");
  EQ3(cross3(u, v), 0., 0., u.x * v.y - u.y * v.x, "cross3");
  vf_eq(u.norm2(), u.x * u.x + u.y * u.y, "norm2()");
  vf_eq(norm2(u), u.x * u.x + u.y * u.y, "norm2");
  double n = u.norm();
  vf_assert(n >= 0., "norm() >= 0"); vf_eq(n * n, u.x * u.x + u.y * u.y, "norm()^2");
  n = norm(u);
  vf_assert(n >= 0., "norm >= 0"); vf_eq(n * n, u.x * u.x + u.y * u.y, "norm^2");
  vf_reach("end");
}
static void unit2(Vector2 u, Vector2 r) {
  vf_eq(r.x * r.x + r.y * r.y, 1., "unit length");
  vf_eq(u.x * r.y - u.y * r.x, 0., "parallel");
  vf_assert(u.x * r.x + u.y * r.y > 0., "same direction");
}
VF_CONTRACT(C07, v2_normalize) {
  Vector2 u = v2("ux", "uy");
  vf_assume(u.x * u.x + u.y * u.y > 0.);
  unit2(u, u.normalize()); unit2(u, u.unit()); unit2(u, normalize(u)); unit2(u, unit(u));
  unit2(u, u.normalizeCutoff()); unit2(u, normalizeCutoff(u));
  vf_reach("end");
}
VF_CONTRACT(C07, v2_normalizeCutoff) {
  Vector2 u = v2("ux", "uy"); double m = vf_real("m");
  vf_assume(m >= 0.);
  double n2 = u.x * u.x + u.y * u.y;
  Vector2 r = u.normalizeCutoff(m), q = normalizeCutoff(u, m);
  if (n2 <= m * m) { EQ2(r, u.x, u.y, "short vector unchanged"); EQ2(q, u.x, u.y, "short vector unchanged"); vf_reach("short"); }
  else { unit2(u, r); unit2(u, q); vf_reach("long"); }
}
VF_CONTRACT(C07, v2_rotate) {
  Vector2 u = v2("ux", "uy"); double t = vf_real("t");
  double c = std::cos(t), s = std::sin(t);
  EQ2(u.rotateCCW(t), c * u.x - s * u.y, s * u.x + c * u.y, "rotateCCW");
  EQ2(u.rotateCW(t), c * u.x + s * u.y, -s * u.x + c * u.y, "rotateCW");
  EQ2(u.rotate(t), c * u.x + s * u.y, -s * u.x + c * u.y, "rotate (clockwise)");
  EQ2(Vector2::fromAngle(t), c, s, "fromAngle");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_arg) {
  Vector2 u = v2("ux", "uy");
  vf_assume(u.x * u.x + u.y * u.y > 0.);
  double n = std::sqrt(u.x * u.x + u.y * u.y);
  double a = u.arg();
  vf_eq(n * std::cos(a), u.x, "arg() cos"); vf_eq(n * std::sin(a), u.y, "arg() sin");
  a = arg(u);
  vf_eq(n * std::cos(a), u.x, "arg cos"); vf_eq(n * std::sin(a), u.y, "arg sin");
  vf_assert((a >= -PI - 1e-9) & (a <= PI + 1e-9), "arg range");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_angle) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  vf_assume(u.x * u.x + u.y * u.y > 0.); vf_assume(v.x * v.x + v.y * v.y > 0.);
  double a = angle(u, v);
  double nu = std::sqrt(u.x * u.x + u.y * u.y), nv = std::sqrt(v.x * v.x + v.y * v.y);
  double d = (u.x / nu) * (v.x / nv) + (u.y / nu) * (v.y / nv);
  if ((d >= -1.) & (d <= 1.)) {
    vf_eq(std::cos(a), d, "cos(angle) = dot of units");
    vf_reach("inside");
  }
  vf_assert(a >= 0., "angle >= 0");
  vf_assert(a <= PI + 1e-9, "angle <= pi");
}
VF_CONTRACT(C07, v2_orientedAngle) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  vf_assume(u.x * u.x + u.y * u.y > 0.); vf_assume(v.x * v.x + v.y * v.y > 0.);
  double a = orientedAngle(u, v);
  double nu = std::sqrt(u.x * u.x + u.y * u.y), nv = std::sqrt(v.x * v.x + v.y * v.y);
  // rotating u by a gives the direction of v
  vf_eq(std::cos(a) * nu * nv, u.x * v.x + u.y * v.y, "cos(orientedAngle)");
  vf_eq(std::sin(a) * nu * nv, u.x * v.y - u.y * v.x, "sin(orientedAngle)");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_componentwise) {
  Vector2 u = v2("ux", "uy"), v = v2("vx", "vy");
  Vector2 a = componentwiseMin(u, v), b = componentwiseMax(u, v);
  vf_assert((a.x == u.x) | (a.x == v.x), "min x is one of them"); vf_assert((a.x <= u.x) & (a.x <= v.x), "min x");
  vf_assert((a.y == u.y) | (a.y == v.y), "min y is one of them"); vf_assert((a.y <= u.y) & (a.y <= v.y), "min y");
  vf_assert((b.x == u.x) | (b.x == v.x), "max x is one of them"); vf_assert((b.x >= u.x) & (b.x >= v.x), "max x");
  vf_assert((b.y == u.y) | (b.y == v.y), "max y is one of them"); vf_assert((b.y >= u.y) & (b.y >= v.y), "max y");
  vf_reach("end");
}
static void clamped(double r, double v, double lo, double hi, const char* l) {
  vf_assert((r >= lo) & (r <= hi), l);
  vf_assert(((v >= lo) & (v <= hi)) ? r == v : ((v < lo) ? r == lo : r == hi), l);
}
VF_CONTRACT(C07, v2_clamp) {
  Vector2 u = v2("ux", "uy"), lo = v2("lx", "ly"), hi = v2("hx", "hy");
  vf_assume((lo.x <= hi.x) & (lo.y <= hi.y));
  Vector2 r = clamp(u, lo, hi);
  clamped(r.x, u.x, lo.x, hi.x, "clamp x"); clamped(r.y, u.y, lo.y, hi.y, "clamp y");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_pow) {
  // integer powers agree with repeated products
  Vector2 u = v2("ux", "uy");
  vf_assume(u.x * u.x + u.y * u.y > 0.01);
  Vector2 p = u.pow(2.);
  EQ2(p, u.x * u.x - u.y * u.y, 2. * u.x * u.y, "u^2");
  Vector2 i = u.pow(-1.);
  EQ2(i * u, 1., 0., "u^-1 * u");
  vf_reach("end");
}
VF_CONTRACT(C07, v2_predicates) {
  Vector2 u = v2("ux", "uy");
  vf_assert(u.isFinite() & isfinite(u) & u.isDefined() & isDefined(u), "finite vectors are finite and defined");
  Vector2 n = Vector2::undefined(), f = Vector2::infinity();
  vf_assert(!n.isDefined() & !isDefined(n) & !n.isFinite(), "undefined()");
  vf_assert(!f.isFinite() & !isfinite(f) & f.isDefined(), "infinity()");
  Vector2 a{u.x, n.x}, b{n.x, u.x}, c{u.x, f.x}, d{f.x, u.x};
  vf_assert(!a.isDefined() & !b.isDefined() & !a.isFinite() & !b.isFinite(), "one nan component");
  vf_assert(!c.isFinite() & !d.isFinite() & c.isDefined() & d.isDefined(), "one infinite component");
  vf_reach("end");
}
// ---------------------------------------------------------------------------------------------------- Vector3
VF_CONTRACT(C07, v3_linear) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz");
  double s = vf_real("s");
  EQ3(u + v, u.x + v.x, u.y + v.y, u.z + v.z, "u+v");
  EQ3(u - v, u.x - v.x, u.y - v.y, u.z - v.z, "u-v");
  EQ3(-u, -u.x, -u.y, -u.z, "-u");
  EQ3(u * s, u.x * s, u.y * s, u.z * s, "u*s");
  EQ3(s * u, u.x * s, u.y * s, u.z * s, "s*u");
  EQ3(3 * u, u.x * 3., u.y * 3., u.z * 3., "3*u");
  Vector3 w = u; w += v; EQ3(w, u.x + v.x, u.y + v.y, u.z + v.z, "u+=v");
  w = u; w -= v; EQ3(w, u.x - v.x, u.y - v.y, u.z - v.z, "u-=v");
  w = u; w *= s; EQ3(w, u.x * s, u.y * s, u.z * s, "u*=s");
  w = u; EQ3(w -= v, u.x - v.x, u.y - v.y, u.z - v.z, "(u-=v)");
  w = u; w += w; EQ3(w, u.x + u.x, u.y + u.y, u.z + u.z, "w+=w");
  w = u; w -= w; EQ3(w, 0., 0., 0., "w-=w");
  w = u; w *= w.x; EQ3(w, u.x * u.x, u.y * u.x, u.z * u.x, "w*=w.x"); w = u; w *= w.y; EQ3(w, u.x * u.y, u.y * u.y, u.z * u.y, "w*=w.y");
  w = u; w *= w.z; EQ3(w, u.x * u.z, u.y * u.z, u.z * u.z, "w*=w.z");
  EQ3(Vector3::zero(), 0., 0., 0., "zero");
  EQ3(Vector3::constant(s), s, s, s, "constant");
  vf_eq(sum(u), u.x + u.y + u.z, "sum");
  const Vector3& c = u;
  vf_eq(c[0], u.x, "[0]"); vf_eq(c[1], u.y, "[1]"); vf_eq(c[2], u.z, "[2]");
  w = u; w[0] = s; EQ3(w, s, u.y, u.z, "[0]="); w = u; w[1] = s; EQ3(w, u.x, s, u.z, "[1]=");
  w = u; w[2] = s; EQ3(w, u.x, u.y, s, "[2]=");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_scalar_division) {
  Vector3 u = v3("ux", "uy", "uz"); double s = vf_real("s");
  vf_assume(s != 0.);
  EQ3(u / s, u.x / s, u.y / s, u.z / s, "u/s");
  Vector3 w = u; w /= s; EQ3(w, u.x / s, u.y / s, u.z / s, "u/=s");
  if ((u.x != 0.) & (u.y != 0.) & (u.z != 0.)) {
    w = u; w /= w.x; EQ3(w, 1., u.y / u.x, u.z / u.x, "w/=w.x"); w = u; w /= w.y; EQ3(w, u.x / u.y, 1., u.z / u.y, "w/=w.y");
    w = u; w /= w.z; EQ3(w, u.x / u.z, u.y / u.z, 1., "w/=w.z");
  }
  vf_reach("end");
}
VF_CONTRACT(C07, v3_equality) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz");
  bool same = (u.x == v.x) & (u.y == v.y) & (u.z == v.z);
  vf_assert((u == v) == same, "=="); vf_assert((u != v) == !same, "!=");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_products_norms) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz");
  vf_eq(dot(u, v), u.x * v.x + u.y * v.y + u.z * v.z, "dot");
  EQ3(cross(u, v), u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x, "cross");
  double n2 = u.x * u.x + u.y * u.y + u.z * u.z;
  vf_eq(u.norm2(), n2, "norm2()"); vf_eq(norm2(u), n2, "norm2");
  double n = u.norm(); vf_assert(n >= 0., "norm() >= 0"); vf_eq(n * n, n2, "norm()^2");
  n = norm(u); vf_assert(n >= 0., "norm >= 0"); vf_eq(n * n, n2, "norm^2");
  vf_reach("end");
}
static void unit3(Vector3 u, Vector3 r) {
  vf_eq(r.x * r.x + r.y * r.y + r.z * r.z, 1., "unit length");
  vf_eq(u.y * r.z - u.z * r.y, 0., "parallel x"); vf_eq(u.z * r.x - u.x * r.z, 0., "parallel y"); vf_eq(u.x * r.y - u.y * r.x, 0., "parallel z");
  vf_assert(u.x * r.x + u.y * r.y + u.z * r.z > 0., "same direction");
}
VF_CONTRACT(C07, v3_normalize) {
  Vector3 u = v3("ux", "uy", "uz");
  vf_assume(u.x * u.x + u.y * u.y + u.z * u.z > 0.);
  unit3(u, u.normalize()); unit3(u, u.unit()); unit3(u, normalize(u)); unit3(u, unit(u));
  unit3(u, u.normalizeCutoff()); unit3(u, normalizeCutoff(u));
  vf_reach("end");
}
VF_CONTRACT(C07, v3_normalizeCutoff) {
  Vector3 u = v3("ux", "uy", "uz"); double m = vf_real("m");
  vf_assume(m >= 0.);
  double n2 = u.x * u.x + u.y * u.y + u.z * u.z;
  Vector3 r = u.normalizeCutoff(m), q = normalizeCutoff(u, m);
  if (n2 <= m * m) { EQ3(r, u.x, u.y, u.z, "short vector unchanged"); EQ3(q, u.x, u.y, u.z, "short vector unchanged"); vf_reach("short"); }
  else { unit3(u, r); unit3(u, q); vf_reach("long"); }
}
VF_CONTRACT(C07, v3_removeComponent) {
  Vector3 u = v3("ux", "uy", "uz"), d = v3("dx", "dy", "dz");
  vf_assume(d.x * d.x + d.y * d.y + d.z * d.z > 0.01);
  Vector3 dn = unit(d);
  Vector3 r = u.removeComponent(dn);
  double k = u.x * dn.x + u.y * dn.y + u.z * dn.z;
  EQ3(r, u.x - k * dn.x, u.y - k * dn.y, u.z - k * dn.z, "removeComponent");
  vf_eq(r.x * d.x + r.y * d.y + r.z * d.z, 0., "orthogonal to the direction");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_buildTangentBasis) {
  Vector3 u = v3("ux", "uy", "uz");
  vf_assume(u.x * u.x + u.y * u.y + u.z * u.z > 0.01);
  std::array<Vector3, 2> b = u.buildTangentBasis();
  Vector3 X = b[0], Y = b[1];
  vf_eq(X.x * u.x + X.y * u.y + X.z * u.z, 0., "X orthogonal to u"); vf_eq(Y.x * u.x + Y.y * u.y + Y.z * u.z, 0., "Y orthogonal to u");
  vf_eq(X.x * Y.x + X.y * Y.y + X.z * Y.z, 0., "X orthogonal to Y");
  vf_eq(X.x * X.x + X.y * X.y + X.z * X.z, 1., "X unit"); vf_eq(Y.x * Y.x + Y.y * Y.y + Y.z * Y.z, 1., "Y unit");
  // right handed: X x Y points along u
  double n = std::sqrt(u.x * u.x + u.y * u.y + u.z * u.z);
  vf_eq((X.y * Y.z - X.z * Y.y) * n, u.x, "X x Y = u/|u| x"); vf_eq((X.z * Y.x - X.x * Y.z) * n, u.y, "X x Y = u/|u| y");
  vf_eq((X.x * Y.y - X.y * Y.x) * n, u.z, "X x Y = u/|u| z");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_rotateAround) {
  Vector3 u = v3("ux", "uy", "uz"), a = v3("ax", "ay", "az");
  double t = vf_real("t");
  double n2 = a.x * a.x + a.y * a.y + a.z * a.z;
  vf_assume(n2 > 0.01);
  double n = std::sqrt(n2);
  double kx = a.x / n, ky = a.y / n, kz = a.z / n;
  double c = std::cos(t), s = std::sin(t);
  double d = kx * u.x + ky * u.y + kz * u.z;
  Vector3 r = u.rotateAround(a, t);
  // Rodrigues' formula
  EQ3(r, u.x * c + (ky * u.z - kz * u.y) * s + kx * d * (1. - c), u.y * c + (kz * u.x - kx * u.z) * s + ky * d * (1. - c),
      u.z * c + (kx * u.y - ky * u.x) * s + kz * d * (1. - c), "Rodrigues");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_angle) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz");
  vf_assume(u.x * u.x + u.y * u.y + u.z * u.z > 0.01); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.01);
  double a = angle(u, v);
  double nu = std::sqrt(u.x * u.x + u.y * u.y + u.z * u.z), nv = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z);
  double d = (u.x / nu) * (v.x / nv) + (u.y / nu) * (v.y / nv) + (u.z / nu) * (v.z / nv);
  if ((d >= -1.) & (d <= 1.)) { vf_eq(std::cos(a), d, "cos(angle) = dot of units"); vf_reach("inside"); }
  vf_assert(a >= 0., "angle >= 0");
  vf_assert(a <= PI + 1e-9, "angle <= pi");
}
VF_CONTRACT(C07, v3_angleInPlane) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz"), n = v3("nx", "ny", "nz");
  double n2 = vf_define("n2", n.x * n.x + n.y * n.y + n.z * n.z);
  vf_assume(n2 > 0.01);
  // cross(n,u) != 0 : u is not along the normal
  double wx = n.y * u.z - n.z * u.y, wy = n.z * u.x - n.x * u.z, wz = n.x * u.y - n.y * u.x;
  double W2 = vf_define("W2", wx * wx + wy * wy + wz * wz);
  vf_assume(W2 > 0.01);
  // lemma: the part of u orthogonal to n does not vanish
  double nn = std::sqrt(n.x * n.x + n.y * n.y + n.z * n.z);
  double hx = n.x / nn, hy = n.y / nn, hz = n.z / nn, hu = u.x * hx + u.y * hy + u.z * hz;
  double tx = u.x - hu * hx, ty = u.y - hu * hy, tz = u.z - hu * hz;
  double T2 = vf_define("T2", tx * tx + ty * ty + tz * tz);
  vf_eq(T2 * n2, W2, "lemma T2*n2 = W2");
  vf_assert(T2 > 0., "lemma T2 > 0");
  double T = std::sqrt(tx * tx + ty * ty + tz * tz);
  vf_assert(T > 0., "lemma T > 0");
  tx /= T; ty /= T; tz /= T;
  // basis orthogonal to it: n x t, of length |n|
  double cx = n.y * tz - n.z * ty, cy = n.z * tx - n.x * tz, cz = n.x * ty - n.y * tx;
  double c2 = vf_define("c2", cx * cx + cy * cy + cz * cz);
  vf_eq(c2, n2, "lemma |n x t| = |n|");
  vf_assert(c2 > 0., "lemma c2 > 0");
  double a = angleInPlane(u, v, n);
  double xc = v.x * tx + v.y * ty + v.z * tz, yc = (v.x * cx + v.y * cy + v.z * cz) / nn;
  vf_eq(std::sin(a) * xc, std::cos(a) * yc, "direction");
  vf_le(0., std::cos(a) * xc, "cos sign"); vf_le(0., std::sin(a) * yc, "sin sign");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_componentwise) {
  Vector3 u = v3("ux", "uy", "uz"), v = v3("vx", "vy", "vz");
  Vector3 a = componentwiseMin(u, v), b = componentwiseMax(u, v);
  for (int i = 0; i < 3; i++) {
    vf_assert((a[i] == u[i]) | (a[i] == v[i]), "min is one of them"); vf_assert((a[i] <= u[i]) & (a[i] <= v[i]), "min");
    vf_assert((b[i] == u[i]) | (b[i] == v[i]), "max is one of them"); vf_assert((b[i] >= u[i]) & (b[i] >= v[i]), "max");
  }
  vf_reach("end");
}
VF_CONTRACT(C07, v3_clamp) {
  Vector3 u = v3("ux", "uy", "uz"), lo = v3("lx", "ly", "lz"), hi = v3("hx", "hy", "hz");
  vf_assume((lo.x <= hi.x) & (lo.y <= hi.y) & (lo.z <= hi.z));
  Vector3 r = clamp(u, lo, hi);
  clamped(r.x, u.x, lo.x, hi.x, "clamp x"); clamped(r.y, u.y, lo.y, hi.y, "clamp y"); clamped(r.z, u.z, lo.z, hi.z, "clamp z");
  vf_reach("end");
}
VF_CONTRACT(C07, v3_predicates) {
  Vector3 u = v3("ux", "uy", "uz");
  vf_assert(u.isFinite() & isfinite(u) & u.isDefined() & isDefined(u), "finite vectors are finite and defined");
  Vector3 n = Vector3::undefined(), f = Vector3::infinity();
  vf_assert(!n.isDefined() & !isDefined(n) & !n.isFinite(), "undefined()");
  vf_assert(!f.isFinite() & !isfinite(f) & f.isDefined(), "infinity()");
  for (int i = 0; i < 3; i++) {
    Vector3 a = u, c = u; a[i] = n.x; c[i] = f.x;
    vf_assert(!a.isDefined() & !a.isFinite() & !c.isFinite() & c.isDefined(), "one bad component");
  }
  vf_reach("end");
}
