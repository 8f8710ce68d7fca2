// C08: elementary geometry against its defining equations.
#include "vf.h"
#include "geometrycentral/utilities/elementary_geometry.h"
using namespace geometrycentral;

static Vector2 v2(const char* a, const char* b) { double x = vf_real(a); double y = vf_real(b); return Vector2{x, y}; }
static Vector3 v3(const char* a, const char* b, const char* c) {
  double x = vf_real(a); double y = vf_real(b); double z = vf_real(c); return Vector3{x, y, z};
}
static double sq(double x) { return x * x; }
static double d2(Vector2 a, Vector2 b) { return sq(a.x - b.x) + sq(a.y - b.y); }
static double d3(Vector3 a, Vector3 b) { return sq(a.x - b.x) + sq(a.y - b.y) + sq(a.z - b.z); }

VF_CONTRACT(C08, triangleArea_heron) {
  double a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
  double H = (a + b + c) * (b + c - a) * (a + c - b) * (a + b - c);
  double A = triangleArea(a, b, c);
  vf_assert(A >= 0., "area >= 0");
  if (H >= 0.) { vf_eq(16. * A * A, H, "16 A^2"); vf_reach("triangle"); }
  else { vf_eq(A, 0., "no triangle: area 0"); vf_reach("no triangle"); }
}
// the area of an actual triangle: corners (0,0), (p,0), (x,y)
VF_CONTRACT(C08, triangleArea_euclidean) {
  double p = vf_real("p"), x = vf_real("x"), y = vf_real("y");
  vf_assume(p >= 0.);
  double b = std::sqrt(sq(x - p) + sq(y)), c = std::sqrt(sq(x) + sq(y));
  double A = triangleArea(p, b, c);
  vf_eq(4. * A * A, sq(p * y), "area of the triangle with these corners");
  vf_reach("end");
}
VF_CONTRACT(C08, triangleArea_symmetric) {
  double a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
  double A = triangleArea(a, b, c), B = triangleArea(b, c, a), C = triangleArea(b, a, c);
  vf_eq(sq(A), sq(B), "cyclic"); vf_eq(sq(A), sq(C), "swap");
  vf_reach("end");
}
VF_CONTRACT(C08, triangleIsValid) {
  double a = vf_real("a"), b = vf_real("b"), c = vf_real("c"), t = vf_real("tol");
  vf_assert(triangleIsValid(a, b, c, t) == ((a + b + t >= c) & (b + c + t >= a) & (a + c + t >= b)), "triangle inequalities up to tolerance");
  vf_assert(triangleIsValid(a, b, c) == ((a + b >= c) & (b + c >= a) & (a + c >= b)), "triangle inequalities");
  vf_reach("end");
}
VF_CONTRACT(C08, layoutTriangleVertex) {
  Vector2 A = v2("ax", "ay"), B = v2("bx", "by");
  double lBC = vf_real("lBC"), lCA = vf_real("lCA");
  double L2 = vf_define("L2", d2(A, B));
  vf_assume((lBC > 0.) & (lCA > 0.) & (L2 > 0.01));
  double l = std::sqrt(sq(B.x - A.x) + sq(B.y - A.y));
  vf_assert(l > 0., "lemma l > 0");
  vf_assume((l + lBC >= lCA) & (lBC + lCA >= l) & (lCA + l >= lBC));
  Vector2 C = layoutTriangleVertex(A, B, lBC, lCA);
  vf_eq(d2(C, B), lBC * lBC, "|BC|");
  vf_eq(d2(C, A), lCA * lCA, "|CA|");
  vf_le(0., (B.x - A.x) * (C.y - A.y) - (B.y - A.y) * (C.x - A.x), "counter-clockwise");
  vf_reach("end");
}
VF_CONTRACT(C08, pointLineSegmentDistance2) {
  Vector2 p = v2("px", "py"), a = v2("ax", "ay"), b = v2("bx", "by");
  double ab2 = vf_define("ab2", d2(a, b));
  double w = vf_define("w", (p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y));
  double pa2 = vf_define("pa2", d2(p, a));
  double d = pointLineSegmentDistance(p, a, b);
  vf_assert(d >= 0., "distance >= 0");
  double D = vf_define("D", d * d);
  // distance^2 at parameter t is pa2 - 2 t w + t^2 ab2; it is minimised over [0,1] at t* = clamp(w/ab2)
  if (ab2 == 0.) { vf_eq(D, pa2, "degenerate segment"); vf_reach("degenerate"); return; }
  if (w <= 0.) { vf_eq(D, pa2, "nearest point is the start"); vf_reach("start"); }
  else if (w >= ab2) { vf_eq(D, pa2 - 2. * w + ab2, "nearest point is the end"); vf_reach("finish"); }
  else { vf_eq(D * ab2, pa2 * ab2 - w * w, "nearest point is the projection"); vf_reach("inside"); }
  double s = vf_real("s");
  vf_assume((s >= 0.) & (s <= 1.));
  double E = vf_define("E", pa2 - 2. * s * w + s * s * ab2);
  vf_assert(ab2 > 0., "lemma ab2 > 0");
  if ((w > 0.) & (w < ab2)) vf_le(D * ab2, E * ab2, "lemma: (s ab2 - w)^2 >= 0");
  vf_le(D, E, "no point of the segment is closer");
}
VF_CONTRACT(C08, pointLineSegmentNearest3) {
  Vector3 p = v3("px", "py", "pz"), a = v3("ax", "ay", "az"), b = v3("bx", "by", "bz");
  double ab2 = vf_define("ab2", d3(a, b));
  double w = vf_define("w", (p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y) + (p.z - a.z) * (b.z - a.z));
  double t = pointLineSegmentNeaestLocation(p, a, b);
  vf_assert((t >= 0.) & (t <= 1.), "parameter range");
  if (ab2 == 0.) { vf_reach("degenerate"); return; }
  if (w <= 0.) { vf_eq(t, 0., "t = 0"); vf_reach("start"); }
  else if (w >= ab2) { vf_eq(t, 1., "t = 1"); vf_reach("finish"); }
  else { vf_eq(t * ab2, w, "t = projection"); vf_reach("inside"); }
}
VF_CONTRACT(C08, pointLineSegmentDistance3) {
  // the distance is the distance to the point at the nearest location (whose optimality is the contract above)
  Vector3 p = v3("px", "py", "pz"), a = v3("ax", "ay", "az"), b = v3("bx", "by", "bz");
  double t = pointLineSegmentNeaestLocation(p, a, b);
  double d = pointLineSegmentDistance(p, a, b);
  vf_assert(d >= 0., "distance >= 0");
  Vector3 q{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), a.z + t * (b.z - a.z)};
  vf_eq(d * d, d3(p, q), "distance to the nearest location");
  vf_reach("end");
}
VF_CONTRACT(C08, lemmaNearestLocation) {
  // quadratic lemma: pa2 - 2 s w + s^2 ab2 is minimised over [0,1] at t = clamp(w / ab2)
  double ab2 = vf_real("ab2"), w = vf_real("w"), s = vf_real("s"), t = vf_real("t");
  vf_assume((ab2 > 0.) & (s >= 0.) & (s <= 1.));
  vf_assume((w <= 0.) ? (t == 0.) : (w >= ab2) ? (t == 1.) : (t * ab2 == w));
  double q = -2. * t * w + t * t * ab2, r = -2. * s * w + s * s * ab2;
  if ((w > 0.) & (w < ab2)) vf_eq((r - q) * ab2, (s * ab2 - w) * (s * ab2 - w) - (t * ab2 - w) * (t * ab2 - w), "square");
  vf_le(q * ab2, r * ab2, "scaled");
  vf_le(q, r, "no point of the segment is closer");
}
VF_CONTRACT(C08, raySegmentIntersection) {
  Vector2 o = v2("ox", "oy"), r = v2("rx", "ry"), a = v2("ax", "ay"), b = v2("bx", "by");
  double den = r.x * (b.y - a.y) - r.y * (b.x - a.x);
  vf_assume((den > 0.01) | (den < -0.01));
  RaySegmentIntersectionResult2D h = raySegmentIntersection(o, r, a, b);
  vf_eq(o.x + h.tRay * r.x, a.x + h.tLine * (b.x - a.x), "same point x");
  vf_eq(o.y + h.tRay * r.y, a.y + h.tLine * (b.y - a.y), "same point y");
  vf_reach("end");
}
VF_CONTRACT(C08, rayRayIntersection) {
  Vector2 o = v2("ox", "oy"), r = v2("rx", "ry"), a = v2("ax", "ay"), b = v2("bx", "by");
  double den = r.x * b.y - r.y * b.x;
  vf_assume((den > 0.01) | (den < -0.01));
  RayRayIntersectionResult2D h = rayRayIntersection(o, r, a, b);
  vf_eq(o.x + h.tRay1 * r.x, a.x + h.tRay2 * b.x, "same point x");
  vf_eq(o.y + h.tRay1 * r.y, a.y + h.tRay2 * b.y, "same point y");
  vf_reach("end");
}
VF_CONTRACT(C08, segmentSegmentIntersection) {
  Vector2 p = v2("px", "py"), q = v2("qx", "qy"), a = v2("ax", "ay"), b = v2("bx", "by");
  double den = (q.x - p.x) * (b.y - a.y) - (q.y - p.y) * (b.x - a.x);
  vf_assume((den > 0.01) | (den < -0.01));
  vf_assume(d2(p, q) > 0.0001);
  SegmentSegmentIntersectionResult2D h = segmentSegmentIntersection(p, q, a, b);
  vf_eq(p.x + h.tA * (q.x - p.x), a.x + h.tB * (b.x - a.x), "same point x");
  vf_eq(p.y + h.tA * (q.y - p.y), a.y + h.tB * (b.y - a.y), "same point y");
  vf_assert(h.hit == ((h.tA >= 0.) & (h.tA <= 1.) & (h.tB >= 0.) & (h.tB <= 1.)), "hit");
  vf_reach("end");
}
VF_CONTRACT(C08, tetFourthPoint) {
  // base triangle in a canonical frame; any base triangle is a rigid motion of one of these up to the frame below
  Vector3 a = v3("ax", "ay", "az");
  double p = vf_real("p"), q = vf_real("q"), r = vf_real("r");
  vf_assume((p > 0.1) & (r > 0.1));
  Vector3 b{a.x + p, a.y, a.z}, c{a.x + q, a.y + r, a.z};
  double la = vf_real("la"), lb = vf_real("lb"), lc = vf_real("lc");
  // an apex with these lengths exists
  double X = (la * la - lb * lb + p * p) / (2. * p);
  double Y = (la * la - lc * lc + q * q + r * r - 2. * X * q) / (2. * r);
  vf_assume(la * la - X * X - Y * Y >= 0.);
  Vector3 d = tetFourthPoint(a, b, c, la, lb, lc);
  vf_eq(d3(d, a), la * la, "|ad|"); vf_eq(d3(d, b), lb * lb, "|bd|"); vf_eq(d3(d, c), lc * lc, "|cd|");
  vf_le((d.z - a.z) * p * r, 0., "orientation");
  vf_reach("end");
}
VF_CONTRACT(C08, clamp_scalar) {
  double v = vf_real("v"), lo = vf_real("lo"), hi = vf_real("hi");
  vf_assume(lo <= hi);
  double r = geometrycentral::clamp(v, lo, hi);
  vf_assert((r >= lo) & (r <= hi), "within");
  vf_assert(((v >= lo) & (v <= hi)) ? r == v : (v < lo ? r == lo : r == hi), "nearest");
  long w = vf_long("w", -1000000, 1000000), l = vf_long("l", -1000000, 1000000), h = vf_long("h", -1000000, 1000000);
  vf_assume(l <= h);
  int k = geometrycentral::clamp((int)w, (int)l, (int)h);
  vf_assert((k >= l) & (k <= h), "within (int)");
  vf_assert(((w >= l) & (w <= h)) ? k == w : (w < l ? k == l : k == h), "nearest (int)");
  vf_reach("end");
}
VF_CONTRACT(C08, regularizeAngle) {
  double t = vf_real("t");
  double r = regularizeAngle(t);
  vf_assert((r >= -1e-9) & (r < 2 * PI + 1e-9), "within [0,2 pi)");
  double k = (t - r) / (2 * PI);
  vf_eq(k, std::round(k), "differs by a multiple of 2 pi");
  vf_reach("end");
}

// explicit lifted 3x3 determinant of the in-circle predicate (relative to the test point)
static double incircle_det(Vector2 A, Vector2 B, Vector2 C, Vector2 T) {
  double ax = A.x - T.x, ay = A.y - T.y, bx = B.x - T.x, by = B.y - T.y, cx = C.x - T.x, cy = C.y - T.y;
  double a2 = ax * ax + ay * ay, b2 = bx * bx + by * by, c2 = cx * cx + cy * cy;
  return ax * (by * c2 - b2 * cy) - ay * (bx * c2 - b2 * cx) + a2 * (bx * cy - by * cx);
}
VF_CONTRACT(C08, inCircleTest) {
  Vector2 A = v2("ax", "ay"), B = v2("bx", "by"), C = v2("cx", "cy"), T = v2("tx", "ty");
  double D = incircle_det(A, B, C, T);
#ifdef VF_NATIVE
  vf_assume(std::fabs(D) > 1e-6);
#endif
  bool r = inCircleTest(A, B, C, T);
  vf_assert(r == (D > 0.), "sign of the in-circle determinant");
  vf_reach("end");
}
VF_CONTRACT(C08, lemmaInCircle) {
  // on a circle of centre o: determinant = (twice the signed area) * (radius^2 - |test - o|^2)
  double x1 = vf_real("x1"), y1 = vf_real("y1"), x2 = vf_real("x2"), y2 = vf_real("y2"), x3 = vf_real("x3"), y3 = vf_real("y3");
  double R2 = vf_real("R2");
#ifndef VF_NATIVE
  vf_assume((x1 * x1 + y1 * y1 == R2) & (x2 * x2 + y2 * y2 == R2) & (x3 * x3 + y3 * y3 == R2));
#else
  double l1 = std::sqrt(R2 / (x1 * x1 + y1 * y1)), l2 = std::sqrt(R2 / (x2 * x2 + y2 * y2)), l3 = std::sqrt(R2 / (x3 * x3 + y3 * y3));
  vf_assume(std::isfinite(l1 + l2 + l3));
  x1 *= l1; y1 *= l1; x2 *= l2; y2 *= l2; x3 *= l3; y3 *= l3;
#endif
  Vector2 T = v2("tx", "ty");
  double D = incircle_det(Vector2{x1, y1}, Vector2{x2, y2}, Vector2{x3, y3}, T);
  double area2 = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1);
  vf_eq(D, area2 * (R2 - T.x * T.x - T.y * T.y), "in-circle determinant");
  vf_reach("end");
}
