// P24: segments, rays, collinearity and betweenness.
#include "gen.hh"
#include "polytope_geometric_utilities.hh"
#include "Point.hh"
using namespace gen; using ref::R; using ref::Q;
namespace geo = polytope::geometry;
static double co(Src& s) { int k = (int)s.draw(2); return k == 0 ? s.range(-4, 4) : k == 1 ? s.range(-32, 32)/8.0 : (s.unit(24) - 0.5)*8; }
static P p2(Src& s) { double x = co(s), y = co(s); return P(x, y); }
static void seg2(Src& s, Case& c) {
  P a = p2(s), b = p2(s), d = p2(s), e = p2(s); int kind = (int)s.draw(3);
  if (kind == 1) { double t = s.range(0, 8)/8.0, u = s.range(1, 8)/8.0; P m = a + (R)t*(b - a); e = P((double)(d.x + (m.x - d.x)/u), (double)(d.y + (m.y - d.y)/u)); c.label("aimed at the other"); }
  if (kind == 2) { d = s.chance(1, 2) ? a : b; c.label("shared end"); }
  c.desc << "a=(" << (double)a.x << "," << (double)a.y << ") b=(" << (double)b.x << "," << (double)b.y << ") c=(" << (double)d.x << "," << (double)d.y << ") d=(" << (double)e.x << "," << (double)e.y << ")";
  double A[2] = {(double)a.x, (double)a.y}, B[2] = {(double)b.x, (double)b.y}, C[2] = {(double)d.x, (double)d.y}, D[2] = {(double)e.x, (double)e.y}, r[2] = {1e30, 1e30}; R cr = ref::cross(b - a, e - d);
  if (ref::dist(a, b) < 0.05 || ref::dist(d, e) < 0.05) throw pbt::Discard();
  bool x = geo::segmentIntersection2D(A, B, C, D, r);
  if (std::fabs(cr) > 1e-3*ref::dist(a, b)*ref::dist(d, e)) {
    R t = ref::cross(d - a, e - d)/cr, u = ref::cross(d - a, b - a)/cr; R out = std::max(std::max(-t, t - 1), std::max(-u, u - 1)); c.nontrivial = out < 0.5;
    if (out < -1e-6 || (out <= 1e-12)) { c.label("meet"); PBT_CHECK(x, "segments-meet", "the segments meet at t=" << (double)t << " u=" << (double)u << ", the library says they do not"); }
    if (out > 1e-6) { c.label("apart"); PBT_CHECK(!x, "segments-meet", "the segments miss each other (t=" << (double)t << " u=" << (double)u << "), the library says they meet"); }
    if (x) { P z = a + t*(b - a); PBT_CHECK(ref::dist(z, P(r[0], r[1])) < 1e-6, "segments-point", "(" << r[0] << "," << r[1] << "), expected (" << (double)z.x << "," << (double)z.y << ")");
      double q[2]; bool y = geo::segmentIntersection2D(C, D, A, B, q); PBT_CHECK(y && std::hypot(q[0] - r[0], q[1] - r[1]) < 1e-6, "segments-symmetry", "swapping the segments changes the answer"); }
  } else if (cr == 0) { c.label("parallel"); if (ref::segSegDist(a, b, d, e) > 1e-6) PBT_CHECK(!x, "segments-meet", "parallel segments apart meet"); }
  // Closest point.
  double z[2], near[2]; P q = p2(s); z[0] = q.x; z[1] = q.y; geo::closestPointOnSegment2D(z, A, B, near); PBT_CHECK(ref::segDist(P(near[0], near[1]), a, b) < 1e-13, "closest-point", "(" << near[0] << "," << near[1] << ") is off the segment"); PBT_CHECK(std::fabs((double)(ref::dist(q, P(near[0], near[1])) - ref::segDist(q, a, b))) < 1e-13, "closest-point", "a point " << (double)ref::dist(q, P(near[0], near[1])) << " away, the closest is " << (double)ref::segDist(q, a, b));
}
template<int D> static void line(Src& s, Case& c) {
  // Points on a line through a in a direction, and points off it.
  R o[3], n[3]; for (int k = 0; k != 3; ++k) { o[k] = co(s); n[k] = s.range(-4, 4); } R l = 0; for (int k = 0; k != D; ++k) l += n[k]*n[k]; if (l == 0) { n[0] = 1; for (int k = 1; k != D; ++k) n[k] = 0; l = 1; }
  int m = s.range(2, 7); std::vector<double> v; std::vector<R> t; bool zero = false;
  for (int i = 0; i != m; ++i) { R u = s.range(-16, 16)/4.0L; if (i > 0) for (int j = 0; j != i; ++j) if (t[j] == u) zero = true; t.push_back(u); for (int k = 0; k != D; ++k) v.push_back((double)(o[k] + u*n[k])); }
  if (zero && !s.chance(1, 4)) throw pbt::Discard();
  bool off = s.chance(1, 2); int bad = -1; double ang = 0;
  if (off) { // push one of them off the line
    bad = s.range(0, m - 1); int ax = 0; for (int k = 1; k != D; ++k) if (std::fabs(n[k]) < std::fabs(n[ax])) ax = k; double amt = (1 + s.range(0, 20))/8.0*(s.chance(1, 2) ? 1 : -1); v[D*bad + ax] += amt; ang = amt; }
  c.desc << D << "D points=" << pbt::str(v); c.nontrivial = m >= 3;
  bool all = geo::collinear<D, double>(v, 1e-10);
  if (!off || m < 3) { c.label("on a line"); PBT_CHECK(all, "collinear", m << " points on a line are not called collinear"); }
  else { // truly off: at least two other distinct points, and the moved one away from the line through the rest
    bool two = false; for (int i = 0; i != m; ++i) for (int j = 0; j != i; ++j) if (i != bad && j != bad && t[i] != t[j]) two = true; if (two && !(m > 1 && t[0] == t[1])) { c.label("off a line"); PBT_CHECK(!all, "collinear", m << " points off a line (by " << ang << ") are called collinear"); }
  }
  // Betweenness on the exact line.
  if (!off && m >= 3 && t[0] != t[1]) { bool in = (t[2] >= std::min(t[0], t[1]) && t[2] <= std::max(t[0], t[1])); R gap = std::min(std::fabs(t[2] - t[0]), std::fabs(t[2] - t[1])); if (in || gap > 0.1L) PBT_CHECK((geo::between<D, double>(&v[0], &v[D], &v[2*D], 1e-10)) == in, "between", "point 2 is " << (in ? "" : "not ") << "between points 0 and 1"); }
  if (off && m >= 3 && bad == 2 && t[0] != t[1]) PBT_CHECK(!(geo::between<D, double>(&v[0], &v[D], &v[2*D], 1e-10)), "between", "a point off the segment is called between its ends");
}
static void line2(Src& s, Case& c) { line<2>(s, c); }
static void line3(Src& s, Case& c) { line<3>(s, c); }
static Q q3(Src& s) { double x = co(s), y = co(s), z = co(s); return Q(x, y, z); }
static Q unitVec(Src& s, bool& axis) { axis = s.chance(1, 2); if (axis) { int k = s.range(0, 5); double g = k%2 ? -1 : 1; return Q(k/2 == 0 ? g : 0, k/2 == 1 ? g : 0, k/2 == 2 ? g : 0); } Q q(s.range(-5, 5), s.range(-5, 5), s.range(-5, 5)); R l = ref::norm(q); return l == 0 ? Q(0, 0, 1) : Q((double)(q.x/l), (double)(q.y/l), (double)(q.z/l)); }
static void rays(Src& s, Case& c) {
  bool ax, ay; Q p = q3(s), n = unitVec(s, ax), o = q3(s), m = unitVec(s, ay); double r[3] = {1e30, 1e30, 1e30}; double P_[3] = {(double)p.x, (double)p.y, (double)p.z}, N[3] = {(double)n.x, (double)n.y, (double)n.z}, O[3] = {(double)o.x, (double)o.y, (double)o.z}, M[3] = {(double)m.x, (double)m.y, (double)m.z};
  if (s.chance(1, 4)) { p = o + (R)s.range(-4, 4)*ref::cross(m, n); P_[0] = p.x; P_[1] = p.y; P_[2] = p.z; p = Q(P_[0], P_[1], P_[2]); c.label("origin in the plane"); }
  c.desc << "ray=(" << P_[0] << "," << P_[1] << "," << P_[2] << ")+t(" << N[0] << "," << N[1] << "," << N[2] << ") plane=(" << O[0] << "," << O[1] << "," << O[2] << ") normal (" << M[0] << "," << M[1] << "," << M[2] << ")";
  R ns = ref::dot(n, m), h = ref::dot(o - p, m); bool x = geo::rayPlaneIntersection(P_, N, O, M, 1e-10, r);
  if (std::fabs(ns) > 1e-6) { R t = h/ns; if (t > 1e-9) { c.label("hits"); PBT_CHECK(x, "ray-plane", "the ray hits the plane at t=" << (double)t << ", the library says it does not"); Q z = p + t*n; PBT_CHECK(ref::dist(z, Q(r[0], r[1], r[2])) < 1e-9*std::max<R>(1, t), "ray-plane", "wrong point"); } else if (t < -1e-9) { c.label("behind"); PBT_CHECK(!x, "ray-plane", "the plane is behind the ray"); } }
  else if (ns == 0) { c.label("parallel"); if (std::fabs(h) > 1e-9) PBT_CHECK(!x, "ray-plane", "the ray runs parallel to the plane at a distance of " << (double)std::fabs(h) << ", the library says it hits"); if (h == 0) PBT_CHECK(x, "ray-plane", "the ray lies in the plane, the library says it misses"); }
  c.nontrivial = true;
  // From inside a box, a ray leaves through the face that is first in its way.
  double lo[3], hi[3], in[3]; for (int k = 0; k != 3; ++k) { lo[k] = s.range(-8, 8)/4.0; double w = s.range(1, 8)/4.0; hi[k] = lo[k] + w; in[k] = lo[k] + w*(1 + s.range(0, 14))/16.0; }
  double nn[3] = {N[0], N[1], N[2]}; R best = 1e300L, next = 1e300L; int face = -1; for (int k = 0; k != 3; ++k) { if (std::fabs(nn[k]) < 1e-9) continue; R t = (nn[k] > 0 ? hi[k] - in[k] : in[k] - lo[k])/std::fabs(nn[k]); if (t < best) { next = best; best = t; face = 2*k + (nn[k] > 0); } else if (t < next) next = t; }
  int f = geo::rayBoxIntersection(in, nn, lo, hi, 1e-10, r); c.desc << " box=(" << lo[0] << "," << lo[1] << "," << lo[2] << ")-(" << hi[0] << "," << hi[1] << "," << hi[2] << ") from (" << in[0] << "," << in[1] << "," << in[2] << ")";
  if (next - best > 1e-9) PBT_CHECK(f == face, "ray-box", "the ray leaves through face " << face << ", the library says " << f);
  for (int k = 0; k != 3; ++k) PBT_CHECK(std::fabs(in[k] + (double)best*nn[k] - r[k]) < 1e-9, "ray-box", "wrong point on axis " << k);
  // Circle and sphere from inside.
  Q ctr = q3(s); double R0 = 0.25 + s.unit(8)*4, rr = R0*(1 - 1.0/64 - s.unit(6)*0.98), C3[3] = {(double)ctr.x, (double)ctr.y, (double)ctr.z}; bool az; Q dir = unitVec(s, az); double p3[3] = {(double)(ctr.x + rr*dir.x), (double)(ctr.y + rr*dir.y), (double)(ctr.z + rr*dir.z)}, out[3];
  PBT_CHECK(geo::raySphereIntersection(p3, nn, C3, R0, 1e-12, out), "ray-sphere", "a ray from inside misses the sphere"); { Q z(out[0], out[1], out[2]), b(p3[0], p3[1], p3[2]); R t = ref::dot(z - b, n); PBT_CHECK(std::fabs((double)ref::dist(z, ctr) - R0) < 1e-9 && t > 0 && ref::dist(z, b + t*n) < 1e-9, "ray-sphere", "(" << out[0] << "," << out[1] << "," << out[2] << ") is not where the ray leaves"); }
  double a2 = s.unit(10)*6.28, N2[2] = {std::cos(a2), std::sin(a2)}, b2 = s.unit(10)*6.28, p2_[2] = {C3[0] + rr*std::cos(b2), C3[1] + rr*std::sin(b2)};
  PBT_CHECK(geo::rayCircleIntersection(p2_, N2, C3, R0, 1e-12, out), "ray-circle", "a ray from inside misses the circle"); { P z(out[0], out[1]), b(p2_[0], p2_[1]), d(N2[0], N2[1]); R t = ref::dot(z - b, d); PBT_CHECK(std::fabs(std::hypot(out[0] - C3[0], out[1] - C3[1]) - R0) < 1e-9 && t > 0 && ref::dist(z, b + t*d) < 1e-9, "ray-circle", "(" << out[0] << "," << out[1] << ") is not where the ray leaves"); }
}
static void sides(Src& s, Case& c) {
  P a = p2(s), b = p2(s); std::vector<double> v; int n = s.range(1, 8); int up = 0, dn = 0, on = 0; bool one = s.chance(1, 2); R tol = 1e-12L;
  for (int i = 0; i != n; ++i) { P q = s.chance(1, 6) ? a + (R)(s.range(-4, 8)/4.0)*(b - a) : p2(s); q = P((double)q.x, (double)q.y); R z = ref::cross(b - a, q - a); if (z != 0 && std::fabs(z) < tol) throw pbt::Discard(); if (one && i && ((z > 0) != (up > 0) || z == 0)) { q = P(v[0], v[1]); z = ref::cross(b - a, q - a); } v.push_back(q.x); v.push_back(q.y); (z > 0 ? up : z < 0 ? dn : on)++; }
  double A[2] = {(double)a.x, (double)a.y}, B[2] = {(double)b.x, (double)b.y}; c.desc << "line=(" << A[0] << "," << A[1] << ")-(" << B[0] << "," << B[1] << ") points=" << pbt::str(v); c.nontrivial = n > 1;
  int want = up == n ? -1 : dn == n ? 1 : 0, got = geo::aboveBelow(A[0], A[1], B[0], B[1], v); c.label(want < 0 ? "all inside" : want > 0 ? "all outside" : "mixed"); PBT_CHECK(got == want, "above-below", "the cloud is " << want << ", the library says " << got);
  int g1 = geo::aboveBelow(A[0], A[1], B[0], B[1], v[0], v[1]); R z = ref::cross(b - a, P(v[0], v[1]) - a); PBT_CHECK(g1 == (z > 0 ? -1 : z < 0 ? 1 : 0), "above-below", "point 0 is on the other side");
  // The same in space: the plane through the line, standing up.
  bool ax; Q o = q3(s), m = unitVec(s, ax); std::vector<double> w; int pos = 0, neg = 0; for (int i = 0; i != n; ++i) { Q q = q3(s); R t = ref::dot(m, q - o); if (std::fabs(t) < 1e-9) throw pbt::Discard(); if (one && i && (t > 0) != (pos > 0)) { q = Q(w[0], w[1], w[2]); t = ref::dot(m, q - o); } w.push_back(q.x); w.push_back(q.y); w.push_back(q.z); (t > 0 ? pos : neg)++; }
  int w3 = pos == n ? 1 : neg == n ? -1 : 0, g3 = geo::aboveBelow((double)o.x, (double)o.y, (double)o.z, (double)m.x, (double)m.y, (double)m.z, w); PBT_CHECK(g3 == w3, "above-below-3d", "the cloud is " << w3 << ", the library says " << g3);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P24", {
    pbt::target("segments", seg2, 200000, 4000000, "two segments anywhere, aimed at each other, or sharing an end; crossing, missing, parallel; closest point on a segment; non-trivial: they meet or pass close"),
    pbt::target("line2", line2, 120000, 2400000, "2-7 points on a line in the plane, one possibly pushed off; non-trivial: at least 3 points"),
    pbt::target("line3", line3, 120000, 2400000, "2-7 points on a line in space, one possibly pushed off; non-trivial: at least 3 points"),
    pbt::target("rays", rays, 200000, 4000000, "rays against planes, boxes from inside, circles and spheres from inside; axis-parallel directions half the time; all non-trivial"),
    pbt::target("sides", sides, 120000, 2400000, "clouds against lines and planes; non-trivial: at least two points")},
    {"coordinates of size 1 to 16; answers within 1e-6 of a tie are not judged, except exact ties on lattices"});
}
