// P19: do two convex shapes meet, and does one contain the other?
#include "gen.hh"
#include "convexIntersect.hh"
#include "convexWithin.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
using namespace gen; using ref::R; using ref::Q;
typedef polytope::ReducedPLC<2, double> Plc2; typedef polytope::ReducedPLC<3, double> Plc3;
static Plc2 plc(const Poly& p) { Plc2 r; r.points = flat(p); int n = (int)p.size(); for (int i = 0; i != n; ++i) { std::vector<int> f; f.push_back(i); f.push_back((i + 1)%n); r.facets.push_back(f); } return r; }
static Poly convexPoly(Src& s, Case& c) {
  int kind = (int)s.draw(3); double x = s.range(-8, 8)/4.0, y = s.range(-8, 8)/4.0; 
  if (kind == 0) { double w = s.range(1, 8)/4.0, h = s.range(1, 8)/4.0; c.label("box"); return box(x, y, x + w, y + h); }
  if (kind == 1) { double m = std::exp(3*(s.unit(8) - 0.7)); c.label("regular"); Poly p; int n = s.range(3, 9); double rot = s.unit(8)*6.28; for (int i = 0; i != n; ++i) p.push_back(P((double)(x + m*std::cos(rot + 6.283185307179586*i/n)), (double)(y + m*std::sin(rot + 6.283185307179586*i/n)))); return p; }
  std::vector<P> v; int n = s.range(3, 12); double m = 0.2 + 2*s.unit(6); for (int i = 0; i != n; ++i) { double u = s.unit(12), w = s.unit(12); if (kind == 3) { u = std::floor(u*8)/8; w = std::floor(w*8)/8; m = 2; } v.push_back(P((double)(x + m*u), (double)(y + m*w))); }
  std::vector<size_t> h = ref::hull(v); Poly p; for (size_t i = 0; i != h.size(); ++i) p.push_back(v[h[i]]); if (p.size() < 3 || ref::area(p) < 1e-3) return box(x, y, x + 1, y + 1); c.label("hull"); return p;
}
// Largest signed gap over the face normals of both (exact separating axes in 2D).
static R gap2(const Poly& a, const Poly& b) {
  R g = -1e300L;
  for (int k = 0; k != 2; ++k) { const Poly& p = k ? b : a; const Poly& q = k ? a : b; for (size_t i = 0; i != p.size(); ++i) { P e = p[(i + 1)%p.size()] - p[i]; P n(e.y, -e.x); R m = 1e300L; for (size_t j = 0; j != q.size(); ++j) m = std::min(m, ref::dot(n, q[j] - p[i])); g = std::max(g, m/ref::norm(n)); } }
  return g;
}
static R depth2(const Poly& a, const Poly& b) { R m = 1e300L; for (size_t i = 0; i != b.size(); ++i) { P e = b[(i + 1)%b.size()] - b[i]; for (size_t j = 0; j != a.size(); ++j) m = std::min(m, ref::cross(e, a[j] - b[i])/ref::norm(e)); } return m; } // > 0: a strictly inside b
static void pair2(Src& s, Case& c) {
  Poly a = convexPoly(s, c), b = convexPoly(s, c); int rel = (int)s.draw(4);
  if (rel == 1) { b = a; double t = s.range(1, 15)/16.0; P m; for (size_t i = 0; i != a.size(); ++i) m = m + (1.0L/a.size())*a[i]; for (size_t i = 0; i != b.size(); ++i) b[i] = P((double)(m.x + t*(b[i].x - m.x)), (double)(m.y + t*(b[i].y - m.y))); } // nested
  if (rel == 2) { double t = s.unit(8)*6.28, far = s.unit(8)*4; for (size_t i = 0; i != b.size(); ++i) b[i] = P((double)(b[i].x + far*std::cos(t)), (double)(b[i].y + far*std::sin(t))); }
  if (s.chance(1, 2)) std::swap(a, b);
  Frame f = frame(s); apply(f, a); apply(f, b); c.desc << "a=" << pbt::str(flat(a)) << " b=" << pbt::str(flat(b));
  Domain da; da.outer = a; R L = 0; for (size_t i = 0; i != a.size(); ++i) L = std::max(L, ref::dist(a[i], a[0])); for (size_t i = 0; i != b.size(); ++i) L = std::max(L, ref::dist(b[i], a[0])); L += std::fabs(a[0].x) + std::fabs(a[0].y);
  R g = gap2(a, b), d = depth2(a, b); c.nontrivial = true; bool exact = f.s == 1 && f.ox == 0; (void)exact;
  if (std::fabs(g) > 1e-9L*L) { c.label(g > 0 ? "apart" : "meet"); PBT_CHECK(polytope::convexIntersect(plc(a), plc(b)) == (g < 0), "convex-intersect", "the polygons " << (g < 0 ? "overlap by " : "are apart by ") << (double)std::fabs(g) << ", convexIntersect says " << (g > 0)); PBT_CHECK(polytope::convexIntersect(plc(b), plc(a)) == (g < 0), "convex-intersect", "the polygons, swapped, " << (g < 0 ? "overlap" : "are apart")); }
  if (std::fabs(d) > 1e-9L*L) { if (d > 0) c.label("nested"); PBT_CHECK(polytope::convexWithin(plc(a), plc(b)) == (d > 0), "convex-within", "a is " << (d > 0 ? "inside b by " : "outside b by ") << (double)std::fabs(d) << ", convexWithin says " << (d < 0)); }
}
// Polyhedra: boxes, tetrahedra, prisms and hulls under rigid motions.
struct Poly3 { std::vector<Q> v; std::vector<std::vector<int> > f; };
static Plc3 plc(const Poly3& p) { Plc3 r; for (size_t i = 0; i != p.v.size(); ++i) { r.points.push_back(p.v[i].x); r.points.push_back(p.v[i].y); r.points.push_back(p.v[i].z); } r.facets = p.f; return r; }
static Poly3 solid(Src& s, Case& c) {
  Poly3 p; int kind = (int)s.draw(3); double w = s.range(1, 8)/4.0, h = s.range(1, 8)/4.0, l = s.range(1, 8)/4.0;
  if (kind == 0) { for (int i = 0; i != 8; ++i) p.v.push_back(Q(w*(i&1), h*((i >> 1)&1), l*(i >> 2))); p.f = {{0,4,6,2}, {1,3,7,5}, {0,1,5,4}, {2,6,7,3}, {0,2,3,1}, {4,5,7,6}}; c.label("box"); }
  else if (kind == 1) { p.v = {Q(0,0,0), Q(w,0,0), Q(0,h,0), Q(0,0,l)}; p.f = {{0,2,1}, {0,1,3}, {0,3,2}, {1,2,3}}; c.label("tetrahedron"); }
  else if (kind == 2) { int n = s.range(3, 8); std::vector<int> lo, hi; for (int i = 0; i != n; ++i) { double a = 6.283185307179586*i/n; p.v.push_back(Q((double)(w*std::cos(a)), (double)(w*std::sin(a)), 0)); } for (int i = 0; i != n; ++i) p.v.push_back(p.v[i] + Q(0, 0, l)); for (int i = 0; i != n; ++i) { lo.push_back(n - 1 - i); hi.push_back(n + i); p.f.push_back({i, (i + 1)%n, n + (i + 1)%n, n + i}); } p.f.push_back(lo); p.f.push_back(hi); c.label("prism"); }
  else { int n = s.range(3, 6); for (int i = 0; i != n; ++i) { double a = 6.283185307179586*i/n; p.v.push_back(Q((double)(w*std::cos(a)), (double)(w*std::sin(a)), 0)); } p.v.push_back(Q(0, 0, l)); p.v.push_back(Q(0, 0, -h)); for (int i = 0; i != n; ++i) { p.f.push_back({i, (i + 1)%n, n}); p.f.push_back({(i + 1)%n, i, n + 1}); } c.label("bipyramid"); }
  if (s.chance(2, 3)) { // rotate
    double a = s.unit(8)*6.28, b = s.unit(8)*6.28; if (s.chance(1, 3)) { a = 0.7853981633974483*s.range(0, 7); b = 0.7853981633974483*s.range(0, 7); }
    for (size_t i = 0; i != p.v.size(); ++i) { Q q = p.v[i]; Q r(q.x*std::cos(a) - q.y*std::sin(a), q.x*std::sin(a) + q.y*std::cos(a), q.z); p.v[i] = Q((double)r.x, (double)(r.y*std::cos(b) - r.z*std::sin(b)), (double)(r.y*std::sin(b) + r.z*std::cos(b))); }
  }
  double x = s.range(-16, 16)/8.0, y = s.range(-16, 16)/8.0, z = s.range(-16, 16)/8.0; for (size_t i = 0; i != p.v.size(); ++i) p.v[i] = Q((double)(p.v[i].x + x), (double)(p.v[i].y + y), (double)(p.v[i].z + z));
  if (s.chance(1, 3)) for (size_t f = 0; f != p.f.size(); ++f) std::rotate(p.f[f].begin(), p.f[f].begin() + s.draw(p.f[f].size() - 1), p.f[f].end());
  return p;
}
// Signed gap between two polyhedra: all face normals and all edge-edge directions.
static R gap3(const Poly3& a, const Poly3& b, bool& edgeOnly) {
  R face = -1e300L, all = -1e300L; std::vector<Q> ea, eb;
  auto along = [&](Q n) { R l = ref::norm(n); if (l < 1e-9L) return -1e300L; R a0 = 1e300L, a1 = -1e300L, b0 = 1e300L, b1 = -1e300L; for (size_t i = 0; i != a.v.size(); ++i) { R t = ref::dot(n, a.v[i])/l; a0 = std::min(a0, t); a1 = std::max(a1, t); } for (size_t i = 0; i != b.v.size(); ++i) { R t = ref::dot(n, b.v[i])/l; b0 = std::min(b0, t); b1 = std::max(b1, t); } return std::max(b0 - a1, a0 - b1); };
  for (int k = 0; k != 2; ++k) { const Poly3& p = k ? b : a; std::vector<Q>& e = k ? eb : ea; for (size_t f = 0; f != p.f.size(); ++f) { const std::vector<int>& g = p.f[f]; face = std::max(face, along(ref::cross(p.v[g[1]] - p.v[g[0]], p.v[g[2]] - p.v[g[0]]))); for (size_t j = 0; j != g.size(); ++j) if (g[j] < g[(j + 1)%g.size()]) e.push_back(p.v[g[(j + 1)%g.size()]] - p.v[g[j]]); } }
  all = face; for (size_t i = 0; i != ea.size(); ++i) for (size_t j = 0; j != eb.size(); ++j) all = std::max(all, along(ref::cross(ea[i], eb[j]))); edgeOnly = all > 1e-9L && face < -1e-9L; return all;
}
static R depth3(const Poly3& a, const Poly3& b) { R m = 1e300L; for (size_t f = 0; f != b.f.size(); ++f) { Q o = b.v[b.f[f][0]], n = ref::cross(b.v[b.f[f][1]] - o, b.v[b.f[f][2]] - o); for (size_t i = 0; i != a.v.size(); ++i) m = std::min(m, -ref::dot(n, a.v[i] - o)/ref::norm(n)); } return m; }
static void pair3(Src& s, Case& c) {
  Poly3 a = solid(s, c), b = solid(s, c); int rel = (int)s.draw(3);
  if (rel == 1) { b = a; double t = s.range(1, 15)/16.0; Q m; for (size_t i = 0; i != a.v.size(); ++i) m = m + (1.0L/a.v.size())*a.v[i]; for (size_t i = 0; i != b.v.size(); ++i) { Q q = m + t*(b.v[i] - m); b.v[i] = Q((double)q.x, (double)q.y, (double)q.z); } }
  if (rel == 2) { // two edges held across each other at a small gap
    double gap = (s.range(-8, 8) + 0.5)/32.0; std::vector<Q> t = {Q(-1,0,0), Q(1,0,0), Q(0,-0.5,-1), Q(0,0.5,-1)}, u = {Q(0,-1,gap), Q(0,1,gap), Q(-0.5,0,gap + 1), Q(0.5,0,gap + 1)};
    a.v = t; a.f = {{0,2,1}, {0,1,3}, {0,3,2}, {1,2,3}}; b.v = u; b.f = {{0,2,1}, {0,1,3}, {0,3,2}, {1,2,3}}; for (int k = 0; k != 2; ++k) { Poly3& p = k ? b : a; Q e1 = p.v[1] - p.v[0], e2 = p.v[2] - p.v[0], e3 = p.v[3] - p.v[0]; if (ref::det(e1, e2, e3) < 0) std::swap(p.v[2], p.v[3]); }
    double an = s.unit(8)*6.28, bn = s.unit(8)*6.28; for (int k = 0; k != 2; ++k) { Poly3& p = k ? b : a; for (size_t i = 0; i != 4; ++i) { Q q = p.v[i], r(q.x*std::cos(an) - q.z*std::sin(an), q.y, q.x*std::sin(an) + q.z*std::cos(an)); p.v[i] = Q((double)(r.x*std::cos(bn) - r.y*std::sin(bn) + 1), (double)(r.x*std::sin(bn) + r.y*std::cos(bn) - 2), (double)r.z); } } c.label("crossed edges");
  }
  if (s.chance(1, 2)) std::swap(a, b);
  c.desc << "a=" << pbt::str(plc(a).points) << " " << pbt::str(a.f) << " b=" << pbt::str(plc(b).points) << " " << pbt::str(b.f); bool edgeOnly; R g = gap3(a, b, edgeOnly), d = depth3(a, b); c.nontrivial = true; if (edgeOnly) c.label("only edges separate them");
  if (std::fabs(g) > 1e-9L) { c.label(g > 0 ? "apart" : "meet"); bool x = polytope::convexIntersect(plc(a), plc(b)), y = polytope::convexIntersect(plc(b), plc(a)); PBT_CHECK(x == (g < 0) && y == (g < 0), "convex-intersect", "the polyhedra " << (g < 0 ? "overlap by " : "are apart by ") << (double)std::fabs(g) << ", convexIntersect says " << x << " and, swapped, " << y); }
  if (std::fabs(d) > 1e-9L) { if (d > 0) c.label("nested"); bool x = polytope::convexWithin(plc(a), plc(b)); PBT_CHECK(x == (d > 0), "convex-within", "a is " << (d > 0 ? "inside b by " : "outside b by ") << (double)std::fabs(d) << ", convexWithin says " << x); }
}
// The way the distributed tessellator uses them: hulls of clouds.
static void clouds(Src& s, Case& c) {
  std::vector<P> g[2]; for (int k = 0; k != 2; ++k) { int n = s.range(3, 20); double x = s.range(-8, 8)/4.0, y = s.range(-8, 8)/4.0, m = 0.2 + 2*s.unit(6); for (int i = 0; i != n; ++i) { double u = s.unit(12), v = s.unit(12); g[k].push_back(P((double)(x + m*u), (double)(y + m*v))); } }
  Plc2 h[2]; Poly p[2]; for (int k = 0; k != 2; ++k) { Reals q = flat(g[k]); double low[2] = {-4, -4}; polytope::PLC<2, double> r = polytope::convexHull_2d<double>(q, low, 1e-6); if (r.facets.size() < 3) throw pbt::Discard(); h[k] = Plc2(r, q); std::vector<size_t> e = ref::hull(g[k]); for (size_t i = 0; i != e.size(); ++i) p[k].push_back(g[k][e[i]]); }
  c.desc << "a=" << pbt::str(flat(g[0])) << " b=" << pbt::str(flat(g[1])); R gp = gap2(p[0], p[1]), d = depth2(p[0], p[1]); c.nontrivial = true; if (ref::area(p[0]) < 1e-2 || ref::area(p[1]) < 1e-2) throw pbt::Discard();
  if (std::fabs(gp) > 1e-4L) { c.label(gp > 0 ? "apart" : "meet"); PBT_CHECK(polytope::convexIntersect(h[0], h[1]) == (gp < 0), "hull-intersect", "the hulls " << (gp < 0 ? "overlap by " : "are apart by ") << (double)std::fabs(gp)); }
  if (std::fabs(d) > 1e-4L) { if (d > 0) c.label("nested"); PBT_CHECK(polytope::convexWithin(h[0], h[1]) == (d > 0), "hull-within", "hull a is " << (d > 0 ? "inside b by " : "outside b by ") << (double)std::fabs(d)); }
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P19", {
    pbt::target("pair2", pair2, 150000, 3000000, "two convex polygons (boxes, regular, hulls; nested, apart, overlapping, any scale and place) against an exact separating-axis test; all non-trivial"),
    pbt::target("pair3", pair3, 150000, 3000000, "two convex polyhedra (boxes, tetrahedra, prisms, bipyramids, turned; nested; edge across edge at a small gap) against a separating-axis test over faces and edge pairs; all non-trivial"),
    pbt::target("clouds", clouds, 25000, 500000, "hulls of two clouds built by the library's own hull and reduction; all non-trivial")},
    {"pairs that touch within 1e-9 of their size are not judged"});
}
