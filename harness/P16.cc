// P16: the 2D convex hull.
#include "gen.hh"
#include "convexHull_2d.hh"
using namespace gen;
static std::vector<P> points(Src& s, Case& c, double& dx) {
  std::vector<P> v; int kind = (int)s.draw(6); static const double DX[] = {1e-6, 1e-8, 1e-3, 1.0/1024, 1e-5}; dx = DX[s.draw(4)];
  static const char* names[] = {"uniform", "lattice", "circle", "collinear", "few", "duplicates", "one place"}; c.label(std::string("points:") + names[kind]);
  int n = s.range(1, kind == 4 ? 4 : 60);
  double ang = s.chance(1, 3) ? s.range(0, 3)*0.7853981633974483 : s.unit(10)*6.28;
  for (int i = 0; i != n; ++i) {
    if (kind == 0 || kind == 4) { double x = s.unit(20), y = s.unit(20); v.push_back(P(x, y)); }
    else if (kind == 1) { double x = s.range(0, 8)/8.0, y = s.range(0, 8)/8.0; v.push_back(P(x, y)); }
    else if (kind == 2) { double a = 6.283185307179586*i/n + 0.1, r = s.chance(1, 5) ? s.unit(8) : 1.0; v.push_back(P((double)(0.5 + 0.5*r*std::cos(a)), (double)(0.5 + 0.5*r*std::sin(a)))); }
    else if (kind == 3) { double t = s.range(-16, 16)/16.0; v.push_back(P((double)(t*std::cos(ang)), (double)(t*std::sin(ang)))); }
    else if (kind == 5) { if (!v.empty() && s.chance(1, 2)) v.push_back(v[s.draw(v.size() - 1)]); else { double x = s.unit(16), y = s.unit(16); v.push_back(P(x, y)); } }
    else v.push_back(P(0.25, 0.75));
  }
  Frame f; if (s.chance(1, 3)) { static const double sc[] = {2, 10, 0.5, 1000}; f.s = sc[s.draw(3)]; f.ox = s.range(-20, 20)*f.s/4; f.oy = s.range(-20, 20)*f.s/8; }
  apply(f, v); return v;
}
static void hull2(Src& s, Case& c) {
  double dx; std::vector<P> v = points(s, c, dx); Reals q = flat(v); P lo = v[0], hi = v[0];
  for (size_t i = 0; i != v.size(); ++i) { lo.x = std::min(lo.x, v[i].x); lo.y = std::min(lo.y, v[i].y); hi.x = std::max(hi.x, v[i].x); hi.y = std::max(hi.y, v[i].y); }
  const double L = std::max<double>(1e-3, std::max((double)(hi.x - lo.x), (double)(hi.y - lo.y))); dx *= L;
  double low[2] = {(double)lo.x, (double)lo.y}; if (s.chance(1, 4)) { low[0] -= L*s.unit(4); low[1] -= L*s.unit(4); }
  c.desc << "points=" << pbt::str(q) << " dx=" << dx << " low=(" << low[0] << "," << low[1] << ")";
  polytope::PLC<2, double> h = polytope::convexHull_2d<double>(q, low, dx); const int n = (int)v.size();
  PBT_CHECK(!h.facets.empty() && h.holes.empty(), "hull-shape", h.facets.size() << " facets, " << h.holes.size() << " holes");
  for (size_t f = 0; f != h.facets.size(); ++f) { PBT_CHECK(h.facets[f].size() == 2, "hull-shape", "facet " << f << " has " << h.facets[f].size() << " points"); for (int k = 0; k != 2; ++k) PBT_CHECK(h.facets[f][k] >= 0 && h.facets[f][k] < n, "hull-shape", "facet " << f << " names point " << h.facets[f][k] << " of " << n); }
  std::vector<size_t> e = ref::hull(v); const double tol = 6*dx + 1e-12*(L + std::fabs(low[0]) + std::fabs(low[1]));
  // How flat is the cloud? The library treats thin clouds as lines at an angle of sqrt(2 dx).
  Poly hp; for (size_t i = 0; i != e.size(); ++i) hp.push_back(v[e[i]]); ref::R A = e.size() >= 3 ? ref::area(hp) : 0, D = 0; for (size_t i = 0; i != e.size(); ++i) for (size_t j = 0; j != i; ++j) D = std::max(D, ref::dist(hp[i], hp[j]));
  const double thick = D > 0 ? (double)(A/D) : 0;
  // The test for collinear points looks at angles at point 0, to sqrt(2 dx): decide how flat that makes it.
  bool flatTo0 = true, clearly = false; { size_t j = 1; while (j != v.size() && ref::dist(v[0], v[j]) < dx) ++j; if (j != v.size()) for (size_t i = 2; i < v.size(); ++i) { P a = v[j] - v[0], b = v[i] - v[0]; ref::R ab2 = ref::dot(a, a), ac2 = ref::dot(b, b); if (ab2 < 4*dx || ac2 < 4*dx) { if (ab2 > 0.25*dx && ac2 > 0.25*dx) flatTo0 = false; continue; } double sn = (double)(std::fabs(ref::cross(a, b))/std::sqrt(ab2*ac2)), lim = std::sqrt(2*dx); if (sn > 2*lim) clearly = true; if (sn > 0.5*lim) flatTo0 = false; } }
  if (thick > 0 && thick < 80*tol) throw pbt::Discard();
  if (A == 0 || (thick == 0)) {
    c.label(D == 0 ? "hull is a point" : "hull is a segment"); c.nontrivial = D > 0 && v.size() > 2;
    PBT_CHECK(h.facets.size() == 1, "hull-line", "collinear points have a hull of " << h.facets.size() << " facets");
    int a = h.facets[0][0], b = h.facets[0][1]; PBT_CHECK(ref::dist(v[a], v[b]) >= D - 2*tol, "hull-line", "the hull of collinear points is " << (double)ref::dist(v[a], v[b]) << " long, the farthest two are " << (double)D << " apart");
    return;
  }
  if (!clearly) throw pbt::Discard();
  (void)flatTo0; c.nontrivial = e.size() >= 3; c.label("hull is a polygon");
  const size_t m = h.facets.size(); PBT_CHECK(m >= 3, "hull-shape", "the hull of points that are not collinear has " << m << " facets"); Poly p; std::set<int> once;
  for (size_t f = 0; f != m; ++f) { PBT_CHECK(h.facets[f][1] == h.facets[(f + 1)%m][0], "hull-ring", "facet " << f << " ends at point " << h.facets[f][1] << ", the next starts at " << h.facets[(f + 1)%m][0]); PBT_CHECK(once.insert(h.facets[f][0]).second, "hull-ring", "point " << h.facets[f][0] << " is used twice"); p.push_back(v[h.facets[f][0]]); }
  PBT_CHECK(ref::area(p) > 0, "hull-orientation", "the hull is not counter-clockwise");
  for (size_t f = 0; f != m; ++f) { P a = p[f], b = p[(f + 1)%m]; ref::R l = ref::dist(a, b); PBT_CHECK(l > 0, "hull-ring", "facet " << f << " has no length"); }
  for (size_t i = 0; i != v.size(); ++i) PBT_CHECK(ref::inside(v[i], p) || ref::polyDist(v[i], p) <= tol, "hull-misses-point", "point " << i << " lies " << (double)ref::polyDist(v[i], p) << " outside the hull");
  PBT_CHECK(std::fabs((double)(ref::area(p) - A)) <= 4*tol*(double)D, "hull-area", "area " << (double)ref::area(p) << ", expected " << (double)A);
}
// Points on multiples of the quantum hash exactly, so the hull must be the exact one, without corners on straight edges.
static void exact(Src& s, Case& c) {
  const int w = s.pick(std::vector<int>{3, 6, 20, 300}), n = s.range(3, 40); const double dx = std::ldexp(1.0, s.range(-24, 0)), step = dx*(double)s.pick(std::vector<int>{4, 64, 1024}); const double ox = s.chance(1, 2) ? 0 : s.range(-50, 50)*step, oy = s.chance(1, 2) ? 0 : s.range(-50, 50)*step; std::vector<P> v;
  for (int i = 0; i != n; ++i) { if (!v.empty() && s.chance(1, 6)) v.push_back(v[s.draw(v.size() - 1)]); else { double x = ox + s.range(0, w)*step, y = oy + s.range(0, w)*step; v.push_back(P(x, y)); } }
  Reals q = flat(v); P lo = v[0]; for (auto& p : v) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); } double low[2] = {(double)lo.x, (double)lo.y}; c.desc << "points=" << pbt::str(q) << " dx=" << dx;
  std::vector<size_t> e = ref::hull(v); if (e.size() < 3) throw pbt::Discard();
  // Stay clear of the library's tolerance for collinear clouds, which looks at angles at the first point.
  bool clearly = false; { size_t j = 1; while (j != v.size() && ref::dist(v[0], v[j]) < dx) ++j; if (j == v.size()) throw pbt::Discard(); P a = v[j] - v[0]; for (size_t i = 2; i < v.size(); ++i) { P b = v[i] - v[0]; ref::R ab = ref::dot(a, a), ac = ref::dot(b, b); if (ab > 4*dx && ac > 4*dx && std::fabs(ref::cross(a, b)) > 2*std::sqrt(2*dx)*std::sqrt(ab*ac)) clearly = true; } } if (!clearly) throw pbt::Discard();
  polytope::PLC<2, double> h = polytope::convexHull_2d<double>(q, low, dx); std::set<std::pair<double, double> > got, want; for (size_t i : e) want.insert(std::make_pair((double)v[i].x, (double)v[i].y)); c.nontrivial = v.size() > e.size(); c.label(v.size() > e.size() ? "points not on the hull" : "all corners");
  for (size_t f = 0; f != h.facets.size(); ++f) { PBT_CHECK(h.facets[f].size() == 2 && h.facets[f][0] >= 0 && h.facets[f][0] < n, "hull-shape", "facet " << f << " is " << pbt::str(h.facets[f])); const P& p = v[h.facets[f][0]]; PBT_CHECK(got.insert(std::make_pair((double)p.x, (double)p.y)).second, "hull-ring", "the corner (" << (double)p.x << "," << (double)p.y << ") is there twice"); PBT_CHECK(want.count(std::make_pair((double)p.x, (double)p.y)), "hull-corner", "(" << (double)p.x << "," << (double)p.y << ") is a corner but lies on or in the hull of the others"); }
  PBT_CHECK(got.size() == want.size(), "hull-corner", got.size() << " corners, the hull has " << want.size());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P16", {pbt::target("hull2", hull2, 250000, 5000000, "1-60 points (uniform, on a lattice, on a circle, on a line, repeated, all in one place), quantum 1e-3 to 1e-8 of their extent, anywhere; compared with an exact monotone-chain hull; non-trivial: not all points in one place"),
    pbt::target("exact", exact, 60000, 2000000, "3-40 points on multiples of the quantum (from 3x3 to 300x300), some repeated, so that rounding plays no part; the corners must be exactly those of the hull; non-trivial: some point is no corner")},
    {"clouds thinner than 400 quanta but not exactly straight, and clouds the library may call collinear at its angular tolerance sqrt(2 dx), are not judged"});
}
