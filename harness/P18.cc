// P18: where a point lies: within, boost_within, nearestPoint, intersect.
#include "gen.hh"
#include "within.hh"
#include "nearestPoint.hh"
#include "intersect.hh"
#include "PLC_Boost_2d.hh"
using namespace gen;
typedef polytope::PLC<2, double> Plc;
// A boundary handed over in one of the ways a PLC may be written: rings may start anywhere, the
// point list may hold unused points, holes may be listed in either direction.
static void plcOf(Src& s, Case& c, Domain& d, Plc& plc, Reals& pts) {
  toPLC(d, plc, pts);
  if (s.chance(1, 3)) { size_t k = s.draw(plc.facets.size() - 1); std::rotate(plc.facets.begin(), plc.facets.begin() + k, plc.facets.end()); c.label("plc:rotated"); }
  if (s.chance(1, 4)) { // unused points in front and behind
    int n = s.range(1, 3); Reals q; for (int i = 0; i != 2*n; ++i) q.push_back(s.unit(8)); pts.insert(pts.begin(), q.begin(), q.end()); pts.push_back(0.5); pts.push_back(0.25);
    for (size_t f = 0; f != plc.facets.size(); ++f) for (int k = 0; k != 2; ++k) plc.facets[f][k] += n; for (size_t h = 0; h != plc.holes.size(); ++h) for (size_t f = 0; f != plc.holes[h].size(); ++f) for (int k = 0; k != 2; ++k) plc.holes[h][f][k] += n; c.label("plc:unused points");
  }
}
static Frame mild(Src& s) { Frame f; if (s.chance(1, 3)) { static const double sc[] = {2, 0.5, 10, 100}; f.s = sc[s.draw(3)]; f.ox = f.s*s.range(-20, 20)*0.5; f.oy = f.s*s.range(-20, 20)*0.25; } return f; }
static const Poly& ringOf(Src& s, const Domain& d) { size_t r = s.draw(d.holes.size()); return r == 0 ? d.outer : d.holes[r - 1]; }
static P probe(Src& s, const Domain& d) {
  P lo, hi; d.bounds(lo, hi); const double L = d.length(); int kind = (int)s.draw(4); double u = s.unit(20), v = s.unit(20);
  if (kind == 1) { const Poly& r = ringOf(s, d); size_t i = s.draw(r.size() - 1); P a = r[i], b = r[(i + 1)%r.size()]; return P((double)(a.x + u*(b.x - a.x) + 2e-3*L*(v - 0.5)), (double)(a.y + u*(b.y - a.y) + 2e-3*L*(s.unit(8) - 0.5))); }
  if (kind == 2) { const Poly& r = ringOf(s, d); P a = r[s.draw(r.size() - 1)]; const Poly& t = ringOf(s, d); P b = t[s.draw(t.size() - 1)]; return P(s.chance(1, 2) ? (double)a.x : (double)(lo.x + u*(hi.x - lo.x)), s.chance(1, 2) ? (double)b.y : (double)(lo.y + v*(hi.y - lo.y))); } // at the height or abscissa of a corner
  if (kind == 3) return P((double)(lo.x + (1.4*u - 0.2)*(hi.x - lo.x)), (double)(lo.y + (1.4*v - 0.2)*(hi.y - lo.y)));
  if (kind == 4) { const Poly& r = ringOf(s, d); return r[s.draw(r.size() - 1)]; } // a corner
  return P((double)(lo.x + u*(hi.x - lo.x)), (double)(lo.y + v*(hi.y - lo.y)));
}
static void where(Src& s, Case& c) {
  Domain d = s.chance(1, 2) ? generalDomain(s, c, true, true) : convexDomain(s, c, true); apply(mild(s), d); Plc plc; Reals pts; plcOf(s, c, d, plc, pts); const double L = d.length();
  P q[8]; c.desc << "domain=" << pbt::str(flat(d.outer)); for (size_t h = 0; h != d.holes.size(); ++h) c.desc << " hole=" << pbt::str(flat(d.holes[h]));
  polytope::ReducedPLC<2, double> red; red.points = pts; red.facets = plc.facets; red.holes = plc.holes; c.nontrivial = !d.convex() || !d.holes.empty();
  for (int k = 0; k != 8; ++k) {
    P x = probe(s, d); double p[2] = {(double)x.x, (double)x.y}, r[2] = {0, 0}; c.desc << " (" << p[0] << "," << p[1] << ")";
    const double off = std::fabs(p[0]) + std::fabs(p[1]) + L; ref::R bd = d.boundaryDist(x); bool in = d.contains(x), corner = false;
    for (size_t i = 0; i != d.outer.size(); ++i) if (ref::dist(d.outer[i], x) == 0) corner = true; for (size_t h = 0; h != d.holes.size(); ++h) for (size_t i = 0; i != d.holes[h].size(); ++i) if (ref::dist(d.holes[h][i], x) == 0) corner = true;
    bool w = polytope::within<2, double>(p, pts.size()/2, &pts[0], plc);
    // "On" is decided to an angle of about 1e-5 at a wall's end, and to 1e-5 of length at a corner.
    if (bd > 1e-4*L) { PBT_CHECK(w == in, "within", "(" << p[0] << "," << p[1] << ") is " << (in ? "inside" : "outside") << ", within() says " << w);
      bool b = polytope::BG::boost_within(polytope::Point2<double>(p[0], p[1]), red); PBT_CHECK(b == in, "boost-within", "(" << p[0] << "," << p[1] << ") is " << (in ? "inside" : "outside") << ", boost_within() says " << b); c.label("judged inside/outside"); }
    else if (corner) { PBT_CHECK(w, "within-boundary", "corner (" << p[0] << "," << p[1] << ") is not within the boundary"); c.label("judged corner"); }
    double dist = polytope::nearestPoint<2, double>(p, pts.size()/2, &pts[0], plc, r); P y(r[0], r[1]);
    PBT_CHECK(std::fabs(dist - (double)bd) <= 1e-12*off, "nearest-distance", "(" << p[0] << "," << p[1] << ") is " << (double)bd << " from the boundary, nearestPoint() says " << dist);
    PBT_CHECK(d.boundaryDist(y) <= 1e-12*off, "nearest-off-boundary", "(" << r[0] << "," << r[1] << ") is " << (double)d.boundaryDist(y) << " off the boundary");
    PBT_CHECK(std::fabs((double)ref::dist(x, y) - dist) <= 1e-12*off, "nearest-distance", "the point returned is " << (double)ref::dist(x, y) << " away, the distance returned is " << dist);
  }
}
// Boundary points exactly on walls: axis-aligned, and through exact midpoints on a lattice.
static void walls(Src& s, Case& c) {
  Domain d; int w = s.range(2, 8), h = s.range(2, 8); double a = s.range(1, w - 1), b = s.range(1, h - 1);
  if (s.chance(1, 2)) d.outer = {P(0,0), P(w,0), P(w,b), P(a,b), P(a,h), P(0,h)}; else d.outer = box(0, 0, w, h);
  if (s.chance(1, 2)) { d.holes.push_back(box(0.25, 0.25, 0.75, 0.75)); std::reverse(d.holes[0].begin(), d.holes[0].end()); }
  if (s.chance(1, 3)) for (int k = 0; k != 2; ++k) { Poly& p = k == 0 || d.holes.empty() ? d.outer : d.holes[0]; if (k == 1 && d.holes.empty()) break; for (size_t i = 0; i != p.size(); ++i) p[i] = P(p[i].x - p[i].y, p[i].x + p[i].y); } // 45 degrees, still exact
  Plc plc; Reals pts; plcOf(s, c, d, plc, pts); const Poly& r = ringOf(s, d); c.nontrivial = true;
  size_t i = s.draw(r.size() - 1); P e = r[(i + 1)%r.size()] - r[i]; int k = s.range(0, 16); P x = r[i] + (k/16.0L)*e; double p[2] = {(double)x.x, (double)x.y};
  c.desc << "domain=" << pbt::str(flat(d.outer)); if (!d.holes.empty()) c.desc << " hole=" << pbt::str(flat(d.holes[0])); c.desc << " point=(" << p[0] << "," << p[1] << ")"; c.label(&r == &d.outer ? "on the outer wall" : "on a hole's wall");
  PBT_CHECK((polytope::within<2, double>(p, pts.size()/2, &pts[0], plc)), "within-boundary", "the point on the boundary counts as outside");
}
static void segments(Src& s, Case& c) {
  Domain d = s.chance(1, 2) ? generalDomain(s, c, true, true) : convexDomain(s, c, true); if (s.chance(1, 3)) { d.holes.clear(); d.outer = box(0, 0, s.range(1, 4), s.range(1, 4)); } apply(mild(s), d); Plc plc; Reals pts; plcOf(s, c, d, plc, pts); const double L = d.length();
  P x = probe(s, d), y = probe(s, d); double p[2] = {(double)x.x, (double)x.y}, q[2] = {(double)y.x, (double)y.y}; c.desc << "domain=" << pbt::str(flat(d.outer)); for (size_t h = 0; h != d.holes.size(); ++h) c.desc << " hole=" << pbt::str(flat(d.holes[h])); c.desc << " segment=(" << p[0] << "," << p[1] << ")-(" << q[0] << "," << q[1] << ")";
  if (ref::dist(x, y) < 1e-3*L) throw pbt::Discard();
  // Crossings, away from tangencies: every wall is clearly crossed or clearly missed, except that
  // the segment may pass exactly through corners (then that corner is one of the points).
  std::vector<P> want; bool through = false;
  for (size_t r = 0; r != d.holes.size() + 1; ++r) {
    const Poly& w = r == 0 ? d.outer : d.holes[r - 1]; 
    for (size_t i = 0; i != w.size(); ++i) {
      P a = w[i], b = w[(i + 1)%w.size()], e = b - a, f = y - x; ref::R cr = ref::cross(f, e), l = ref::norm(e)*ref::norm(f);
      if (std::fabs(cr) < 1e-3*l) { if (ref::segSegDist(x, y, a, b) < 1e-3*L) throw pbt::Discard(); continue; }
      ref::R t = ref::cross(a - x, e)/cr, u = ref::cross(a - x, f)/cr; const ref::R m = 1e-4L;
      if (t < -m || t > 1 + m || u < -m || u > 1 + m) continue;
      bool endT = std::fabs(t) <= m || std::fabs(t - 1) <= m, endU = std::fabs(u) <= m || std::fabs(u - 1) <= m; P z = x + t*f;
      if (endT) { P g = t < 0.5L ? x : y; if (endU) { P k = u < 0.5L ? a : b; if (ref::dist(g, k) != 0) throw pbt::Discard(); z = k; } else throw pbt::Discard(); }
      else if (endU) { P k = u < 0.5L ? a : b; if (std::fabs(ref::cross(k - x, f)) > 1e-14L*L*ref::norm(f)) throw pbt::Discard(); z = k; through = true; }
      bool seen = false; for (size_t k = 0; k != want.size(); ++k) if (ref::dist(want[k], z) < 1e-9L*L) seen = true; else if (ref::dist(want[k], z) < 1e-5L*L) throw pbt::Discard(); if (!seen) want.push_back(z);
    }
  }
  c.nontrivial = !want.empty(); std::ostringstream os; os << want.size() << " crossings"; c.label(os.str()); if (through) c.label("through a corner");
  Reals out; unsigned n = polytope::intersect<2, double>(p, q, pts.size()/2, &pts[0], plc, out); PBT_CHECK(out.size() == 2*n, "intersect-shape", n << " intersections, " << out.size() << " coordinates");
  PBT_CHECK(n == want.size(), "intersect-count", n << " intersections " << pbt::str(out) << ", expected " << pbt::str(flat(want)));
  for (size_t k = 0; k != want.size(); ++k) { bool found = false; for (unsigned i = 0; i != n; ++i) if (ref::dist(want[k], P(out[2*i], out[2*i + 1])) < 1e-7*L) found = true; PBT_CHECK(found, "intersect-point", "the crossing at (" << (double)want[k].x << "," << (double)want[k].y << ") is not among " << pbt::str(out)); }
  // Seen from the other end, the same points.
  Reals back; unsigned m = polytope::intersect<2, double>(q, p, pts.size()/2, &pts[0], plc, back); PBT_CHECK(m == n, "intersect-symmetry", n << " intersections one way, " << m << " the other");
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P18", {
    pbt::target("where", where, 100000, 2000000, "a simple polygon with up to 3 holes (rings starting anywhere, unused points in the list) and 8 probe points: anywhere, near walls, at the height of corners, outside, at corners; non-trivial: the domain is not convex"),
    pbt::target("walls", walls, 100000, 2000000, "points exactly on walls with exact coordinates; all non-trivial"),
    pbt::target("segments", segments, 150000, 3000000, "a segment and a polygon with holes, crossing walls clearly or exactly through corners; non-trivial: at least one crossing")},
    {"inside/outside is judged 1e-4 of the domain's size away from walls, and at points exactly on walls", "domains of size 0.5 to 100: the library's on-boundary test uses an absolute tolerance"});
}
