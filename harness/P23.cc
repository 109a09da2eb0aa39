// P23: quantizing positions and merging coincident points.
#include "pbt.hh"
#include <cmath>
#include <set>
#include <map>
#include <limits>
#include <algorithm>
#include "polytope.hh"
#include "polytope_geometric_utilities.hh"
using pbt::Src; using pbt::Case;
typedef long double R;
template<int D> struct Box { double lo[D], hi[D]; };
static const double EPS = std::numeric_limits<double>::epsilon();
template<int D> static double top() { return D == 2 ? 2147483647.0 : 2097151.0; }
template<int D> static double step(const Box<D>& b, int j, double tol) { return std::max((b.hi[j] - b.lo[j])/top<D>(), std::max(tol, EPS)); }
template<int D> static bool in(const Box<D>& b, const double* p) { for (int j = 0; j != D; ++j) if (p[j] < b.lo[j] || p[j] > b.hi[j]) return false; return true; }
static double place(Src& s, double lo, double hi) { switch (s.draw(5)) { case 0: return lo; case 1: return hi; case 2: return std::min(hi, std::max(lo, lo + (hi - lo)*s.range(0, 8)/8.0)); case 3: return std::min(hi, lo + (hi - lo)*s.unit(10)*1e-8); case 4: return std::max(lo, hi - (hi - lo)*s.unit(10)*1e-8); default: return std::min(hi, lo + (hi - lo)*s.unit()); } }
// The outer box, and an inner one within it (often the same).
template<int D> static void boxes(Src& s, Case& c, Box<D>& in, Box<D>& out, bool two) {
  const double scale = std::pow(10.0, s.range(-6, 9)); const int off = s.range(-100, 100)*(int)s.draw(1);
  for (int j = 0; j != D; ++j) { double w = scale*(0.1 + s.unit(8)); if (!two && D == 2 && s.chance(1, 12)) { w = 0; c.label("flat box"); } out.lo[j] = scale*off*0.37; out.hi[j] = out.lo[j] + w; in.lo[j] = out.lo[j]; in.hi[j] = out.hi[j]; }
  if (two) for (int j = 0; j != D; ++j) { in.lo[j] += (out.hi[j] - out.lo[j])*s.unit(4)*0.4; in.hi[j] -= (out.hi[j] - out.lo[j])*s.unit(4)*0.4; }
  c.desc << "outer=["; for (int j = 0; j != D; ++j) c.desc << out.lo[j] << ".." << out.hi[j] << " "; c.desc << "] inner=["; for (int j = 0; j != D; ++j) c.desc << in.lo[j] << ".." << in.hi[j] << " "; c.desc << "]";
}
template<int D> static void hashing(Src& s, Case& c) {
  typedef polytope::geometry::Hasher<D, double> H; Box<D> bi, bo; const bool two = s.chance(1, 2); boxes<D>(s, c, bi, bo, two); double ext = 0; for (int j = 0; j != D; ++j) ext = std::max(ext, bo.hi[j] - bo.lo[j]);
  static const double tl[] = {0, 0, 1e-12, 1e-7, 1e-3}; const double tol = ext*tl[s.draw(4)]; c.desc << " tol=" << tol; c.label(two ? "two boxes" : "one box"); if (tol > 0) c.label("with a tolerance");
  const int n = s.range(2, 12); std::vector<std::vector<double> > p; std::vector<uint64_t> h; bool flags[2] = {false, false};
  for (int i = 0; i != n; ++i) {
    std::vector<double> x(D); if (i && s.chance(1, 3)) { // a close or exact copy
      x = p[s.draw(p.size() - 1)]; const int how = (int)s.draw(2); for (int j = 0; j != D && how; ++j) x[j] = std::max(bo.lo[j], std::min(bo.hi[j], x[j] + (how == 1 ? 1 : 40)*(s.unit(6) - 0.5)*step<D>(bi, j, tol))); }
    else { const bool inner = s.chance(1, 2); for (int j = 0; j != D; ++j) x[j] = inner ? place(s, bi.lo[j], bi.hi[j]) : place(s, bo.lo[j], bo.hi[j]); }
    p.push_back(x); h.push_back(H::hashPosition(&x[0], bi.lo, bi.hi, bo.lo, bo.hi, tol)); c.desc << " " << pbt::str(x);
    const bool outer = !in<D>(bi, &x[0]); flags[outer] = true; const Box<D>& b = outer ? bo : bi;
    PBT_CHECK((h[i] >= H::outerFlag()) == outer, "flag", "point " << i << " is " << (outer ? "outside" : "inside") << " the inner box but its hash is " << h[i]);
    double y[D]; H::unhashPosition(y, bi.lo, bi.hi, bo.lo, bo.hi, h[i], tol); bool back = true;
    for (int j = 0; j != D; ++j) {
      const double d = step<D>(b, j, tol), slack = 1e-3*d + 8*EPS*std::max(std::fabs(b.lo[j]), std::fabs(b.hi[j]));
      PBT_CHECK(y[j] >= b.lo[j] && y[j] <= b.hi[j], "unhash-range", "point " << i << " unhashes to " << y[j] << " on axis " << j << ", outside the box");
      PBT_CHECK(std::fabs(y[j] - x[j]) <= 0.5*d + slack, "unhash-far", "point " << i << " unhashes to " << y[j] << " on axis " << j << ", " << (y[j] - x[j])/d << " steps away");
      if (d < 64*EPS*std::max(std::fabs(b.lo[j]), std::fabs(b.hi[j]))) back = false;
    }
    if (outer && in<D>(bi, y)) back = false;
    if (back) { uint64_t g = H::hashPosition(y, bi.lo, bi.hi, bo.lo, bo.hi, tol); PBT_CHECK(g == h[i], "rehash", "point " << i << " hashes to " << h[i] << ", its unhashed position to " << g); }
  }
  for (int i = 0; i != n; ++i) for (int k = 0; k != i; ++k) {
    if (p[i] == p[k]) PBT_CHECK(h[i] == h[k], "copies-differ", "points " << k << " and " << i << " coincide but hash to " << h[k] << " and " << h[i]);
    if (h[i] == h[k]) { const Box<D>& b = h[i] >= H::outerFlag() ? bo : bi; for (int j = 0; j != D; ++j) PBT_CHECK(std::fabs(p[i][j] - p[k][j]) <= step<D>(b, j, tol)*(1 + 1e-3) + 8*EPS*std::max(std::fabs(b.lo[j]), std::fabs(b.hi[j])), "distinct-merged", "points " << k << " and " << i << " hash alike but are " << std::fabs(p[i][j] - p[k][j])/step<D>(b, j, tol) << " steps apart on axis " << j); }
    if ((h[i] >= H::outerFlag()) == (h[k] >= H::outerFlag())) { // order is kept on every axis
      const uint64_t xi[3] = {H::qxval(h[i]), H::qyval(h[i]), D == 3 ? (h[i] >> 42) & H::xmask() : 0}, xk[3] = {H::qxval(h[k]), H::qyval(h[k]), D == 3 ? (h[k] >> 42) & H::xmask() : 0};
      for (int j = 0; j != D; ++j) if (p[i][j] != p[k][j]) PBT_CHECK((p[i][j] < p[k][j]) ? xi[j] <= xk[j] : xi[j] >= xk[j], "order", "points " << k << " and " << i << " change order on axis " << j); }
  }
  c.nontrivial = flags[0] && n > 3 && (!two || flags[1]);
}
template<int D> static void unique(Src& s, Case& c) {
  Box<D> b, o; boxes<D>(s, c, b, o, false); double ext = 0; for (int j = 0; j != D; ++j) ext = std::max(ext, b.hi[j] - b.lo[j]);
  static const double tl[] = {0, 0, 1e-12, 1e-7, 1e-3, 0.1}; const double tol = ext*tl[s.draw(5)]; c.desc << " tol=" << tol;
  const int n = s.range(1, s.chance(1, 4) ? 200 : 20); std::vector<double> pts; bool copies = false;
  for (int i = 0; i != n; ++i) {
    double x[D]; if (i && s.chance(2, 5)) { copies = true; size_t k = s.draw(i - 1); const int how = (int)s.draw(2); for (int j = 0; j != D; ++j) { x[j] = pts[D*k + j]; if (how) x[j] = std::max(b.lo[j], std::min(b.hi[j], x[j] + (how == 1 ? 1 : 40)*(s.unit(6) - 0.5)*step<D>(b, j, tol))); } }
    else for (int j = 0; j != D; ++j) x[j] = place(s, b.lo[j], b.hi[j]);
    pts.insert(pts.end(), x, x + D);
  }
  c.desc << " points=" << pbt::str(pts); c.nontrivial = copies && n >= 3;
  std::vector<double> u; std::vector<unsigned> map; if (s.chance(1, 3)) { u.assign(7, 1.0); map.assign(5, 9u); } // earlier contents are replaced
  polytope::geometry::uniquePoints<D, double>(pts, b.lo, b.hi, tol, u, map);
  PBT_CHECK(u.size()%D == 0 && map.size() == (size_t)n, "shape", u.size() << " coordinates and " << map.size() << " entries for " << n << " points");
  const size_t m = u.size()/D; std::vector<int> first(m, -1); unsigned next = 0;
  for (int i = 0; i != n; ++i) {
    PBT_CHECK(map[i] < m, "range", "point " << i << " maps to " << map[i] << " of " << m);
    if (first[map[i]] < 0) { PBT_CHECK(map[i] == next, "order", "point " << i << " is new but maps to " << map[i] << ", expected " << next); ++next; first[map[i]] = i; for (int j = 0; j != D; ++j) PBT_CHECK(u[D*map[i] + j] == pts[D*i + j], "first-copy", "unique point " << map[i] << " is not the first point that maps to it (" << i << ")"); }
    for (int j = 0; j != D; ++j) PBT_CHECK(std::fabs(u[D*map[i] + j] - pts[D*i + j]) <= step<D>(b, j, tol)*(1 + 1e-3) + 8*EPS*std::max(std::fabs(b.lo[j]), std::fabs(b.hi[j])), "distinct-merged", "point " << i << " maps to a point " << std::fabs(u[D*map[i] + j] - pts[D*i + j])/step<D>(b, j, tol) << " steps away on axis " << j);
  }
  PBT_CHECK(next == m, "range", "no point maps to unique point " << next);
  std::map<std::vector<double>, unsigned> at; for (int i = 0; i != n; ++i) { std::vector<double> k(&pts[D*i], &pts[D*i] + D); auto it = at.insert(std::make_pair(k, map[i])).first; PBT_CHECK(it->second == map[i], "copies-differ", "point " << i << " coincides with one that maps to " << it->second << " but maps to " << map[i]); }
}
int main(int argc, char** argv) {
  const std::string h = "an outer box of size 1e-6..1e9 anywhere and an inner box in it (or the same), a tolerance of 0 to 1e-3 of it and 2-12 points in the outer box, on its walls, in corners, hair's breadth from walls, and close or exact copies of one another; non-trivial: more than three points, both boxes used if there are two";
  const std::string u = "a box (2D also without width), a tolerance of 0 to a tenth of it and 1-200 points, two in five of them exact or close copies of earlier ones; non-trivial: at least three points with copies among them";
  return pbt::run(argc, argv, "P23", {pbt::target("hash2", hashing<2>, 20000, 1500000, h), pbt::target("hash3", hashing<3>, 20000, 1500000, h), pbt::target("unique2", unique<2>, 8000, 400000, u), pbt::target("unique3", unique<3>, 8000, 400000, u)},
    {"the point lies in the outer box (a stated precondition)", "the box is at most 40 times its size away from the origin"});
}
