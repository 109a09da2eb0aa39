// Which pieces of a domain are cut off from their nearest generator?  A model of the
// non-convex clipping problem on an integer grid, using Boost.Polygon's set operations
// (third party, trusted) but none of the library's own code.
#ifndef VERIF_ORPHANS_HH
#define VERIF_ORPHANS_HH
#include "geom.hh"
#include <boost/polygon/polygon.hpp>
#include <vector>

namespace orphan {
namespace bp = boost::polygon;
typedef bp::polygon_data<int> Pg;
typedef bp::polygon_with_holes_data<int> PgH;
typedef bp::point_data<int> Pt;
typedef std::vector<Pg> Set;

struct Model {
  ref::P lo; ref::R dx;                 // grid
  Set cells;                            // the fragment holding the generator
  std::vector<std::pair<int, Pg> > frags; // (owner, fragment without its generator)
  Set groups;                           // connected orphan regions
  std::vector<std::vector<int> > nbrs;  // cells touching each group
  bool encloses;                        // some cell would enclose a hole
  bool independent, connected, keyholed, grazing, cornered; // cornered: a bisector passes through a reflex corner; grazing: a bisector runs along a wall; keyholed: a hole is walled in by an orphan and its adopters
  Pt q(ref::P p) const { return Pt((int)std::floor((p.x - lo.x)/dx + 0.5L), (int)std::floor((p.y - lo.y)/dx + 0.5L)); }
  Pg poly(const ref::Poly& p) const { std::vector<Pt> v; for (size_t i = 0; i != p.size(); ++i) v.push_back(q(p[i])); Pg r; bp::set_points(r, v.begin(), v.end()); return r; }
  static bool has(const Pg& p, Pt x) { return bp::contains(p, x); }
  static ref::R ptDist(Pt a, const Pg& p) {
    ref::R m = 1e300L; std::vector<ref::P> v; for (Pg::iterator_type i = p.begin(); i != p.end(); ++i) v.push_back(ref::P(i->x(), i->y()));
    for (size_t i = 0; i + 1 < v.size(); ++i) m = std::min(m, ref::segDist(ref::P(a.x(), a.y()), v[i], v[i + 1]));
    if (!v.empty()) m = std::min(m, ref::segDist(ref::P(a.x(), a.y()), v.back(), v.front()));
    return m;
  }
  static bool touch(const Pg& a, const Pg& b) {
    for (Pg::iterator_type i = a.begin(); i != a.end(); ++i) if (ptDist(*i, b) < 6) return true;
    for (Pg::iterator_type i = b.begin(); i != b.end(); ++i) if (ptDist(*i, a) < 6) return true;
    return false;
  }
  Model(const ref::Domain& d, const std::vector<ref::P>& g): encloses(false), independent(true), connected(true), keyholed(false), grazing(false), cornered(false) {
    using namespace bp::operators;
    ref::P hi; d.bounds(lo, hi); ref::R L = d.length(); dx = L/(1 << 28); lo = lo - ref::P(2*L, 2*L);
    PgH dom; { Pg o = poly(d.outer); bp::set_points(dom, o.begin(), o.end()); std::vector<Pg> hs; for (size_t h = 0; h != d.holes.size(); ++h) hs.push_back(poly(d.holes[h])); dom.set_holes(hs.begin(), hs.end()); }
    Set domain; domain += dom;
    ref::Poly big; big.push_back(lo + ref::P(L/2, L/2)); big.push_back(lo + ref::P(4.5L*L, L/2)); big.push_back(lo + ref::P(4.5L*L, 4.5L*L)); big.push_back(lo + ref::P(L/2, 4.5L*L));
    for (size_t i = 0; i != g.size(); ++i) {
      ref::Poly v = ref::voronoiCell(i, g, big);
      for (size_t h = 0; h != d.holes.size(); ++h) {
        bool all = true; for (size_t k = 0; k != d.holes[h].size(); ++k) for (size_t j = 0; j != g.size(); ++j) if (ref::dist(d.holes[h][k], g[j]) < ref::dist(d.holes[h][k], g[i]) - 1e-6L*L) all = false;
        if (all) encloses = true;
      }
      Set s; s += poly(v); s &= domain; size_t mine = 0;
      while (mine < s.size() && !has(s[mine], q(g[i]))) ++mine;
      for (size_t k = 0; k != s.size(); ++k) { if (k == mine) cells.push_back(s[k]); else if (std::fabs((double)bp::area(s[k])) > 1e5) frags.push_back(std::make_pair((int)i, s[k])); }
      if (mine == s.size()) cells.push_back(Pg());
    }
    for (size_t k = 0; k != frags.size(); ++k) groups += frags[k].second;
    { Set t; bp::assign(t, groups); groups = t; }
    std::vector<ref::Poly> rings(1, d.outer); rings.insert(rings.end(), d.holes.begin(), d.holes.end());
    for (size_t r = 0; r != rings.size(); ++r) for (size_t k = 0; k != rings[r].size(); ++k) {
      ref::P a = rings[r][k], b = rings[r][(k + 1)%rings[r].size()], z = rings[r][(k + rings[r].size() - 1)%rings[r].size()];
      const bool reflex = ref::cross(a - z, b - a) < 0; // holes run clockwise
      for (size_t i = 0; i != g.size() && !grazing; ++i) for (size_t j = 0; j != i; ++j) {
        ref::P n = g[j] - g[i], m = 0.5L*(g[i] + g[j]); ref::R l = ref::norm(n);
        if (std::fabs((double)(ref::dot(n, a - m)/l)) < 1e-7*L && std::fabs((double)(ref::dot(n, b - m)/l)) < 1e-7*L) { grazing = true; break; }
        if (!reflex || std::fabs((double)(ref::dot(n, a - m)/l)) > 1e-7*L) continue;
        ref::R near = 1e300L; for (size_t q = 0; q != g.size(); ++q) near = std::min(near, ref::dist(a, g[q]));
        if (!groups.empty() || ref::dist(a, g[i]) < near + 1e-6L*L) cornered = true;
      }
    }
    std::vector<int> used(g.size(), 0);
    for (size_t k = 0; k != groups.size(); ++k) {
      std::vector<int> n; for (size_t i = 0; i != cells.size(); ++i) if (touch(groups[k], cells[i])) { n.push_back(i); if (used[i]++) independent = false; }
      nbrs.push_back(n);
      Set region; region += groups[k]; std::vector<ref::P> sub; for (size_t j = 0; j != n.size(); ++j) { region += cells[n[j]]; sub.push_back(g[n[j]]); }
      { std::vector<PgH> rh; bp::assign(rh, region); for (size_t m = 0; m != rh.size(); ++m) if (rh[m].begin_holes() != rh[m].end_holes()) keyholed = true; }
      for (size_t j = 0; j != n.size(); ++j) {
        Set s; s += poly(ref::voronoiCell(j, sub, big)); s &= region; int big_ = 0; for (size_t m = 0; m != s.size(); ++m) if (std::fabs((double)bp::area(s[m])) > 1e5) ++big_;
        if (big_ != 1) connected = false;
      }
      for (size_t m = 0; m != k; ++m) if (touch(groups[k], groups[m])) independent = false;
    }
  }
  // Cases whose outcome the library promises exactly: nothing is cut off, or one connected region is
  // and handing it to its neighbors leaves no piece over.  See DESIGN.md for the others.
  bool clear() const { return !encloses && !grazing && !cornered && (groups.empty() || (groups.size() == 1 && connected && !keyholed)); }
  const char* kind() const { return encloses ? "encloses a hole" : grazing ? "bisector along a wall" : cornered ? "bisector through a corner" : groups.empty() ? "no orphan" : keyholed ? "orphans around a hole" : groups.size() == 1 ? connected ? "one orphan" : "one orphan, split adoption" : independent ? "independent orphans" : "interacting orphans"; }
};
}
#endif
