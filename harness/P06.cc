// P06: non-convex domains and holes.
#include "tess.hh"
#include "orphans.hh"
using namespace tess;
namespace bp = boost::polygon;
static void body(Src& s, Case& c, bool holes, int nmax) {
  Domain d = generalDomain(s, c, holes); std::vector<P> g = cloud(s, c, d, nmax); describe(c, d, g);
  orphan::Model om(d, g); c.label(om.kind());
  if (om.encloses || om.grazing || om.cornered) throw pbt::Discard();
  c.nontrivial = g.size() >= 3 && (om.groups.size() || d.holes.size());
  Mesh2 m; runAs(form(s, c, d), d, g, m); mesh::checkIndices(m, g.size());
  const double L = d.length(); std::vector<Poly> cell = polys(m); ref::R total = 0;
  const bool clear = om.clear();
  // Which cells could be affected by an orphan?
  std::vector<bool> near(g.size(), false);
  for (size_t k = 0; k != om.nbrs.size(); ++k) for (size_t j = 0; j != om.nbrs[k].size(); ++j) near[om.nbrs[k][j]] = true;
  for (size_t k = 0; k != om.frags.size(); ++k) near[om.frags[k].first] = true;
  for (size_t i = 0; i != g.size(); ++i) {
    if (!clear && near[i]) continue;
    PBT_CHECK(ref::inside(g[i], cell[i]), "generator-outside", "generator " << i << " is not inside its own cell");
    ref::R a = ref::area(cell[i]); total += a; PBT_CHECK(a > 0, "orientation", "cell " << i << " has negative area");
    for (size_t k = 0; k != cell[i].size(); ++k) PBT_CHECK(d.contains(cell[i][k]) || d.boundaryDist(cell[i][k]) <= OWN_TOL*L, "outside-domain", "cell " << i << " reaches " << pt(cell[i][k]) << " outside the domain");
    if (!near[i]) for (size_t k = 0; k != cell[i].size(); ++k) { P v = cell[i][k]; ref::R own = ref::dist(v, g[i]); size_t j = nearest(v, g);
      PBT_CHECK(own <= ref::dist(v, g[j]) + OWN_TOL*L, "not-nearest", "cell " << i << " reaches " << pt(v) << " which is nearer to generator " << j); }
  }
  if (clear) PBT_CHECK(std::fabs((double)(total - d.area())) <= 3*AREA_TOL*L*L, "total-area", "cells add up to " << (double)total << " but the domain is " << (double)d.area());
  if (om.groups.empty()) mesh::checkTopology(m, g.size());
  for (int k = 0; k != 40; ++k) {
    P x = sample(s, d, g, m);
    if (om.groups.size() && s.chance(1, 2)) { // inside the bounding box of an orphan
      bp::rectangle_data<int> b; bp::extents(b, om.groups[s.draw(om.groups.size() - 1)]); double u = s.unit(20), v = s.unit(20);
      x = om.lo + P(om.dx*(bp::xl(b) + u*(bp::xh(b) - bp::xl(b))), om.dx*(bp::yl(b) + v*(bp::yh(b) - bp::yl(b)))); }
    if (!d.contains(x) || d.boundaryDist(x) < MARGIN*L) continue;
    ref::R margin; size_t i = nearest(x, g, &margin); if (margin < MARGIN*L) continue;
    int in = -1; ref::R edge = 1e300L;
    for (size_t q = 0; q != om.groups.size(); ++q) { if (orphan::Model::has(om.groups[q], om.q(x))) in = q; edge = std::min(edge, om.dx*orphan::Model::ptDist(om.q(x), om.groups[q])); }
    if (edge < 2*MARGIN*L) continue;
    if (in >= 0) {
      if (!clear) continue;
      // The nearest of the cells around the orphan takes over.
      c.label("point in an orphan");
      const std::vector<int>& n = om.nbrs[in]; std::vector<P> sub; for (size_t j = 0; j != n.size(); ++j) sub.push_back(g[n[j]]);
      if (sub.empty()) continue; i = n[nearest(x, sub, &margin)]; if (margin < MARGIN*L) continue;
    } else if (!clear && near[i]) continue;
    PBT_CHECK(ref::inside(x, cell[i]), "point-lost", "point " << pt(x) << (in >= 0 ? " of an orphaned region" : "") << " belongs to generator " << i << " but is outside its cell");
    for (size_t j = 0; j != g.size(); ++j) if (j != i && (clear || !near[j])) PBT_CHECK(!ref::inside(x, cell[j]), "point-stolen", "point " << pt(x) << (in >= 0 ? " of an orphaned region" : "") << " belongs to generator " << i << " but is inside cell " << j);
  }
}

static void few(Src& s, Case& c) { body(s, c, false, 8); }
static void many(Src& s, Case& c) { body(s, c, false, 60); }
static void holes(Src& s, Case& c) { body(s, c, true, 40); }
int main(int argc, char** argv) {
  const std::string r = " domain (L, U, notch, comb, stars; scaled and shifted), a cloud of generators, and 40 sample points biased to bisectors, walls and orphaned regions; non-trivial: at least 3 generators and an orphaned region or a hole; where several orphaned regions interact only the cells away from them are judged; discarded: a cell that would enclose a whole hole, a bisector running along a wall or through a reflex corner";
  return pbt::run(argc, argv, "P06", {pbt::target("few", few, 2500, 50000, "a non-convex" + r), pbt::target("many", many, 2000, 40000, "a non-convex" + r), pbt::target("holes", holes, 2500, 50000, "a non-convex or holed" + r)},
    {"Boost.Polygon's set operations are trusted by the model of orphaned regions", "roundoff of 1e-7 of the domain's size in position, 3e-8 in area"});
}
