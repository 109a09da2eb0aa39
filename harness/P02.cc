// P02: cells tile the domain: no gap, no overlap, nothing outside.
#include "tess.hh"
using namespace tess;
static void check(Src& s, Case& c, int nmax) {
  Domain d = convexDomain(s, c); std::vector<P> g = cloud(s, c, d, nmax);
  describe(c, d, g); c.nontrivial = g.size() >= 3;
  Mesh2 m; runAs(form(s, c, d), d, g, m);
  mesh::checkIndices(m, g.size());
  const double L = d.length(); std::vector<Poly> cell = polys(m); ref::R total = 0;
  for (size_t i = 0; i != g.size(); ++i) {
    ref::R a = ref::area(cell[i]); total += a;
    PBT_CHECK(a > 0, "orientation", "cell " << i << " has signed area " << (double)a << " (cells run counter-clockwise)");
    // Convex: no cell bends inward by more than roundoff.
    for (size_t k = 0; k != cell[i].size(); ++k) for (size_t l = 0; l != cell[i].size(); ++l) {
      P u = cell[i][k], v = cell[i][(k + 1)%cell[i].size()]; ref::R e = ref::dist(u, v); if (e < 1e-4*L) continue;
      PBT_CHECK(ref::cross(v - u, cell[i][l] - u)/e >= -1e-7*L*std::max<ref::R>(1, L/e), "not-convex", "cell " << i << " is not convex at node " << k);
    }
    double ctr[2], area; polytope::geometry::computeCellCentroidAndSignedArea(m, i, 0.0, ctr, area);
    PBT_CHECK(std::fabs(area - (double)a) <= 1e-9*L*L, "measure", "the library measures cell " << i << " as " << area << " but its corners enclose " << (double)a);
    PBT_CHECK(ref::inside(P(ctr[0], ctr[1]), cell[i]) || ref::polyDist(P(ctr[0], ctr[1]), cell[i]) < 1e-6*L, "measure", "the centroid " << ctr[0] << "," << ctr[1] << " of cell " << i << " is outside it");
  }
  PBT_CHECK(std::fabs((double)(total - d.area())) <= AREA_TOL*L*L, "total-area", "cells add up to " << (double)total << " but the domain is " << (double)d.area());
  for (size_t n = 0; n != m.nodes.size()/2; ++n) { P x = mesh::node(m, n); PBT_CHECK(ref::inside(x, d.outer) || ref::polyDist(x, d.outer) <= OWN_TOL*L, "outside-domain", "node " << n << " " << pt(x) << " is outside the domain"); }
  for (int k = 0; k != 40; ++k) {
    P x = sample(s, d, g, m); bool near = d.boundaryDist(x) < MARGIN*L; int n = 0;
    for (size_t i = 0; i != cell.size(); ++i) { if (ref::polyDist(x, cell[i]) < MARGIN*L) { near = true; break; } if (ref::inside(x, cell[i])) ++n; }
    if (near) continue;
    int want = d.contains(x) ? 1 : 0;
    PBT_CHECK(n == want, n < want ? "gap" : "overlap", "point " << pt(x) << " is in " << n << " cells, expected " << want);
  }
}
static void small(Src& s, Case& c) { check(s, c, 12); }
static void medium(Src& s, Case& c) { check(s, c, 80); }
static void large(Src& s, Case& c) { check(s, c, 500); }
int main(int argc, char** argv) {
  const std::string r = "a convex domain and a cloud of generators as for P01, 40 sample points in and around the domain; non-trivial: at least 3 generators";
  return pbt::run(argc, argv, "P02", {pbt::target("small", small, 3000, 60000, r), pbt::target("medium", medium, 1500, 30000, r), pbt::target("large", large, 100, 2000, r)},
    {"roundoff of 1e-7 of the domain's size in position and 1e-8 in area is allowed", "rings of co-circular generators without a centre have at most 6 members (known finding)"});
}
