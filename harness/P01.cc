// P01: in a convex domain each cell is the part of the domain nearest to its generator.
#include "tess.hh"
using namespace tess;
static void check(Src& s, Case& c, int nmax) {
  Domain d = convexDomain(s, c); std::vector<P> g = cloud(s, c, d, nmax);
  describe(c, d, g); c.nontrivial = g.size() >= 3;
  Mesh2 m; runAs(form(s, c, d), d, g, m);
  mesh::checkIndices(m, g.size());
  const double L = d.length(); std::vector<Poly> cell = polys(m);
  for (size_t i = 0; i != g.size(); ++i) {
    PBT_CHECK(ref::inside(g[i], cell[i]), "generator-outside", "generator " << i << " " << pt(g[i]) << " is not inside its own cell");
    for (size_t k = 0; k != cell[i].size(); ++k) {
      P v = cell[i][k]; ref::R own = ref::dist(v, g[i]);
      size_t j = nearest(v, g); ref::R best = ref::dist(v, g[j]);
      PBT_CHECK(own <= best + OWN_TOL*L, "not-nearest", "cell " << i << " reaches " << pt(v) << " which is nearer to generator " << j << " by " << (double)((own - best)/L) << " L");
      PBT_CHECK(ref::inside(v, d.outer) || ref::polyDist(v, d.outer) <= OWN_TOL*L, "outside-domain", "cell " << i << " reaches " << pt(v) << " outside the domain");
    }
    // The converse: every corner of the exact cell that is well separated from it is reached.
    Poly exact = ref::voronoiCell(i, g, d.outer); ref::R a = ref::area(cell[i]), b = ref::area(exact);
    ref::R sep = L; for (size_t j = 0; j != g.size(); ++j) if (j != i) sep = std::min(sep, ref::dist(g[i], g[j])); // a rounded generator tilts a bisector by quantum/sep
    PBT_CHECK(std::fabs((double)(a - b)) <= 3*AREA_TOL*L*(L + L*L/sep), "cell-area", "cell " << i << " has area " << (double)a << " but the region nearest to its generator has " << (double)b);
  }
  for (int k = 0; k != 24; ++k) {
    P x = sample(s, d, g, m); ref::R margin; size_t i = nearest(x, g, &margin);
    if (!d.contains(x) || d.boundaryDist(x) < MARGIN*L || margin < MARGIN*L) continue;
    PBT_CHECK(ref::inside(x, cell[i]), "point-lost", "point " << pt(x) << " is nearest to generator " << i << " but outside its cell");
    for (size_t j = 0; j != g.size(); ++j) if (j != i) PBT_CHECK(!ref::inside(x, cell[j]), "point-stolen", "point " << pt(x) << " is nearest to generator " << i << " but inside cell " << j);
  }
}
static void small(Src& s, Case& c) { check(s, c, 12); }
static void medium(Src& s, Case& c) { check(s, c, 80); }
static void large(Src& s, Case& c) { check(s, c, 600); }
int main(int argc, char** argv) {
  const std::string r = "a convex domain (square, rectangle, regular polygon, hull; scaled and shifted), a cloud of generators (uniform, lattice, hexagonal, clustered, collinear, ring), the domain passed as box, PLC or ReducedPLC, and 24 sample points biased to bisectors, nodes and walls; non-trivial: at least 3 generators";
  return pbt::run(argc, argv, "P01", {pbt::target("small", small, 3000, 60000, r), pbt::target("medium", medium, 2000, 40000, r), pbt::target("large", large, 150, 3000, r)},
    {"roundoff of 1e-7 of the domain's size is allowed; generators are at least 1e-3 of it apart and away from the wall", "rings of co-circular generators without a centre have at most 6 members (known finding)"});
}
