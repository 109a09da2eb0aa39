// P05: without a domain, the mesh is the Voronoi diagram of the generators in and well around their bounding box.
#include "tess.hh"
using namespace tess;
static void body(Src& s, Case& c, int nmax) {
  Domain d; d.outer = box(0, 0, 1, 1); std::vector<P> g = cloud(s, c, d, nmax, 1e-3, 1e-3, 2); Frame f = frame(s); apply(f, g);
  c.desc << "generators=" << pbt::str(flat(g)); c.nontrivial = g.size() >= 3;
  Mesh2 m; Boost2 t; t.tessellate(flat(g), m); mesh::checkIndices(m, g.size());
  P lo = g[0], hi = g[0]; for (size_t i = 0; i != g.size(); ++i) { lo.x = std::min(lo.x, g[i].x); lo.y = std::min(lo.y, g[i].y); hi.x = std::max(hi.x, g[i].x); hi.y = std::max(hi.y, g[i].y); }
  const double L = (double)std::max(hi.x - lo.x, hi.y - lo.y);
  std::vector<Poly> cell = polys(m);
  for (size_t i = 0; i != g.size(); ++i) {
    PBT_CHECK(ref::inside(g[i], cell[i]), "generator-outside", "generator " << i << " is not inside its own cell");
    PBT_CHECK(ref::area(cell[i]) > 0, "orientation", "cell " << i << " has negative area");
    for (size_t k = 0; k != cell[i].size(); ++k) { P v = cell[i][k]; ref::R own = ref::dist(v, g[i]); size_t j = nearest(v, g); ref::R best = ref::dist(v, g[j]);
      PBT_CHECK(own <= best + 2e-7L*L, "not-nearest", "cell " << i << " reaches " << pt(v) << " which is nearer to generator " << j << " by " << (double)((own - best)/L) << " L"); }
  }
  // Sharing a corner of the exact diagram: interior corners are nodes.
  Poly win = box((double)(lo.x - 0.4*L), (double)(lo.y - 0.4*L), (double)(hi.x + 0.4*L), (double)(hi.y + 0.4*L));
  for (int k = 0; k != 30; ++k) {
    double u = s.unit(20), v = s.unit(20); P x(win[0].x + u*(win[2].x - win[0].x), win[0].y + v*(win[2].y - win[0].y));
    if (s.chance(1, 3) && g.size() > 1) { P a = g[s.draw(g.size() - 1)], b = g[s.draw(g.size() - 1)]; x = 0.5L*(a + b) + P(1e-3*L*(u - 0.5), 1e-3*L*(v - 0.5)); }
    ref::R margin; size_t i = nearest(x, g, &margin); if (margin < MARGIN*L) continue;
    PBT_CHECK(ref::inside(x, cell[i]), "point-lost", "point " << pt(x) << " is nearest to generator " << i << " but outside its cell");
    for (size_t j = 0; j != g.size(); ++j) if (j != i) PBT_CHECK(!ref::inside(x, cell[j]), "point-stolen", "point " << pt(x) << " is nearest to generator " << i << " but inside cell " << j);
  }
  // The recorded boundary keeps clear of the generators' box.
  mesh::checkBoundaryLists(m);
  for (size_t k = 0; k != m.boundaryNodes.size(); ++k) { P x = mesh::node(m, m.boundaryNodes[k]);
    PBT_CHECK(x.x < win[0].x || x.x > win[2].x || x.y < win[0].y || x.y > win[2].y, "boundary-inside", "boundary node " << pt(x) << " is close to the generators"); }
}
static void small(Src& s, Case& c) { body(s, c, 10); }
static void medium(Src& s, Case& c) { body(s, c, 80); }
static void large(Src& s, Case& c) { body(s, c, 500); }
int main(int argc, char** argv) {
  const std::string r = "a cloud of 2 or more generators (uniform, lattice, hexagonal, clustered, collinear, ring), scaled and shifted, no domain, and 30 sample points up to 0.4 of the cloud's size outside its bounding box; non-trivial: at least 3 generators";
  return pbt::run(argc, argv, "P05", {pbt::target("small", small, 3000, 60000, r), pbt::target("medium", medium, 2000, 40000, r), pbt::target("large", large, 100, 2000, r)},
    {"roundoff of 2e-7 of the cloud's size", "rings of co-circular generators without a centre have at most 6 members (known finding)"});
}
