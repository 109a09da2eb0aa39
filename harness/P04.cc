// P04: the recorded boundary is the topological boundary, and it is the domain's boundary.
#include "tess.hh"
#include "orphans.hh"
using namespace tess;
static void check(Src& s, Case& c, bool convex) {
  Domain d = convex ? convexDomain(s, c) : generalDomain(s, c); std::vector<P> g = cloud(s, c, d, 60); describe(c, d, g); c.nontrivial = g.size() >= 3;
  if (!convex) { orphan::Model om(d, g); c.label(om.kind()); if (!om.clear() || om.groups.size()) throw pbt::Discard(); }
  Mesh2 m; runAs(form(s, c, d), d, g, m); mesh::checkIndices(m, g.size()); mesh::checkBoundaryLists(m);
  const double L = d.length(); P lo, hi; d.bounds(lo, hi);
  const double off = std::max(std::max(std::fabs((double)lo.x), std::fabs((double)hi.x)), std::max(std::fabs((double)lo.y), std::fabs((double)hi.y)));
  std::vector<bool> isB(m.nodes.size()/2, false); for (size_t k = 0; k != m.boundaryNodes.size(); ++k) isB[m.boundaryNodes[k]] = true;
  for (size_t n = 0; n != isB.size(); ++n) {
    P x = mesh::node(m, n); double dist = (double)d.boundaryDist(x);
    if (isB[n]) PBT_CHECK(dist <= 1e-13*L + 4e-15*off, "not-on-boundary", "boundary node " << n << " " << pt(x) << " is " << dist/L << " L from the boundary");
    else PBT_CHECK(dist > 0 || g.size() == 1, "unlisted", "node " << n << " " << pt(x) << " lies on the boundary but is not listed");
  }
  // Every corner of the domain is a node, to roundoff.
  std::vector<Poly> rings(1, d.outer); rings.insert(rings.end(), d.holes.begin(), d.holes.end());
  for (size_t r = 0; r != rings.size(); ++r) for (size_t k = 0; k != rings[r].size(); ++k) {
    bool hit = false; double best = 1e300;
    for (size_t b = 0; b != m.boundaryNodes.size() && !hit; ++b) { unsigned n = m.boundaryNodes[b]; best = std::min(best, (double)ref::dist(mesh::node(m, n), rings[r][k])); hit = best <= 1e-13*L + 4e-15*off; }
    PBT_CHECK(hit, "corner-missing", "no boundary node is at corner " << pt(rings[r][k]) << " of the domain (nearest: " << best/L << " L)");
  }
  ref::R len = 0; for (size_t k = 0; k != m.boundaryFaces.size(); ++k) { const std::vector<unsigned>& f = m.faces[m.boundaryFaces[k]]; P a = mesh::node(m, f[0]), b = mesh::node(m, f[1]); len += ref::dist(a, b);
    P mid = 0.5L*(a + b); PBT_CHECK((double)d.boundaryDist(mid) <= 1e-8*L, "cuts-corner", "the middle of boundary face " << m.boundaryFaces[k] << " " << pt(mid) << " is off the boundary"); }
  PBT_CHECK(std::fabs((double)(len - d.perimeter())) <= 1e-7*L, "perimeter", "boundary faces add up to " << (double)len << " but the domain's perimeter is " << (double)d.perimeter());
  // The separate query gives the same answer.
  std::vector<unsigned> bf(3, 7u), bn(2, 9u); polytope::findBoundaryElements(m, bf, bn);
  std::vector<unsigned> a = m.boundaryFaces, b = m.boundaryNodes; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::sort(bf.begin(), bf.end()); std::sort(bn.begin(), bn.end());
  PBT_CHECK(a == bf && b == bn, "query", "recomputing the boundary elements gives a different answer");
}
static void convex(Src& s, Case& c) { check(s, c, true); }
static void general(Src& s, Case& c) { check(s, c, false); }
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P04", {
      pbt::target("convex", convex, 3000, 60000, "a convex domain (box, PLC or ReducedPLC), scaled and shifted, and a cloud of generators; non-trivial: at least 3 generators"),
      pbt::target("general", general, 2500, 50000, "a non-convex domain, half of them with 1 to 3 holes, and a cloud of generators; non-trivial: at least 3 generators; discarded: more than one region cut off from its nearest generator, or a cell that would enclose a whole hole")},
    {"domain corners are at least 0.004 of its size apart", "rings of co-circular generators without a centre have at most 6 members (known finding)"});
}
