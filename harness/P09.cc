// P09: a tessellation computed by several ranks is the serial one, cell by cell.
#include "distrib.hh"
using namespace distrib;
// The part of a (convex) cell within l of a box, and the distance from a point to a cell.
static Poly window(Poly p, P lo, P hi, ref::R l) { p = ref::clipHalf(p, P(-1, 0), l - lo.x); p = ref::clipHalf(p, P(1, 0), hi.x + l); p = ref::clipHalf(p, P(0, -1), l - lo.y); return ref::clipHalf(p, P(0, 1), hi.y + l); }
static ref::R away(P q, const Poly& p) { return ref::inside(q, p) ? 0 : ref::polyDist(q, p); }
static void same(Src& s, Case& c) {
  Setup u = setup(s, c, 90); c.nontrivial = u.all.size() > (size_t)c.nproc;
  if (u.nonconvex) { orphan::Model o(u.d, u.all); c.label(o.kind()); if (!o.clear()) throw pbt::Discard(); }
  Mesh2 mine, whole; run(u, c.rank, u.info, mine, whole); All a; a.m = gather(mine);
  const ref::R L = u.d.length(); size_t cells = 0; mesh::checkIndices(whole, u.all.size());
  for (int p = 0; p != c.nproc; ++p) {
    const Mesh2& m = *a.m[p]; std::ostringstream who; who << "rank " << p << ": ";
    PBT_CHECK(m.cells.size() == u.part[p].size(), "cell-count", who.str() << m.cells.size() << " cells for " << u.part[p].size() << " generators"); cells += m.cells.size();
    mesh::checkTopology(m, u.part[p].size()); 
    mesh::checkBoundaryLists(m);
    for (size_t i = 0; i != m.cells.size(); ++i) {
      Poly x = mesh::cellPoly(m, i), y = mesh::cellPoly(whole, u.off[p] + i);
      if (u.bound == UNBOUNDED) { // far from a rank's generators a cell depends on where that rank closes the plane
        P lo = u.part[p][0], hi = lo; for (size_t k = 0; k != u.part[p].size(); ++k) { P q = u.part[p][k]; lo = P(std::min(lo.x, q.x), std::min(lo.y, q.y)); hi = P(std::max(hi.x, q.x), std::max(hi.y, q.y)); }
        const ref::R l = 0.25L*std::max(hi.x - lo.x, hi.y - lo.y); Poly xc = window(x, lo, hi, l), yc = window(y, lo, hi, l);
        for (size_t k = 0; k != xc.size(); ++k) PBT_CHECK(away(xc[k], y) < 1e-6L*L, "cell-differs", who.str() << "cell " << i << " (generator " << pt(u.part[p][i]) << ") covers " << pt(xc[k]) << ", " << (double)(away(xc[k], y)/L) << " away from the serial cell");
        for (size_t k = 0; k != yc.size(); ++k) PBT_CHECK(away(yc[k], x) < 1e-6L*L, "cell-differs", who.str() << "cell " << i << " (generator " << pt(u.part[p][i]) << ") does not cover " << pt(yc[k]) << " of the serial cell, by " << (double)(away(yc[k], x)/L));
        continue;
      }
      for (size_t k = 0; k != x.size(); ++k) PBT_CHECK(ref::polyDist(x[k], y) < 1e-6L*L, "cell-differs", who.str() << "cell " << i << " (generator " << pt(u.part[p][i]) << ") has corner " << pt(x[k]) << ", " << (double)(ref::polyDist(x[k], y)/L) << " away from the serial cell");
      for (size_t k = 0; k != y.size(); ++k) PBT_CHECK(ref::polyDist(y[k], x) < 1e-6L*L, "cell-differs", who.str() << "cell " << i << " (generator " << pt(u.part[p][i]) << ") misses corner " << pt(y[k]) << " of the serial cell by " << (double)(ref::polyDist(y[k], x)/L));
      PBT_CHECK(std::fabs((double)(ref::area(x) - ref::area(y))) < 1e-6*L*L, "cell-differs", who.str() << "cell " << i << " has area " << (double)ref::area(x) << ", in the serial mesh " << (double)ref::area(y));
    }
  }
  PBT_CHECK(cells == u.all.size(), "cell-count", cells << " cells in all for " << u.all.size() << " generators");
}
int main(int argc, char** argv) {
  const char* rule = "a domain (box, convex, non-convex with holes, or none), 1-90 generators at least 4e-3 apart, owned in strips, around seeds, scattered, or nearly all by one rank; both distributed tessellators, with and without communication tables; every rank's cells against the serial mesh; non-trivial: more generators than ranks";
  return pbt::run(argc, argv, "P09", {pbt::target("two", same, 500, 14000, rule, 2, 20), pbt::target("three", same, 350, 10000, rule, 3, 20), pbt::target("four", same, 250, 8000, rule, 4, 20), pbt::target("seven", same, 60, 3000, rule, 7, 30)},
    {"every rank owns at least one generator (a documented precondition)", "in non-convex domains only clouds whose cells are not cut off, or cut off in one region", "without a boundary the cells are compared near the rank's generators (within a quarter of their extent), where they do not depend on where the rank closes the plane"});
}
