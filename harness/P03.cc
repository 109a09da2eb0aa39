// P03: the connectivity arrays of a mesh describe one consistent planar complex.
#include "tess.hh"
#include "orphans.hh"
using namespace tess;
static void queries(const Mesh2& cm) {
  Mesh2& m = const_cast<Mesh2&>(cm);
  std::vector<std::set<unsigned> > nc = m.computeNodeCells(), cn = m.computeCellToNodes();
  PBT_CHECK(nc.size() == m.nodes.size()/2, "node-cells", nc.size() << " sets for " << m.nodes.size()/2 << " nodes");
  PBT_CHECK(cn.size() == m.cells.size(), "cell-nodes", cn.size() << " sets for " << m.cells.size() << " cells");
  std::vector<std::set<unsigned> > wn(m.nodes.size()/2);
  for (size_t i = 0; i != m.cells.size(); ++i) {
    std::vector<unsigned> ids; mesh::cellPoly(m, i, &ids); std::set<unsigned> w(ids.begin(), ids.end());
    PBT_CHECK(cn[i] == w, "cell-nodes", "the nodes of cell " << i << " are not the corners of its loop");
    PBT_CHECK(w.size() == ids.size(), "cell-loop", "cell " << i << " passes a node twice");
    for (size_t k = 0; k != ids.size(); ++k) wn[ids[k]].insert(i);
  }
  for (size_t n = 0; n != wn.size(); ++n) PBT_CHECK(nc[n] == wn[n], "node-cells", "the cells of node " << n << " are wrong");
}
static void euler(const Mesh2& m, int holes) {
  // One connected region with the given number of holes: V - E + F = 1 - holes.
  long chi = (long)m.nodes.size()/2 - (long)m.faces.size() + (long)m.cells.size();
  PBT_CHECK(chi == 1 - holes, "euler", m.nodes.size()/2 << " nodes, " << m.faces.size() << " faces, " << m.cells.size() << " cells: V-E+F = " << chi << ", expected " << 1 - holes);
}
static void distinct(const Mesh2& m, double L) {
  std::vector<std::pair<P, size_t> > v; for (size_t i = 0; i != m.nodes.size()/2; ++i) v.push_back(std::make_pair(mesh::node(m, i), i));
  std::sort(v.begin(), v.end(), [](const std::pair<P, size_t>& a, const std::pair<P, size_t>& b) { return a.first.x != b.first.x ? a.first.x < b.first.x : a.first.y < b.first.y; });
  for (size_t i = 1; i < v.size(); ++i) PBT_CHECK(v[i].first.x != v[i-1].first.x || v[i].first.y != v[i-1].first.y, "node-duplicate", "nodes " << v[i-1].second << " and " << v[i].second << " coincide at " << pt(v[i].first));
}
static void convex(Src& s, Case& c) {
  Domain d = convexDomain(s, c); std::vector<P> g = cloud(s, c, d, 100); describe(c, d, g); c.nontrivial = g.size() >= 3;
  Mesh2 m; runAs(form(s, c, d), d, g, m);
  mesh::checkTopology(m, g.size()); queries(m); euler(m, 0); distinct(m, d.length());
}
static void unbounded(Src& s, Case& c) {
  Domain d; d.outer = box(0, 0, 1, 1); std::vector<P> g = cloud(s, c, d, 60, 1e-3, 1e-3, 2); Frame f = frame(s); apply(f, g);
  describe(c, d, g); c.nontrivial = g.size() >= 3;
  Mesh2 m; Boost2 t; t.tessellate(flat(g), m); mesh::checkTopology(m, g.size()); mesh::checkBoundaryLists(m); queries(m); euler(m, 0); distinct(m, 1);
}
static void general(Src& s, Case& c) {
  Domain d = generalDomain(s, c); std::vector<P> g = cloud(s, c, d, 60); describe(c, d, g); c.nontrivial = g.size() >= 3;
  orphan::Model om(d, g); c.label(om.kind());
  if (!om.clear() || om.groups.size()) throw pbt::Discard();
  Mesh2 m; runAs(form(s, c, d), d, g, m);
  mesh::checkTopology(m, g.size()); queries(m); euler(m, d.holes.size()); distinct(m, d.length());
}
int main(int argc, char** argv) {
  const std::string q = "a cloud of generators (uniform, lattice, hexagonal, clustered, collinear, ring); non-trivial: at least 3 generators";
  return pbt::run(argc, argv, "P03", {
      pbt::target("convex", convex, 3000, 60000, "a convex domain (box, PLC or ReducedPLC), scaled and shifted, and " + q),
      pbt::target("unbounded", unbounded, 1500, 30000, "no domain, scaled and shifted, at least 2 generators; " + q),
      pbt::target("general", general, 2500, 50000, "a non-convex domain, half of them with 1 to 3 holes, and " + q + "; discarded: more than one region cut off from its nearest generator, or a cell that would enclose a whole hole")},
    {"rings of co-circular generators without a centre have at most 6 members (known finding)", "cells that would have to enclose a hole are outside the mesh's data model (one loop per cell)"});
}
