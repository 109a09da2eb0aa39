// P12: collapsing short edges.
#include "tess.hh"
#include "MeshEditor.hh"
using namespace tess;
static void copy(const Mesh2& a, Mesh2& b) { b.clear(); b.nodes = a.nodes; b.cells = a.cells; b.faces = a.faces; b.boundaryNodes = a.boundaryNodes; b.boundaryFaces = a.boundaryFaces; b.faceCells = a.faceCells; }
struct Edges { std::vector<double> len, longest; std::set<unsigned> border, corner; };
static double len(const Mesh2& m, size_t f) { return (double)ref::dist(mesh::node(m, m.faces[f][0]), mesh::node(m, m.faces[f][1])); }
static Edges edges(const Mesh2& m, const Domain& d) {
  Edges e; e.len.resize(m.faces.size()); e.longest.assign(m.faces.size(), 0); for (size_t f = 0; f != m.faces.size(); ++f) e.len[f] = len(m, f);
  for (size_t i = 0; i != m.cells.size(); ++i) { double q = 0; for (int f : m.cells[i]) q = std::max(q, e.len[f < 0 ? ~f : f]); for (int f : m.cells[i]) { double& x = e.longest[f < 0 ? ~f : f]; x = std::max(x, q); } }
  for (size_t f = 0; f != m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { e.border.insert(m.faces[f][0]); e.border.insert(m.faces[f][1]); }
  for (unsigned n : e.border) { P p = mesh::node(m, n); auto near = [&](const Poly& q) { for (size_t i = 0; i != q.size(); ++i) if (ref::dist(p, q[i]) < 1e-7*d.length()) return true; return false; }; bool at = near(d.outer); for (size_t h = 0; h != d.holes.size(); ++h) at = at || near(d.holes[h]); if (at) e.corner.insert(n); }
  return e;
}
static void body(Src& s, Case& c, int nmax, bool holes) {
  Domain d = holes ? generalDomain(s, c) : convexDomain(s, c); std::vector<P> g = cloud(s, c, d, nmax, s.chance(1, 2) ? 1e-3 : 1e-2);
  // Perturb lattices a little: nearly co-circular generators make short edges.
  if (s.chance(1, 2)) { double amp = d.length()*std::ldexp(1e-3, -s.range(0, 8)); std::vector<P> h; for (P p : g) { P q((double)(p.x + amp*(s.unit(12) - 0.5)), (double)(p.y + amp*(s.unit(12) - 0.5))); bool ok = d.contains(q) && d.boundaryDist(q) > 8e-4*d.length(); for (P o : h) ok = ok && ref::dist(o, q) > 8e-4*d.length(); if (ok) h.push_back(q); } g = h; if (g.empty()) throw pbt::Discard(); c.label("jittered"); }
  describe(c, d, g); Mesh2 m, b; run(d, g, m); mesh::checkIndices(m, g.size()); const double L = d.length();
  try { mesh::checkTopology(m, g.size()); } catch (const pbt::Failure&) { throw pbt::Discard(); } // judged by P03; only a sound mesh can be edited
  { ref::R A = 0; for (size_t i = 0; i != g.size(); ++i) A += ref::area(mesh::cellPoly(m, i)); bool ok = std::fabs((double)(A - d.area())) < 1e-7*L*L; for (unsigned n : m.boundaryNodes) ok = ok && d.boundaryDist(mesh::node(m, n)) < 1e-7*L; if (!ok) throw pbt::Discard(); } // likewise P02, P04
  { std::vector<int> n(m.nodes.size()/2, 0); for (size_t f = 0; f != m.faces.size(); ++f) if (m.faceCells[f].size() == 1) for (unsigned k : m.faces[f]) ++n[k]; for (int k : n) if (k != 0 && k != 2) throw pbt::Discard(); } // a border that touches itself is outside the routine's stated precondition
  static const double tl[] = {1e-6, 1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.3}; const double tol = tl[s.draw(6)]; c.desc << " edgeTol=" << tol;
  Edges e = edges(m, d); int shortOnes = 0; for (size_t f = 0; f != m.faces.size(); ++f) if (e.len[f] < tol*e.longest[f]) ++shortOnes;
  c.nontrivial = shortOnes > 0; if (shortOnes) c.label("short edges"); if (shortOnes > 5) c.label("more than five short edges");
  copy(m, b); { polytope::MeshEditor<2, double> ed(b); ed.cleanEdges(tol); }
  mesh::checkTopology(b, g.size()); mesh::checkBoundaryLists(b);
  if (!shortOnes) { PBT_CHECK(b.nodes == m.nodes && b.faces == m.faces && b.cells == m.cells && b.faceCells == m.faceCells, "changed", "no edge is shorter than the tolerance but the mesh changed"); return; }
  // Every node left is one of the old ones; the ones gone were the ends of short edges.
  std::map<std::pair<double, double>, unsigned> old; for (unsigned n = 0; n != m.nodes.size()/2; ++n) old[std::make_pair(m.nodes[2*n], m.nodes[2*n + 1])] = n;
  std::vector<int> from(b.nodes.size()/2, -1); std::vector<bool> kept(m.nodes.size()/2, false);
  for (unsigned n = 0; n != b.nodes.size()/2; ++n) { auto it = old.find(std::make_pair(b.nodes[2*n], b.nodes[2*n + 1])); PBT_CHECK(it != old.end(), "node-moved", "node " << n << " is not at the position of an old node"); PBT_CHECK(!kept[it->second], "node-moved", "two nodes at the position of old node " << it->second); kept[it->second] = true; from[n] = (int)it->second; }
  std::vector<std::set<unsigned> > atNode(m.nodes.size()/2); for (size_t f = 0; f != m.faces.size(); ++f) for (unsigned n : m.faces[f]) atNode[n].insert(f);
  for (unsigned n = 0; n != kept.size(); ++n) if (!kept[n]) {
    PBT_CHECK(!e.corner.count(n), "corner-lost", "corner node " << n << " of the domain is gone");
    bool ok = false; for (unsigned f : atNode[n]) if (e.len[f] < tol*e.longest[f]) ok = true; PBT_CHECK(ok, "node-lost", "node " << n << " is gone though none of its edges is short");
  }
  for (unsigned n : e.corner) PBT_CHECK(kept[n], "corner-lost", "corner node " << n << " of the domain is gone");
  // The domain itself is as before.
  ref::R A = 0, B = 0; for (size_t i = 0; i != g.size(); ++i) { A += ref::area(mesh::cellPoly(m, i)); B += ref::area(mesh::cellPoly(b, i)); }
  PBT_CHECK(std::fabs((double)(A - B)) <= 1e-8*L*L, "area", "the cells covered " << (double)A << " before and " << (double)B << " after");
  for (unsigned n : b.boundaryNodes) PBT_CHECK(d.boundaryDist(mesh::node(b, n)) <= 1e-6*L, "boundary-moved", "boundary node " << n << " is not on the domain's boundary");
  // Each cell has lost only short edges, and its corners are the old ones or the other ends of collapsed edges.
  for (size_t i = 0; i != g.size(); ++i) {
    size_t can = 0; double q = 0; for (int f : m.cells[i]) { size_t k = f < 0 ? ~f : f; if (e.len[k] < tol*e.longest[k]) ++can; q = std::max(q, e.longest[k]); }
    PBT_CHECK(b.cells[i].size() + can >= m.cells[i].size(), "edges-lost", "cell " << i << " lost " << m.cells[i].size() - b.cells[i].size() << " edges but only " << can << " were short");
    Poly p = mesh::cellPoly(b, i), o = mesh::cellPoly(m, i); for (size_t v = 0; v != p.size(); ++v) { ref::R best = 1e300L; for (size_t w = 0; w != o.size(); ++w) best = std::min(best, ref::dist(p[v], o[w])); PBT_CHECK(best <= tol*L*2, "cell-moved", "corner " << pt(p[v]) << " of cell " << i << " is far from its old corners"); }
  }
  // Repeating the cleaning comes to an end.
  size_t last = b.faces.size(); for (int k = 0; k != 40; ++k) { polytope::MeshEditor<2, double> ed(b); ed.cleanEdges(tol); mesh::checkTopology(b, g.size()); if (b.faces.size() == last) { last = 0; break; } PBT_CHECK(b.faces.size() < last, "cleaning", "cleaning added faces"); last = b.faces.size(); }
  // What is left short could not be collapsed: it touches a corner, or the collapse would spoil a cell or the boundary.
  Edges z = edges(b, d);
  for (size_t f = 0; f != b.faces.size() && !last; ++f) if (z.len[f] < 0.999*tol*z.longest[f]) {
    unsigned a = b.faces[f][0], q = b.faces[f][1]; bool excuse = z.corner.count(a) || z.corner.count(q);
    for (int i : b.faceCells[f]) if (b.cells[i < 0 ? ~i : i].size() <= 3) excuse = true;
    if (b.faceCells[f].size() == 2 && z.border.count(a) && z.border.count(q)) excuse = true;
    // an end that two other cells share by a second face (collapsing would double an edge)
    std::set<unsigned> na, nq; for (size_t k = 0; k != b.faces.size(); ++k) { if (b.faces[k][0] == a) na.insert(b.faces[k][1]); if (b.faces[k][1] == a) na.insert(b.faces[k][0]); if (b.faces[k][0] == q) nq.insert(b.faces[k][1]); if (b.faces[k][1] == q) nq.insert(b.faces[k][0]); }
    for (unsigned n : na) if (nq.count(n)) excuse = true;
    PBT_CHECK(excuse, "short-edge-left", "face " << f << " of length " << z.len[f] << " is shorter than " << tol << " of " << z.longest[f] << " and could be collapsed");
  }
}
static void small(Src& s, Case& c) { body(s, c, 10, false); }
static void medium(Src& s, Case& c) { body(s, c, 80, false); }
static void holes(Src& s, Case& c) { body(s, c, 30, true); }
int main(int argc, char** argv) {
  const std::string r = "a 2D tessellation of a domain (clouds jittered to make nearly co-circular generators) and an edge tolerance between 1e-6 and 0.3; non-trivial: at least one edge shorter than the tolerance; discarded: meshes that are not consistent to start with";
  return pbt::run(argc, argv, "P12", {pbt::target("small", small, 2500, 80000, r), pbt::target("medium", medium, 700, 30000, r), pbt::target("holes", holes, 900, 30000, r)},
    {"2D only: the routine does not support 3D meshes"});
}
