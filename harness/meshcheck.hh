// Oracle for a 2D mesh: everything a user can read off a finished tessellation.
#ifndef VERIF_MESHCHECK_HH
#define VERIF_MESHCHECK_HH
#include "pbt.hh"
#include "geom.hh"
#include "polytope.hh"
#include <set>
#include <map>

namespace mesh {
typedef polytope::Tessellation<2, double> Mesh2;
using ref::P; using ref::Poly;

inline P node(const Mesh2& m, unsigned i) { return P(m.nodes[2*i], m.nodes[2*i + 1]); }

// Cell i as the loop its signed faces describe, read in the stored order.
inline Poly cellPoly(const Mesh2& m, size_t i, std::vector<unsigned>* ids = 0) {
  Poly p;
  for (size_t k = 0; k != m.cells[i].size(); ++k) {
    int f = m.cells[i][k]; unsigned n = f < 0 ? m.faces[~f][1] : m.faces[f][0];
    p.push_back(node(m, n)); if (ids) ids->push_back(n);
  }
  return p;
}

// Indices in range, shapes right; needed before anything else may be read.
inline void checkIndices(const Mesh2& m, size_t ncells) {
  PBT_CHECK(m.nodes.size()%2 == 0, "mesh-shape", "odd number of node coordinates " << m.nodes.size());
  PBT_CHECK(m.cells.size() == ncells, "mesh-shape", m.cells.size() << " cells for " << ncells << " generators");
  PBT_CHECK(m.faceCells.size() == m.faces.size(), "mesh-shape", m.faceCells.size() << " faceCells for " << m.faces.size() << " faces");
  const unsigned nn = m.nodes.size()/2, nf = m.faces.size();
  for (size_t i = 0; i != m.nodes.size(); ++i) PBT_CHECK(std::isfinite(m.nodes[i]), "mesh-shape", "node " << i/2 << " is not finite");
  for (size_t f = 0; f != nf; ++f) {
    PBT_CHECK(m.faces[f].size() == 2, "mesh-shape", "face " << f << " has " << m.faces[f].size() << " nodes");
    PBT_CHECK(m.faces[f][0] < nn && m.faces[f][1] < nn, "mesh-shape", "face " << f << " names a node out of range");
  }
  for (size_t i = 0; i != ncells; ++i) {
    PBT_CHECK(m.cells[i].size() >= 3, "mesh-shape", "cell " << i << " has " << m.cells[i].size() << " faces");
    for (size_t k = 0; k != m.cells[i].size(); ++k) { int f = m.cells[i][k]; if (f < 0) f = ~f; PBT_CHECK(f >= 0 && (unsigned)f < nf, "mesh-shape", "cell " << i << " names face " << m.cells[i][k]); }
  }
}

// The connectivity arrays are one consistent planar complex.
inline void checkTopology(const Mesh2& m, size_t ncells, bool allNodesUsed = true) {
  checkIndices(m, ncells);
  const unsigned nn = m.nodes.size()/2, nf = m.faces.size();
  std::vector<std::vector<int> > use(nf); std::vector<int> nodeUse(nn, 0);
  std::map<std::pair<unsigned, unsigned>, size_t> seen;
  for (size_t f = 0; f != nf; ++f) {
    unsigned a = m.faces[f][0], b = m.faces[f][1];
    PBT_CHECK(a != b, "face-degenerate", "face " << f << " joins node " << a << " to itself");
    std::pair<unsigned, unsigned> key(std::min(a, b), std::max(a, b));
    PBT_CHECK(seen.insert(std::make_pair(key, f)).second, "face-duplicate", "faces " << seen[key] << " and " << f << " join the same nodes");
    ++nodeUse[a]; ++nodeUse[b];
  }
  for (size_t i = 0; i != ncells; ++i) {
    const std::vector<int>& c = m.cells[i]; std::set<int> once;
    for (size_t k = 0; k != c.size(); ++k) {
      int f = c[k], g = c[(k + 1)%c.size()], pf = f < 0 ? ~f : f, pg = g < 0 ? ~g : g;
      PBT_CHECK(once.insert(pf).second, "cell-loop", "cell " << i << " uses face " << pf << " twice");
      unsigned end = f < 0 ? m.faces[pf][0] : m.faces[pf][1], start = g < 0 ? m.faces[pg][1] : m.faces[pg][0];
      PBT_CHECK(end == start, "cell-loop", "cell " << i << " is not a closed loop: face " << pf << " ends at node " << end << " and the next starts at " << start);
      use[pf].push_back(f < 0 ? ~(int)i : (int)i);
    }
  }
  for (size_t f = 0; f != nf; ++f) {
    PBT_CHECK(use[f].size() == 1 || use[f].size() == 2, "face-cells", "face " << f << " belongs to " << use[f].size() << " cells");
    if (use[f].size() == 2) PBT_CHECK((use[f][0] < 0) != (use[f][1] < 0), "face-cells", "both cells of face " << f << " see it with the same orientation");
    std::vector<int> a = use[f], b = m.faceCells[f]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    PBT_CHECK(a == b, "face-cells", "faceCells of face " << f << " is " << pbt::str(b) << " but the cells say " << pbt::str(a));
  }
  if (allNodesUsed) for (size_t n = 0; n != nn; ++n) PBT_CHECK(nodeUse[n] > 0, "node-unused", "node " << n << " belongs to no face");
}

// boundaryFaces / boundaryNodes are exactly the topological boundary.
inline void checkBoundaryLists(const Mesh2& m) {
  std::vector<unsigned> bf; std::set<unsigned> bn;
  std::vector<int> count(m.faces.size(), 0);
  for (size_t i = 0; i != m.cells.size(); ++i) for (size_t k = 0; k != m.cells[i].size(); ++k) { int f = m.cells[i][k]; ++count[f < 0 ? ~f : f]; }
  for (size_t f = 0; f != m.faces.size(); ++f) if (count[f] == 1) { bf.push_back(f); bn.insert(m.faces[f].begin(), m.faces[f].end()); }
  std::vector<unsigned> a = m.boundaryFaces, b = m.boundaryNodes; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  PBT_CHECK(a == bf, "boundary-faces", "boundaryFaces " << pbt::str(a) << " but the faces with one cell are " << pbt::str(bf));
  PBT_CHECK(b == std::vector<unsigned>(bn.begin(), bn.end()), "boundary-nodes", "boundaryNodes " << pbt::str(b) << " but the nodes of boundary faces are " << pbt::str(std::vector<unsigned>(bn.begin(), bn.end())));
}
}
#endif
