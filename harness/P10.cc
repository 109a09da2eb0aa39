// P10: the ranks of a distributed tessellation agree about what they share.
#include "distrib.hh"
using namespace distrib;
static P node(const Mesh2& m, unsigned n) { return P(m.nodes[2*n], m.nodes[2*n + 1]); }
static P face(const Mesh2& m, unsigned f) { return 0.5L*(node(m, m.faces[f][0]) + node(m, m.faces[f][1])); }
static void shared(Src& s, Case& c) {
  Setup u = setup(s, c, 90); const ref::R L = u.d.length();
  if (u.nonconvex) { orphan::Model o(u.d, u.all); c.label(o.kind()); if (!o.clear()) throw pbt::Discard(); }
  Mesh2 mine, whole; run(u, c.rank, u.info, mine, whole); All a; a.m = gather(mine); const int np = c.nproc;
  size_t listed = 0;
  std::vector<std::vector<int> > at(np, std::vector<int>(np, -1));
  for (int p = 0; p != np; ++p) {
    const Mesh2& m = *a.m[p]; std::ostringstream w; w << "rank " << p << ": ";
    if (!u.info && !u.serialOne) { PBT_CHECK(m.neighborDomains.empty() && m.sharedNodes.empty() && m.sharedFaces.empty(), "unasked-info", w.str() << "communication lists without asking for them"); continue; }
    PBT_CHECK(m.sharedNodes.size() == m.neighborDomains.size() && m.sharedFaces.size() == m.neighborDomains.size(), "list-sizes", w.str() << m.neighborDomains.size() << " neighbours, " << m.sharedNodes.size() << " lists of nodes, " << m.sharedFaces.size() << " lists of faces");
    for (size_t k = 0; k != m.neighborDomains.size(); ++k) {
      int q = (int)m.neighborDomains[k]; PBT_CHECK(q < np && q != p && (!k || m.neighborDomains[k - 1] < m.neighborDomains[k]), "neighbor-list", w.str() << "neighbours " << pbt::str(m.neighborDomains)); at[p][q] = (int)k;
      PBT_CHECK(!m.sharedNodes[k].empty() || !m.sharedFaces[k].empty(), "empty-neighbor", w.str() << "shares nothing with its neighbour " << q);
      std::set<unsigned> sn(m.sharedNodes[k].begin(), m.sharedNodes[k].end()), sf(m.sharedFaces[k].begin(), m.sharedFaces[k].end());
      PBT_CHECK(sn.size() == m.sharedNodes[k].size() && sf.size() == m.sharedFaces[k].size(), "listed-twice", w.str() << "lists an element shared with " << q << " twice");
      PBT_CHECK((sn.empty() || *sn.rbegin() < m.nodes.size()/2) && (sf.empty() || *sf.rbegin() < m.faces.size()), "list-index", w.str() << "lists an element it does not have as shared with " << q);
      for (std::set<unsigned>::iterator f = sf.begin(); f != sf.end(); ++f) PBT_CHECK(m.faceCells[*f].size() == 1, "shared-face-cells", w.str() << "face " << *f << " is shared with " << q << " and lies between two of its own cells");
      listed += sn.size() + sf.size();
    }
  }
  c.nontrivial = listed > 0; if (!u.info && !u.serialOne) return;
  for (int p = 0; p != np; ++p) for (int q = p + 1; q != np; ++q) {
    PBT_CHECK((at[p][q] < 0) == (at[q][p] < 0), "one-sided", "rank " << p << (at[p][q] < 0 ? " does not list " : " lists ") << q << ", which " << (at[q][p] < 0 ? "does not list it" : "lists it"));
    if (at[p][q] < 0) continue;
    const Mesh2 &x = *a.m[p], &y = *a.m[q]; const std::vector<unsigned> &xn = x.sharedNodes[at[p][q]], &yn = y.sharedNodes[at[q][p]], &xf = x.sharedFaces[at[p][q]], &yf = y.sharedFaces[at[q][p]];
    std::ostringstream w; w << "ranks " << p << " and " << q << ": ";
    PBT_CHECK(xn.size() == yn.size() && xf.size() == yf.size(), "list-lengths", w.str() << xn.size() << " and " << yn.size() << " shared nodes, " << xf.size() << " and " << yf.size() << " shared faces");
    bool anchored = true;
    for (size_t k = 0; k != xn.size(); ++k) {
      P i = node(x, xn[k]), j = node(y, yn[k]);
      PBT_CHECK(ref::dist(i, j) < 1e-6L*L, "node-order", w.str() << "shared node " << k << " is " << pt(i) << " for one and " << pt(j) << " for the other");
      if (!(i.x == j.x && i.y == j.y)) { // a node of a third rank that only one of the two shares with it
        anchored = false; bool third = false; for (int r = 0; r != q && !third; ++r) if (r != p && ((at[p][r] >= 0 && r < p) || at[q][r] >= 0)) third = true;
        PBT_CHECK(third, "node-position", w.str() << "shared node " << k << " is at " << pt(i) << " for one and at " << pt(j) << " for the other");
      }
    }
    (void)anchored;
    for (size_t k = 0; k != xf.size(); ++k) PBT_CHECK(ref::dist(face(x, xf[k]), face(y, yf[k])) < 2e-6L*L, "face-order", w.str() << "shared face " << k << " is around " << pt(face(x, xf[k])) << " for one and around " << pt(face(y, yf[k])) << " for the other");
  }
  // Everything two ranks share in the serial mesh is listed.
  std::vector<std::set<unsigned> > cells = whole.computeNodeCells(); const size_t nn = whole.nodes.size()/2;
  for (size_t n = 0; n != nn; ++n) {
    P o = node(whole, n); bool alone = true; for (size_t k = 0; k != nn && alone; ++k) if (k != n && ref::dist(node(whole, k), o) < 1e-4L*L) alone = false; if (!alone) continue;
    std::set<int> r; for (std::set<unsigned>::iterator i = cells[n].begin(); i != cells[n].end(); ++i) r.insert(u.owner[*i]);
    for (std::set<int>::iterator p = r.begin(); p != r.end(); ++p) for (std::set<int>::iterator q = r.begin(); q != r.end(); ++q) {
      if (*p == *q || (u.bound == UNBOUNDED && (!near(o, u.part[*p]) || !near(o, u.part[*q])))) continue;
      bool in = false; if (at[*p][*q] >= 0) { const Mesh2& m = *a.m[*p]; const std::vector<unsigned>& v = m.sharedNodes[at[*p][*q]]; for (size_t k = 0; k != v.size() && !in; ++k) in = ref::dist(node(m, v[k]), o) < 1e-6L*L; }
      PBT_CHECK(in, "node-missing", "rank " << *p << " does not list the node at " << pt(o) << " as shared with rank " << *q);
    }
  }
  for (size_t f = 0; f != whole.faces.size(); ++f) {
    if (whole.faceCells[f].size() != 2) continue; int i = whole.faceCells[f][0], j = whole.faceCells[f][1]; if (i < 0) i = ~i; if (j < 0) j = ~j; int p = u.owner[i], q = u.owner[j]; if (p == q) continue;
    P e0 = node(whole, whole.faces[f][0]), e1 = node(whole, whole.faces[f][1]); if (ref::dist(e0, e1) < 1e-4L*L) continue;
    if (u.bound == UNBOUNDED && (!near(e0, u.part[p]) || !near(e0, u.part[q]) || !near(e1, u.part[p]) || !near(e1, u.part[q]))) continue;
    for (int t = 0; t != 2; ++t, std::swap(p, q)) {
      bool in = false; if (at[p][q] >= 0) { const Mesh2& m = *a.m[p]; const std::vector<unsigned>& v = m.sharedFaces[at[p][q]]; for (size_t k = 0; k != v.size() && !in; ++k) in = ref::dist(face(m, v[k]), 0.5L*(e0 + e1)) < 2e-6L*L; }
      PBT_CHECK(in, "face-missing", "rank " << p << " does not list the face from " << pt(e0) << " to " << pt(e1) << " as shared with rank " << q);
    }
  }
}
int main(int argc, char** argv) {
  const char* rule = "the cases of P09; the shared-node, shared-face and neighbour lists of all ranks against each other and against the serial mesh; non-trivial: something is shared";
  return pbt::run(argc, argv, "P10", {pbt::target("two", shared, 500, 14000, rule, 2, 20), pbt::target("three", shared, 350, 10000, rule, 3, 20), pbt::target("four", shared, 250, 8000, rule, 4, 20), pbt::target("six", shared, 60, 3000, rule, 6, 30)},
    {"every rank owns at least one generator (a documented precondition)", "in non-convex domains only clouds whose cells are not cut off, or cut off in one region", "nodes closer than 1e-4 of the domain to another one, and shorter faces, need not be listed: the ranks may see one node where another sees two"});
}
