// P11: deleting cells from a mesh.
#include "tess.hh"
#include "mesh3.hh"
#include "deleteCells.hh"
#include "MeshEditor.hh"
using namespace tess;
typedef std::vector<double> Key;
template<int D> struct Mesh { typedef polytope::Tessellation<D, double> T; };
template<int D> static Key at(const typename Mesh<D>::T& m, unsigned n) { return Key(m.nodes.begin() + D*n, m.nodes.begin() + D*(n + 1)); }
template<int D> static Key faceKey(const typename Mesh<D>::T& m, unsigned f) { Key k; for (unsigned n : m.faces[f]) { Key a = at<D>(m, n); k.insert(k.end(), a.begin(), a.end()); } return k; }
// A cell as the signed sequence of its faces written out as coordinates.
template<int D> static std::vector<std::pair<bool, Key> > cellKey(const typename Mesh<D>::T& m, size_t c) { std::vector<std::pair<bool, Key> > r; for (int f : m.cells[c]) r.push_back(std::make_pair(f < 0, faceKey<D>(m, f < 0 ? ~f : f))); return r; }
template<int D> static void copy(const typename Mesh<D>::T& a, typename Mesh<D>::T& b) {
  b.clear(); b.nodes = a.nodes; b.cells = a.cells; b.faces = a.faces; b.boundaryNodes = a.boundaryNodes; b.boundaryFaces = a.boundaryFaces; b.faceCells = a.faceCells;
  b.neighborDomains = a.neighborDomains; b.sharedNodes = a.sharedNodes; b.sharedFaces = a.sharedFaces; b.convexHull.facets = a.convexHull.facets;
}
// Everything a user sees of the mesh after keeping the cells `kept` (old numbers, in order).
template<int D> static void verify(const typename Mesh<D>::T& a, const typename Mesh<D>::T& b, const std::vector<unsigned>& kept, const char* how) {
  PBT_CHECK(b.cells.size() == kept.size(), "cell-count", how << ": " << b.cells.size() << " cells left, expected " << kept.size());
  PBT_CHECK(b.nodes.size()%D == 0 && b.faceCells.size() == b.faces.size(), "mesh-shape", how << ": tables of different length");
  for (size_t f = 0; f != b.faces.size(); ++f) for (unsigned n : b.faces[f]) PBT_CHECK(n < b.nodes.size()/D, "mesh-shape", how << ": face " << f << " names node " << n);
  for (size_t i = 0; i != b.cells.size(); ++i) for (int f : b.cells[i]) PBT_CHECK((size_t)(f < 0 ? ~f : f) < b.faces.size(), "mesh-shape", how << ": cell " << i << " names face " << f);
  std::vector<std::vector<int> > use(b.faces.size()); std::set<unsigned> nodes; std::set<Key> wantNodes, gotNodes; std::set<int> oldFaces;
  for (size_t i = 0; i != kept.size(); ++i) {
    auto x = cellKey<D>(a, kept[i]), y = cellKey<D>(b, i); for (auto& e : x) for (size_t q = 0; q != e.second.size(); q += D) wantNodes.insert(Key(e.second.begin() + q, e.second.begin() + q + D));
    PBT_CHECK(x == y, "cell-changed", how << ": kept cell " << kept[i] << " (now " << i << ") no longer consists of the same faces");
    for (int f : b.cells[i]) use[f < 0 ? ~f : f].push_back(f < 0 ? ~(int)i : (int)i);
    for (int f : a.cells[kept[i]]) oldFaces.insert(f < 0 ? ~f : f);
  }
  PBT_CHECK(b.faces.size() == oldFaces.size(), "face-count", how << ": " << b.faces.size() << " faces left, the kept cells have " << oldFaces.size());
  PBT_CHECK(b.nodes.size()/D == wantNodes.size(), "node-count", how << ": " << b.nodes.size()/D << " nodes left, the kept cells have " << wantNodes.size());
  std::vector<unsigned> bf; std::set<unsigned> bn;
  for (size_t f = 0; f != b.faces.size(); ++f) {
    std::vector<int> u = use[f], v = b.faceCells[f]; std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end());
    PBT_CHECK(u == v, "face-cells", how << ": faceCells of face " << f << " is " << pbt::str(v) << " but the cells say " << pbt::str(u));
    if (u.size() == 1) { bf.push_back(f); bn.insert(b.faces[f].begin(), b.faces[f].end()); }
  }
  std::vector<unsigned> x = b.boundaryFaces, y = b.boundaryNodes; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  PBT_CHECK(x == bf, "boundary-faces", how << ": boundaryFaces " << pbt::str(x) << " but the faces with one cell are " << pbt::str(bf));
  PBT_CHECK(y == std::vector<unsigned>(bn.begin(), bn.end()), "boundary-nodes", how << ": boundaryNodes " << pbt::str(y) << " but the boundary faces have " << pbt::str(std::vector<unsigned>(bn.begin(), bn.end())));
  // The communication tables name the same nodes and faces as before, less those gone.
  PBT_CHECK(b.neighborDomains == a.neighborDomains && b.sharedNodes.size() == a.sharedNodes.size() && b.sharedFaces.size() == a.sharedFaces.size(), "shared-shape", how << ": the communication tables changed shape");
  std::set<unsigned> oldNodes; for (int f : oldFaces) oldNodes.insert(a.faces[f].begin(), a.faces[f].end());
  for (size_t k = 0; k != a.sharedNodes.size(); ++k) {
    std::vector<Key> want, got; for (unsigned n : a.sharedNodes[k]) if (oldNodes.count(n)) want.push_back(at<D>(a, n));
    for (unsigned n : b.sharedNodes[k]) { PBT_CHECK(n < b.nodes.size()/D, "shared-nodes", how << ": shared node " << n << " does not exist"); got.push_back(at<D>(b, n)); }
    PBT_CHECK(want == got, "shared-nodes", how << ": the nodes shared with domain " << a.neighborDomains[k] << " are not the remaining ones in their order");
    want.clear(); got.clear(); for (unsigned f : a.sharedFaces[k]) if (oldFaces.count(f)) want.push_back(faceKey<D>(a, f));
    for (unsigned f : b.sharedFaces[k]) { PBT_CHECK(f < b.faces.size(), "shared-faces", how << ": shared face " << f << " does not exist"); got.push_back(faceKey<D>(b, f)); }
    PBT_CHECK(want == got, "shared-faces", how << ": the faces shared with domain " << a.neighborDomains[k] << " are not the remaining ones in their order");
  }
  PBT_CHECK(b.convexHull.empty() || kept.size() == a.cells.size(), "hull", how << ": the convex hull of the old mesh was kept");
}
template<int D> static void edit(Src& s, Case& c, typename Mesh<D>::T& m) {
  const int nd = (int)s.draw(2); for (int k = 0; k != nd; ++k) {
    m.neighborDomains.push_back(k + 1); std::vector<unsigned> n, f;
    for (unsigned i = 0; i != m.nodes.size()/D; ++i) if (s.chance(1, 3)) n.push_back(i); for (unsigned i = 0; i != m.faces.size(); ++i) if (s.chance(1, 3)) f.push_back(i);
    if (s.chance(1, 2)) { for (size_t i = n.size(); i > 1; --i) std::swap(n[i - 1], n[s.draw(i - 1)]); for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[s.draw(i - 1)]); }
    m.sharedNodes.push_back(n); m.sharedFaces.push_back(f);
  }
  if (nd) c.label("with communication tables"); if (m.convexHull.empty() && s.chance(1, 2)) m.convexHull.facets.push_back(std::vector<int>(2, 0));
  // A history of deletions, each judged against the mesh before it; the composition against the original.
  const size_t n0 = m.cells.size(); std::vector<unsigned> total; for (size_t i = 0; i != n0; ++i) total.push_back(i);
  typename Mesh<D>::T orig, now, next; copy<D>(m, orig); copy<D>(m, now); const int steps = s.range(1, 3); bool any = false;
  for (int st = 0; st != steps && now.cells.size() > 1; ++st) {
    const size_t n = now.cells.size(); std::vector<unsigned> mask(n, 1), del; const int how = (int)s.draw(3);
    for (size_t i = 0; i != n; ++i) if (how == 0 ? s.chance(1, 4) : how == 1 ? s.chance(3, 4) : how == 2 ? false : i < n/2) mask[i] = 0;
    if (how == 2) mask[s.draw(n - 1)] = 0;
    if (std::count(mask.begin(), mask.end(), 1u) == 0) mask[s.draw(n - 1)] = 1;
    for (size_t i = 0; i != n; ++i) if (!mask[i]) del.push_back(i);
    if (s.chance(1, 2)) { for (size_t i = del.size(); i > 1; --i) std::swap(del[i - 1], del[s.draw(i - 1)]); if (del.size() && s.chance(1, 3)) del.push_back(del[0]); }
    std::vector<unsigned> kept; for (size_t i = 0; i != n; ++i) if (mask[i]) kept.push_back(i);
    any = any || kept.size() != n; c.desc << " delete=" << pbt::str(del);
    typename Mesh<D>::T a, b; copy<D>(now, a); copy<D>(now, b);
    polytope::deleteCells(a, mask); verify<D>(now, a, kept, "deleteCells");
    if (!del.empty()) { polytope::MeshEditor<D, double> e(b); e.deleteCells(del); verify<D>(now, b, kept, "MeshEditor"); }
    std::vector<unsigned> t; for (unsigned k : kept) t.push_back(total[k]); total = t; copy<D>(s.chance(1, 2) && !del.empty() ? b : a, now);
  }
  verify<D>(orig, now, total, "all steps together"); c.nontrivial = any && n0 >= 3;
}
static void flat2(Src& s, Case& c) {
  Domain d = convexDomain(s, c); std::vector<P> g = cloud(s, c, d, s.chance(1, 4) ? 80 : 15); describe(c, d, g); Mesh2 m;
  if (g.size() >= 2 && s.chance(1, 4)) { c.label("unbounded"); Boost2 t; t.tessellate(flat(g), m); } else run(d, g, m);
  mesh::checkIndices(m, g.size()); edit<2>(s, c, m);
}
static void prisms(Src& s, Case& c) {
  Domain d = convexDomain(s, c, true); std::vector<P> g = cloud(s, c, d, 10); describe(c, d, g); Mesh2 m2; run(d, g, m2); mesh::checkIndices(m2, g.size());
  mesh3::Built b = mesh3::frame(s); mesh3::Mesh3 m; mesh3::extrude(m2, b, m, &s); edit<3>(s, c, m);
}
int main(int argc, char** argv) {
  const std::string r = ", with invented communication tables, and up to three successive deletions of random, many, single or half of the cells, by deleteCells and by MeshEditor::deleteCells (list in any order, with repetitions); non-trivial: at least 3 cells and one deleted";
  return pbt::run(argc, argv, "P11", {pbt::target("flat", flat2, 3000, 60000, "a 2D tessellation, bounded or not" + r), pbt::target("prisms", prisms, 2000, 40000, "a 3D mesh of prisms in layers" + r)},
    {"at least one cell is kept"});
}
