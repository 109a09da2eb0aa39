// P25: boundary complexes taken from other objects: reduced copies, cells as PLCs, canned shapes, OFF files.
#include "tess.hh"
#include "mesh3.hh"
#include <fstream>
#include "polytope_plc_canned_geometries.hh"
#include "makeBoxPLC.hh"
#include "polytope_write_OOGL.hh"
using namespace tess; using mesh3::P3;
static void indices(const std::vector<std::vector<int> >& f, size_t n, size_t least, const char* what, std::vector<int>& used) { for (size_t i = 0; i != f.size(); ++i) { PBT_CHECK(f[i].size() >= least, "facet-shape", what << ": facet " << i << " has " << f[i].size() << " points"); for (int k : f[i]) { PBT_CHECK(k >= 0 && (size_t)k < n, "facet-range", what << ": facet " << i << " names point " << k << " of " << n); ++used[k]; } } }
// A closed surface, oriented outward: every directed edge is matched by its reverse; returns the volume.
static ref::R closed3(const std::vector<std::vector<int> >& f, const Reals& p, const char* what, size_t* edges = 0) {
  std::map<std::pair<int, int>, int> e; for (size_t i = 0; i != f.size(); ++i) for (size_t k = 0; k != f[i].size(); ++k) ++e[std::make_pair(f[i][k], f[i][(k + 1)%f[i].size()])];
  for (auto& x : e) PBT_CHECK(x.second == 1 && e.count(std::make_pair(x.first.second, x.first.first)), "not-closed", what << ": edge " << x.first.first << "-" << x.first.second << " is walked " << x.second << " times, backwards " << (e.count(std::make_pair(x.first.second, x.first.first)) ? "also" : "never"));
  if (edges) *edges = e.size()/2; auto at = [&](int i) { return P3(p[3*i], p[3*i + 1], p[3*i + 2]); }; P3 o = at(f[0][0]); ref::R v = 0;
  for (size_t i = 0; i != f.size(); ++i) for (size_t k = 1; k + 1 < f[i].size(); ++k) v += mesh3::dot(at(f[i][0]) - o, mesh3::cross(at(f[i][k]) - o, at(f[i][k + 1]) - o))/6;
  return v;
}
// A reduced copy names the same coordinates in the same order and holds only points in use, each once.
template<int D> static void reduced(Src& s, Case& c) {
  const int n = s.range(3, 40); Reals pts; for (int i = 0; i != D*n; ++i) pts.push_back(s.range(-50, 50)*0.25 + (s.chance(1, 4) ? s.unit() : 0));
  polytope::PLC<D, double> plc; auto facet = [&]() { std::vector<int> f; int k = D == 2 ? 2 : s.range(3, 7); for (int i = 0; i != k; ++i) f.push_back((int)s.draw(n - 1)); return f; };
  int nf = s.range(0, 12), nh = s.range(0, 3); for (int i = 0; i != nf; ++i) plc.facets.push_back(facet()); for (int h = 0; h != nh; ++h) { plc.holes.push_back(std::vector<std::vector<int> >()); int k = s.range(0, 6); for (int i = 0; i != k; ++i) plc.holes.back().push_back(facet()); }
  c.desc << "facets=" << pbt::str(plc.facets) << " points=" << pbt::str(pts); for (auto& h : plc.holes) c.desc << " hole=" << pbt::str(h);
  const polytope::PLC<D, double> keep(plc); polytope::ReducedPLC<D, double> r(plc, pts);
  PBT_CHECK(plc.facets == keep.facets && plc.holes == keep.holes, "source-changed", "the PLC handed over was changed");
  PBT_CHECK(r.points.size()%D == 0, "shape", r.points.size() << " coordinates"); const size_t m = r.points.size()/D; std::vector<int> used(m, 0); std::set<int> olds;
  PBT_CHECK(r.facets.size() == plc.facets.size() && r.holes.size() == plc.holes.size(), "shape", r.facets.size() << " facets and " << r.holes.size() << " holes");
  std::map<int, int> to; auto same = [&](const std::vector<std::vector<int> >& a, const std::vector<std::vector<int> >& b, const char* what) {
    PBT_CHECK(a.size() == b.size(), "shape", what << ": " << b.size() << " facets, expected " << a.size()); indices(b, m, 0, what, used);
    for (size_t i = 0; i != a.size(); ++i) { PBT_CHECK(a[i].size() == b[i].size(), "shape", what << ": facet " << i << " changed size"); for (size_t k = 0; k != a[i].size(); ++k) { olds.insert(a[i][k]); auto it = to.insert(std::make_pair(a[i][k], b[i][k])).first; PBT_CHECK(it->second == b[i][k], "renumber", what << ": point " << a[i][k] << " becomes both " << it->second << " and " << b[i][k]); for (int j = 0; j != D; ++j) PBT_CHECK(pts[D*a[i][k] + j] == r.points[D*b[i][k] + j], "coordinates", what << ": facet " << i << " point " << k << " moved"); } } };
  same(plc.facets, r.facets, "facets"); for (size_t h = 0; h != plc.holes.size(); ++h) same(plc.holes[h], r.holes[h], "hole");
  PBT_CHECK(m == olds.size(), "unused", m << " points kept, " << olds.size() << " in use"); for (size_t i = 0; i != m; ++i) PBT_CHECK(used[i], "unused", "point " << i << " is kept but not in use");
  c.nontrivial = nf > 0 && nh > 0 && m < (size_t)n; c.label(nh ? "with holes" : "no holes");
  // The quick look for validity.
  bool ok = true; for (auto& f : r.facets) ok = ok && (D == 2 ? f.size() == 2 : f.size() >= 3); PBT_CHECK(r.valid() == ok, "valid", "valid() is " << r.valid()); PBT_CHECK(r.empty() == (r.facets.empty() && r.holes.empty()), "valid", "empty() is " << r.empty());
  if (s.chance(1, 2) && (nf || nh)) { // spoil one facet
    std::vector<std::vector<int> >& w = nf && s.chance(1, 2) ? plc.facets : plc.holes.empty() ? plc.facets : plc.holes[s.draw(plc.holes.size() - 1)]; if (!w.empty()) { std::vector<int>& f = w[s.draw(w.size() - 1)]; if (D == 2 && s.chance(1, 2)) f.push_back(0); else f.resize(D - 1); PBT_CHECK(!plc.valid(), "valid", "a PLC with a facet of " << f.size() << " points is called valid"); c.label("spoilt facet"); } }
}
static void cells2(Src& s, Case& c) {
  Domain d = s.chance(1, 3) ? generalDomain(s, c) : convexDomain(s, c); std::vector<P> g = cloud(s, c, d, 25); describe(c, d, g); Mesh2 m; run(d, g, m); mesh::checkIndices(m, g.size()); c.nontrivial = g.size() >= 3;
  for (size_t i = 0; i != g.size(); ++i) {
    polytope::ReducedPLC<2, double> r = polytope::geometry::cellToReducedPLC<2, double>(m, i); Poly want = mesh::cellPoly(m, i); const size_t n = want.size();
    PBT_CHECK(r.facets.size() == n && r.points.size() == 2*n && r.holes.empty(), "cell-shape", "cell " << i << " of " << n << " faces becomes a PLC of " << r.facets.size() << " facets and " << r.points.size()/2 << " points");
    std::vector<int> used(n, 0), next(n, -1); indices(r.facets, n, 2, "cell", used); for (auto& f : r.facets) { PBT_CHECK(next[f[0]] < 0, "cell-shape", "cell " << i << ": two facets start at point " << f[0]); next[f[0]] = f[1]; }
    // Walk the ring and lay it over the cell's own.
    Poly got; int k = 0; for (size_t q = 0; q != n; ++q) { got.push_back(P(r.points[2*k], r.points[2*k + 1])); k = next[k]; PBT_CHECK(k >= 0, "cell-shape", "cell " << i << ": the facets do not form a ring"); } PBT_CHECK(k == 0, "cell-shape", "cell " << i << ": the facets do not form one ring");
    bool ok = false; for (size_t o = 0; o != n && !ok; ++o) { ok = true; for (size_t q = 0; q != n && ok; ++q) ok = got[q].x == want[(q + o)%n].x && got[q].y == want[(q + o)%n].y; } PBT_CHECK(ok, "cell-outline", "the PLC of cell " << i << " does not walk the cell's nodes counter-clockwise");
  }
}
static void cells3(Src& s, Case& c) {
  Domain d = convexDomain(s, c, true); std::vector<P> g = cloud(s, c, d, 10); describe(c, d, g); Mesh2 m2; run(d, g, m2); mesh::checkIndices(m2, g.size()); mesh3::Built b = mesh3::frame(s); mesh3::Mesh3 m; mesh3::extrude(m2, b, m, &s); c.nontrivial = m.cells.size() >= 2;
  for (size_t i = 0; i != m.cells.size(); ++i) {
    polytope::ReducedPLC<3, double> r = polytope::geometry::cellToReducedPLC<3, double>(m, i); std::set<unsigned> nodes; for (int f : m.cells[i]) nodes.insert(m.faces[f < 0 ? ~f : f].begin(), m.faces[f < 0 ? ~f : f].end());
    PBT_CHECK(r.facets.size() == m.cells[i].size() && r.points.size() == 3*nodes.size() && r.holes.empty(), "cell-shape", "cell " << i << " of " << m.cells[i].size() << " faces and " << nodes.size() << " nodes becomes a PLC of " << r.facets.size() << " and " << r.points.size()/3);
    std::vector<int> used(nodes.size(), 0); indices(r.facets, nodes.size(), 3, "cell", used); size_t e; ref::R v = closed3(r.facets, r.points, "cell", &e), w = mesh3::volume(m, i);
    PBT_CHECK(std::fabs((double)(v - w)) <= 1e-9L*std::fabs((double)w) + 1e-18L, "cell-volume", "the PLC of cell " << i << " encloses " << (double)v << ", the cell " << (double)w); PBT_CHECK((long)nodes.size() - (long)e + (long)r.facets.size() == 2, "cell-shape", "the PLC of cell " << i << " is not a simple surface");
    for (size_t k = 0; k != r.facets.size(); ++k) { int f = m.cells[i][k]; std::vector<unsigned> n = m.faces[f < 0 ? ~f : f]; if (f < 0) std::reverse(n.begin(), n.end()); PBT_CHECK(n.size() == r.facets[k].size(), "cell-shape", "facet " << k << " of cell " << i << " changed size"); bool ok = false; for (size_t o = 0; o != n.size() && !ok; ++o) { ok = true; for (size_t q = 0; q != n.size() && ok; ++q) for (int j = 0; j != 3; ++j) ok = ok && r.points[3*r.facets[k][q] + j] == m.nodes[3*n[(q + o)%n.size()] + j]; } PBT_CHECK(ok, "cell-outline", "facet " << k << " of cell " << i << " does not walk the nodes of its face"); }
  }
}
static double coord(Src& s, double r) { return s.chance(1, 3) ? 0 : r*s.range(-20, 20)*0.5; }
static void canned(Src& s, Case& c) {
  const double r = std::pow(10.0, s.range(-4, 5))*(0.5 + s.unit(6)); const double x = coord(s, r), y = coord(s, r), z = coord(s, r); const int kind = (int)s.draw(4); c.nontrivial = true; c.desc << "center=" << x << "," << y << "," << z << " radius=" << r; const double big = r + std::fabs(x) + std::fabs(y) + std::fabs(z);
  if (kind == 0) { const unsigned n = (unsigned)s.range(3, 200); c.label("circle"); c.desc << " circle n=" << n; polytope::ReducedPLC<2, double> p = polytope::plc_circle(polytope::Point2<double>(x, y), r, n);
    PBT_CHECK(p.facets.size() == n && p.points.size() == 2*n && p.holes.empty(), "circle", p.facets.size() << " facets and " << p.points.size()/2 << " points"); std::vector<int> used(n, 0); indices(p.facets, n, 2, "circle", used); Poly q; int k = 0; std::vector<int> next(n, -1); for (auto& f : p.facets) next[f[0]] = f[1];
    for (unsigned i = 0; i != n; ++i) { PBT_CHECK(k >= 0, "circle", "not a ring"); q.push_back(P(p.points[2*k], p.points[2*k + 1])); PBT_CHECK(std::fabs((double)ref::dist(q.back(), P(x, y)) - r) <= 1e-14*big*8, "circle", "point " << k << " is not on the circle"); k = next[k]; } PBT_CHECK(k == 0, "circle", "not one ring");
    const double A = 0.5*n*r*r*std::sin(2*M_PI/n); PBT_CHECK(std::fabs((double)ref::area(q) - A) <= 1e-12*big*big*n, "circle", "encloses " << (double)ref::area(q) << ", the regular polygon has " << A); return; }
  if (kind == 1) { double w[3], lo[3] = {x, y, z}, hi[3]; for (int j = 0; j != 3; ++j) { w[j] = r*(0.1 + s.unit(5)); hi[j] = lo[j] + w[j]; w[j] = hi[j] - lo[j]; } c.label("box");
    polytope::ReducedPLC<2, double> p = polytope::plc_box<2, double>(lo, hi), q; polytope::internal::makeBoxPLC<double>(q, lo, hi);
    const polytope::ReducedPLC<2, double>* two[2] = {&p, &q}; for (auto* t : two) { PBT_CHECK(t->facets.size() == 4 && t->points.size() == 8 && t->holes.empty(), "box", t->facets.size() << " facets"); std::vector<int> used(4, 0); indices(t->facets, 4, 2, "box", used); Poly o; int k = 0; for (int i = 0; i != 4; ++i) { o.push_back(P(t->points[2*k], t->points[2*k + 1])); int nx = -1; for (auto& f : t->facets) if (f[0] == k) nx = f[1]; PBT_CHECK(nx >= 0, "box", "not a ring"); k = nx; } PBT_CHECK(k == 0 && std::fabs((double)ref::area(o) - w[0]*w[1]) <= 1e-12*big*big, "box", "encloses " << (double)ref::area(o) << " instead of " << w[0]*w[1]); }
    polytope::ReducedPLC<3, double> b = polytope::plc_box<3, double>(lo, hi); PBT_CHECK(b.facets.size() == 6 && b.points.size() == 24 && b.holes.empty(), "box", b.facets.size() << " facets"); std::vector<int> used(8, 0); indices(b.facets, 8, 4, "box", used); ref::R v = closed3(b.facets, b.points, "box"); PBT_CHECK(std::fabs((double)v - w[0]*w[1]*w[2]) <= 1e-11*big*big*big, "box", "encloses " << (double)v);
    for (int i = 0; i != 8; ++i) { PBT_CHECK(used[i] == 3, "box", "point " << i << " is in " << used[i] << " facets"); for (int j = 0; j != 3; ++j) PBT_CHECK(b.points[3*i + j] == lo[j] || b.points[3*i + j] == hi[j], "box", "point " << i << " is not a corner"); } 
    for (auto& f : b.facets) { bool flat = false; for (int j = 0; j != 3; ++j) { bool all = true; for (int k : f) all = all && b.points[3*k + j] == b.points[3*f[0] + j]; flat = flat || all; } PBT_CHECK(flat, "box", "a facet is not on a side of the box"); } return; }
  if (kind == 2) { const unsigned n = (unsigned)s.range(2, 12); c.label("sphere"); c.desc << " sphere n=" << n; polytope::ReducedPLC<3, double> p = polytope::plc_sphere(polytope::Point3<double>(x, y, z), r, n); const size_t m = p.points.size()/3; std::vector<int> used(m, 0); indices(p.facets, m, 3, "sphere", used);
    for (size_t i = 0; i != m; ++i) { PBT_CHECK(used[i] > 0, "sphere", "point " << i << " is in no facet"); double d = (double)mesh3::norm(P3(p.points[3*i], p.points[3*i + 1], p.points[3*i + 2]) - P3(x, y, z)); PBT_CHECK(std::fabs(d - r) <= 1e-13*big, "sphere", "point " << i << " is " << d << " from the center"); }
    size_t e; ref::R v = closed3(p.facets, p.points, "sphere", &e); PBT_CHECK((long)m - (long)e + (long)p.facets.size() == 2, "sphere", "not a simple surface"); const double V = 4*M_PI/3*r*r*r; PBT_CHECK(v > V*(1 - 8.0/(n*n)) - 1e-9*big*big*big && v < V*(1 + 1e-9) + 1e-9*big*big*big && v > 0, "sphere", "encloses " << (double)v << " of the sphere's " << V); 
    PBT_CHECK(m >= 2*n, "sphere", m << " points for " << n << " rows"); return; }
  const unsigned n = (unsigned)s.range(3, 60); const double len = r*std::pow(10.0, s.range(-3, 3))*(0.5 + s.unit(5)); c.label(len < 0.1*r ? "disc" : len > 10*r ? "needle" : "cylinder"); c.desc << " cylinder n=" << n << " length=" << len; if (len < 1e-10*big) throw pbt::Discard();
  polytope::ReducedPLC<3, double> p = polytope::plc_cylinder(polytope::Point3<double>(x, y, z), r, len, n); const size_t m = p.points.size()/3; PBT_CHECK(m == 2*n, "cylinder", m << " points"); std::vector<int> used(m, 0); indices(p.facets, m, 3, "cylinder", used);
  for (size_t i = 0; i != m; ++i) { PBT_CHECK(used[i] > 0, "cylinder", "point " << i << " is in no facet"); PBT_CHECK(std::fabs((double)ref::dist(P(p.points[3*i], p.points[3*i + 1]), P(x, y)) - r) <= 1e-13*(big + len) && std::fabs(std::fabs(p.points[3*i + 2] - z) - 0.5*len) <= 1e-13*(big + len), "cylinder", "point " << i << " is not on the rim"); }
  size_t e; ref::R v = closed3(p.facets, p.points, "cylinder", &e); PBT_CHECK((long)m - (long)e + (long)p.facets.size() == 2, "cylinder", "not a simple surface"); const double V = 0.5*n*r*r*std::sin(2*M_PI/n)*len; PBT_CHECK(std::fabs((double)v - V) <= 1e-4*V + 1e-12*big*big*(big + len), "cylinder", "encloses " << (double)v << ", the prism has " << V);
}
// OFF files: what a reader gets back is the PLC.
template<int D> static void off(Src& s, Case& c) {
  const int n = s.range(D + 1, 30); Reals pts; for (int i = 0; i != D*n; ++i) pts.push_back(s.chance(1, 2) ? s.range(-50, 50)*0.25 : std::ldexp(s.unit(), s.range(-20, 20))); polytope::PLC<D, double> plc;
  auto facet = [&]() { std::vector<int> f; int k = D == 2 ? 2 : s.range(3, 6), b = (int)s.draw(n - 1); for (int i = 0; i != k; ++i) f.push_back((b + i)%n); return f; }; int nf = s.range(1, 10), nh = s.range(0, 3); for (int i = 0; i != nf; ++i) plc.facets.push_back(facet()); for (int h = 0; h != nh; ++h) { plc.holes.push_back(std::vector<std::vector<int> >()); int k = s.range(1, 5); for (int i = 0; i != k; ++i) plc.holes.back().push_back(facet()); }
  std::vector<std::vector<int> > all(plc.facets); for (auto& h : plc.holes) all.insert(all.end(), h.begin(), h.end()); c.desc << "facets=" << pbt::str(plc.facets) << " holes' facets=" << all.size() - plc.facets.size() << " points=" << pbt::str(pts); c.nontrivial = nh > 0; c.label(nh ? "with holes" : "no holes");
  const std::string name = c.scratch + "/plc.off"; polytope::writePLCtoOFF(plc, pts, name); std::ifstream in(name.c_str()); std::string word; long np, nfac, ne; in >> word >> np >> nfac >> ne;
  PBT_CHECK(in && word == "OFF", "off-header", "the file starts with '" << word << "'"); PBT_CHECK(np == n, "off-header", "the header says " << np << " points, there are " << n); PBT_CHECK(nfac == (long)all.size(), "off-header", "the header says " << nfac << " facets, the PLC and its holes have " << all.size());
  for (size_t i = 0; i != pts.size(); ++i) { double v; in >> v; PBT_CHECK(in && std::fabs(v - pts[i]) <= 1e-5*std::fabs(pts[i]), "off-points", "coordinate " << i << " reads back as " << v << " instead of " << pts[i]); }
  for (size_t i = 0; i != all.size(); ++i) { size_t k; in >> k; PBT_CHECK(in && k == all[i].size(), "off-facets", "facet " << i << " reads back with " << k << " points instead of " << all[i].size()); for (size_t q = 0; q != k; ++q) { int v; in >> v; PBT_CHECK(in && v == all[i][q], "off-facets", "facet " << i << " reads back with point " << v << " instead of " << all[i][q]); } }
  in >> word; PBT_CHECK(!in, "off-facets", "the file goes on after the last facet"); std::remove(name.c_str());
}
int main(int argc, char** argv) {
  const std::string rd = "an arbitrary PLC over up to 40 points with up to 12 facets and 3 holes; non-trivial: facets and holes there and some point unused", of = "a PLC over up to 30 points with up to 3 holes, written and read back; non-trivial: with holes";
  return pbt::run(argc, argv, "P25", {pbt::target("reduced2", reduced<2>, 6000, 200000, rd), pbt::target("reduced3", reduced<3>, 6000, 200000, rd), pbt::target("cells2", cells2, 1500, 40000, "a 2D tessellation with up to 25 cells, every cell turned into a PLC; non-trivial: at least three cells"), pbt::target("cells3", cells3, 1500, 40000, "a 3D prism mesh, every cell turned into a PLC; non-trivial: at least two cells"),
    pbt::target("canned", canned, 3000, 80000, "circles, boxes, spheres and cylinders with radii 1e-4..1e5 about any center, cylinders from flat discs to needles; all non-trivial"), pbt::target("off2", off<2>, 2000, 50000, of), pbt::target("off3", off<3>, 2000, 50000, of)},
    {"spheres have at least two rows of points"});
}
