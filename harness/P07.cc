// P07: tessellating generators with repetitions.
#include "tess.hh"
using namespace tess;
static void body(Src& s, Case& c, int nmax) {
  const bool nonconvex = s.chance(1, 5); Domain d = nonconvex ? generalDomain(s, c) : convexDomain(s, c);
  std::vector<P> g = cloud(s, c, d, nmax, 4e-3, 4e-3); const double L = d.length();
  // The tolerance: none, tiny, or up to a quarter of the spacing.
  static const double tl[] = {0, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3}; const double tol = L*tl[s.draw(5)];
  // The list handed over: every generator at least once, some several times, in some order.
  std::vector<P> in; std::vector<size_t> who; const bool dup = !s.chance(1, 5), nearby = dup && tol >= 0.99e-4*L && s.chance(1, 3), far = s.chance(1, 2);
  for (size_t i = 0; i != g.size(); ++i) { in.push_back(g[i]); who.push_back(i); }
  if (dup) { int k = s.range(1, (int)std::min<size_t>(2*g.size(), 60)); for (int q = 0; q != k; ++q) { size_t i = s.draw(g.size() - 1); P p = g[i];
      if (nearby) { p.x = (double)(p.x + tol*(s.unit(10) - 0.5)); p.y = (double)(p.y + tol*(s.unit(10) - 0.5)); }
      size_t at = far ? s.draw(in.size()) : in.size(); in.insert(in.begin() + at, p); who.insert(who.begin() + at, i); } }
  describe(c, d, in); c.desc << " tol=" << tol; c.nontrivial = dup && g.size() >= 2; c.label(!dup ? "all distinct" : nearby ? "close copies" : "exact copies"); c.label(tol > 0 ? "with a tolerance" : "no tolerance");
  enum { UNB, BOX, PL, RED }; int form = (int)s.draw(3); if (nonconvex && form == UNB) form = RED; if (form == BOX && !isBox(d)) form = PL; if (form == UNB && g.size() < 2) form = RED;
  static const char* fn[] = {"unbounded", "box", "PLC", "ReducedPLC"}; c.label(fn[form]);
  polytope::PLC<2, double> plc; Reals pts; toPLC(d, plc, pts); P lo, hi; d.bounds(lo, hi); double a[2] = {(double)lo.x, (double)lo.y}, b[2] = {(double)hi.x, (double)hi.y};
  polytope::ReducedPLC<2, double> red; red.points = pts; red.facets = plc.facets; red.holes = plc.holes;
  Boost2 t; const polytope::Tessellator<2, double>& T = t; Mesh2 m, m2; std::vector<unsigned> map; const Reals fl = flat(in);
  if (form == UNB) map = T.tessellateDegenerate(fl, tol, m); else if (form == BOX) map = T.tessellateDegenerate(fl, a, b, tol, m);
  else if (form == PL) map = T.tessellateDegenerate(fl, pts, plc, tol, m); else map = T.tessellateDegenerate(fl, red, tol, m);
  PBT_CHECK(map.size() == in.size(), "map-size", map.size() << " entries for " << in.size() << " generators");
  const size_t n = m.cells.size(); std::vector<int> rep(n, -1);
  for (size_t i = 0; i != in.size(); ++i) { PBT_CHECK(map[i] < n, "map-range", "generator " << i << " goes to cell " << map[i] << " of " << n); if (rep[map[i]] < 0) rep[map[i]] = (int)i; }
  for (size_t k = 0; k != n; ++k) PBT_CHECK(rep[k] >= 0, "map-range", "no generator goes to cell " << k);
  // The merging tolerance is the larger of tol and the resolution of 31 bits.
  const double merge = 1.5*std::max(tol, L*1e-9);
  std::vector<std::vector<size_t> > members(n); for (size_t i = 0; i != in.size(); ++i) members[map[i]].push_back(i);
  for (size_t k = 0; k != n; ++k) for (size_t q = 1; q < members[k].size(); ++q) PBT_CHECK(ref::dist(in[members[k][0]], in[members[k][q]]) <= merge, "merged-distinct", "generators " << members[k][0] << " and " << members[k][q] << " share cell " << k << " but are " << (double)(ref::dist(in[members[k][0]], in[members[k][q]])/L) << " L apart");
  std::map<std::pair<ref::R, ref::R>, size_t> first;
  for (size_t i = 0; i != in.size(); ++i) { std::pair<ref::R, ref::R> key(in[i].x, in[i].y); auto it = first.insert(std::make_pair(key, i)).first; PBT_CHECK(map[i] == map[it->second], "copies-split", "generators " << it->second << " and " << i << " coincide but go to cells " << map[it->second] << " and " << map[i]); }
  if (!dup) for (size_t i = 0; i != in.size(); ++i) PBT_CHECK(map[i] == i, "map-order", "all generators are distinct but generator " << i << " goes to cell " << map[i]);
  // The mesh is the tessellation of one generator per cell.
  std::vector<P> u; for (size_t k = 0; k != n; ++k) u.push_back(in[rep[k]]);
  if (form == UNB) T.tessellate(flat(u), m2); else if (form == BOX) T.tessellate(flat(u), a, b, m2); else if (form == PL) T.tessellate(flat(u), pts, plc, m2); else T.tessellate(flat(u), red, m2);
  if (nearby) { // generators this close together are more than the tessellator promises to tell apart: only the map is judged
    for (size_t i = 0; i != u.size(); ++i) for (size_t j = 0; j != i; ++j) if (ref::dist(u[i], u[j]) < 1e-3*L) { c.label("close copies kept apart"); return; } }
  mesh::checkIndices(m, n); mesh::checkIndices(m2, n);
  if (!nearby) for (size_t k = 0; k != n; ++k) {
    Poly p = mesh::cellPoly(m, k), q = mesh::cellPoly(m2, k); ref::R A = std::fabs((double)ref::area(p)), B = std::fabs((double)ref::area(q));
    PBT_CHECK(std::fabs((double)(A - B)) <= 1e-7*std::max<ref::R>(L*L, B), "cell-differs", "cell " << k << " has area " << (double)A << " but tessellating the distinct generators gives " << (double)B);
    for (size_t v = 0; v != p.size(); ++v) if (ref::dist(p[v], u[k]) < 2*L) PBT_CHECK(ref::polyDist(p[v], q) <= 1e-6*L, "cell-differs", "cell " << k << " reaches " << pt(p[v]) << " off the boundary of the same cell of the distinct generators");
  }
  for (size_t i = 0; i != in.size(); ++i) { Poly p = mesh::cellPoly(m, map[i]); if (nearby && ref::polyDist(in[i], p) <= merge) continue; PBT_CHECK(ref::inside(in[i], p), "generator-outside", "generator " << i << " " << pt(in[i]) << " is outside cell " << map[i] << " it is said to own"); }
}
static void small(Src& s, Case& c) { body(s, c, 8); }
static void medium(Src& s, Case& c) { body(s, c, 60); }
int main(int argc, char** argv) {
  const std::string r = "a domain or none, a cloud of generators with exact or close copies inserted anywhere in the list, a tolerance between none and 1e-3 of the domain, each of the four tessellateDegenerate calls; non-trivial: at least two distinct generators and at least one copy";
  return pbt::run(argc, argv, "P07", {pbt::target("small", small, 4000, 80000, r), pbt::target("medium", medium, 1500, 30000, r)},
    {"whether two generators closer than the tolerance are merged is not judged unless they coincide; distinct generators are at least 4e-3 of the domain apart"});
}
