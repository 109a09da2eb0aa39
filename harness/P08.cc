// P08: the tessellation does not depend on how the same problem is written down.
#include "tess.hh"
#include "orphans.hh"
#include <functional>
using namespace tess;
struct Problem { Domain d; std::vector<P> g; };
struct Solved { std::shared_ptr<Mesh2> m; operator const Mesh2&() const { return *m; } };
static Solved solve(Form f, const Domain& d, const std::vector<P>& g) { Solved r; r.m.reset(new Mesh2); runAs(f, d, g, *r.m); mesh::checkIndices(*r.m, g.size()); return r; }
// Compare cell by cell: area, and every corner of each on the other's outline.
static void same(const Mesh2& a, const Mesh2& b, const std::vector<size_t>& ia, const std::vector<size_t>& ib, double L, std::function<P(P)> f, double areaFactor, double sep, const char* what) {
  for (size_t k = 0; k != ia.size(); ++k) {
    Poly p = mesh::cellPoly(a, ia[k]), q = mesh::cellPoly(b, ib[k]); for (size_t v = 0; v != p.size(); ++v) p[v] = f(p[v]);
    ref::R A = std::fabs((double)ref::area(p)), B = std::fabs((double)ref::area(q)); const double L2 = L;
    PBT_CHECK(std::fabs((double)(A - B)) <= 4e-8*L2*(L2 + L2*L2/sep), what, "cell " << ia[k] << " has area " << (double)A << " one way and " << (double)B << " the other");
    for (size_t v = 0; v != p.size(); ++v) PBT_CHECK(ref::polyDist(p[v], q) <= 2e-7*(L + L*L/sep), what, "corner " << pt(p[v]) << " of cell " << ia[k] << " is not on the outline of the same cell computed the other way");
    for (size_t v = 0; v != q.size(); ++v) PBT_CHECK(ref::polyDist(q[v], p) <= 2e-7*(L + L*L/sep), what, "corner " << pt(q[v]) << " of cell " << ib[k] << " is not on the outline of the same cell computed the other way");
  }
  (void)areaFactor;
}
static double separation(const std::vector<P>& g, double L) { double s = L; for (size_t i = 0; i != g.size(); ++i) for (size_t j = 0; j != i; ++j) s = std::min(s, (double)ref::dist(g[i], g[j])); return s; }
static void body(Src& s, Case& c, int nmax) {
  const bool nonconvex = s.chance(1, 4); Domain d = nonconvex ? generalDomain(s, c) : convexDomain(s, c);
  std::vector<P> g = cloud(s, c, d, nmax, 2e-3, 2e-3); describe(c, d, g);
  if (nonconvex) { orphan::Model om(d, g); if (!om.clear() || om.encloses || om.grazing || om.cornered || om.groups.size()) throw pbt::Discard(); }
  const double L = d.length(), sep = separation(g, L); const size_t n = g.size(); c.nontrivial = n >= 3;
  std::vector<size_t> id(n); for (size_t i = 0; i != n; ++i) id[i] = i;
  Solved solved = solve(FORM_PLC, d, g); const Mesh2& base = solved; P lo, hi; d.bounds(lo, hi);
  auto keep = [](P p) { return p; };
  int kind = (int)s.draw(7);
  if (kind == 0) { // order of the generators
    c.label("permuted"); std::vector<size_t> perm = id; for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[s.draw(i - 1)]);
    std::vector<P> h(n); for (size_t i = 0; i != n; ++i) h[perm[i]] = g[i];
    c.desc << " permutation=" << pbt::str(perm); same(base, solve(FORM_PLC, d, h), id, perm, L, keep, 1, sep, "permutation");
  } else if (kind == 1) { // the way the domain is handed over, and where its ring starts
    c.label("other form"); Domain e = d; std::rotate(e.outer.begin(), e.outer.begin() + s.draw(e.outer.size() - 1), e.outer.end());
    for (size_t h = 0; h != e.holes.size(); ++h) std::rotate(e.holes[h].begin(), e.holes[h].begin() + s.draw(e.holes[h].size() - 1), e.holes[h].end());
    if (e.holes.size() > 1 && s.chance(1, 2)) std::swap(e.holes[0], e.holes.back());
    Form f = (Form)s.draw(isBox(d) ? 2 : 1); same(base, solve(f, e, g), id, id, L, keep, 1, sep, "form");
  } else if (kind == 2) { // redundant corners on the walls
    c.label("extra wall points"); Domain e; auto ext = [&](const Poly& p) { Poly q; for (size_t i = 0; i != p.size(); ++i) { q.push_back(p[i]); P b = p[(i + 1)%p.size()]; if (s.chance(1, 2)) { P mid = 0.5L*(p[i] + b); q.push_back(P((double)mid.x, (double)mid.y)); } } return q; };
    e.outer = ext(d.outer); for (size_t h = 0; h != d.holes.size(); ++h) e.holes.push_back(ext(d.holes[h]));
    same(base, solve(FORM_PLC, e, g), id, id, L, keep, 1, sep, "wall points");
  } else if (kind == 3 || kind == 4) { // moved and scaled by powers of two, or by anything
    c.label(kind == 3 ? "scaled" : "moved"); double sc = kind == 3 ? std::ldexp(1.0, s.range(-12, 12)) : 1, ox = kind == 4 ? L*s.range(-8, 8)/4.0 : 0, oy = kind == 4 ? L*s.range(-8, 8)/4.0 : 0; if (s.chance(1, 2)) sc *= 0.1 + s.unit(6);
    auto f = [&](P p) { return P((double)(sc*p.x + ox), (double)(sc*p.y + oy)); };
    Domain e = d; for (size_t i = 0; i != e.outer.size(); ++i) e.outer[i] = f(e.outer[i]); for (size_t h = 0; h != e.holes.size(); ++h) for (size_t i = 0; i != e.holes[h].size(); ++i) e.holes[h][i] = f(e.holes[h][i]);
    std::vector<P> h = g; for (size_t i = 0; i != n; ++i) h[i] = f(h[i]);
    c.desc << " scale=" << sc << " shift=" << ox << "," << oy; auto lf = [&](P p) { return P(sc*p.x + ox, sc*p.y + oy); };
    same(base, solve(FORM_PLC, e, h), id, id, L*sc, lf, sc*sc, sep*sc, "affine");
  } else if (kind == 5) { // mirrored or turned by a right angle
    int how = (int)s.draw(2); c.label(how == 0 ? "mirrored" : how == 1 ? "turned" : "transposed");
    auto f = [&](P p) { return how == 0 ? P(-p.x, p.y) : how == 1 ? P(-p.y, p.x) : P(p.y, p.x); };
    auto ring = [&](Poly p) { for (size_t i = 0; i != p.size(); ++i) p[i] = f(p[i]); if (how != 1) std::reverse(p.begin(), p.end()); return p; };
    Domain e; e.outer = ring(d.outer); for (size_t h = 0; h != d.holes.size(); ++h) e.holes.push_back(ring(d.holes[h]));
    std::vector<P> h = g; for (size_t i = 0; i != n; ++i) h[i] = f(h[i]);
    Solved o = solve(FORM_PLC, e, h); same(base, o, id, id, L, f, 1, sep, "symmetry");
  } else if (kind == 6) { // a further generator takes from the others and gives to none
    if (nonconvex || n < 2) throw pbt::Discard(); c.label("one more generator");
    std::vector<P> h(g.begin(), g.end() - 1); Solved less = solve(FORM_PLC, d, h); std::vector<Poly> big = polys(less), now = polys(base); ref::R taken = 0;
    for (size_t i = 0; i + 1 < n; ++i) { ref::R A = ref::area(big[i]), B = ref::area(now[i]); taken += A - B; PBT_CHECK(B <= A + 4e-8*L*(L + L*L/sep), "monotone", "cell " << i << " grew from " << (double)A << " to " << (double)B << " when a generator was added");
      for (size_t v = 0; v != now[i].size(); ++v) PBT_CHECK(ref::inside(now[i][v], big[i]) || ref::polyDist(now[i][v], big[i]) <= 2e-7*(L + L*L/sep), "monotone", "cell " << i << " reaches " << pt(now[i][v]) << " which it did not own before a generator was added");
      // cells that are not neighbors of the new one do not change
      bool nb = false; for (size_t k = 0; k != base.cells[n - 1].size() && !nb; ++k) { int f = base.cells[n - 1][k]; f = f < 0 ? ~f : f; for (size_t q = 0; q != base.faceCells[f].size(); ++q) { int w = base.faceCells[f][q]; if ((size_t)(w < 0 ? ~w : w) == i) nb = true; } }
      if (!nb) PBT_CHECK(std::fabs((double)(A - B)) <= 4e-8*L*(L + L*L/sep), "monotone", "cell " << i << " changed from " << (double)A << " to " << (double)B << " though the added generator is not its neighbor"); }
    ref::R got = ref::area(now[n - 1]); PBT_CHECK(std::fabs((double)(got - taken)) <= 4e-8*n*L*(L + L*L/sep), "monotone", "the new cell has area " << (double)got << " but the others lost " << (double)taken);
  } else { // the same tessellator used again gives the same answer bit for bit
    c.label("repeated"); polytope::PLC<2, double> plc; Reals pts; toPLC(d, plc, pts); Boost2 t; Mesh2 x, y, z; t.tessellate(flat(g), pts, plc, x);
    std::vector<P> other(g.rbegin(), g.rend()); if (other.size() > 1) other.pop_back(); if (!nonconvex) t.tessellate(flat(other), pts, plc, y); t.tessellate(flat(g), pts, plc, z);
    PBT_CHECK(x.nodes == z.nodes && x.faces == z.faces && x.cells == z.cells && x.faceCells == z.faceCells && x.boundaryFaces == z.boundaryFaces && x.boundaryNodes == z.boundaryNodes, "repeated", "a second tessellation by the same object differs from the first");
    same(base, x, id, id, L, keep, 1, sep, "repeated"); (void)lo; (void)hi;
  }
}
static void small(Src& s, Case& c) { body(s, c, 10); }
static void medium(Src& s, Case& c) { body(s, c, 80); }
int main(int argc, char** argv) {
  const std::string r = "a domain (convex, or non-convex without cut-off pieces), a cloud of generators, and one way of writing the same problem differently (permuted generators, another form or starting corner, redundant wall points, scaled, moved, mirrored or turned, one generator more, the same object used again); non-trivial: at least 3 generators; discarded: non-convex domains where a piece of a cell is cut off";
  return pbt::run(argc, argv, "P08", {pbt::target("small", small, 4000, 80000, r), pbt::target("medium", medium, 2000, 40000, r)},
    {"roundoff of 2e-7 of the domain's size in position, growing with the inverse of the generators' spacing"});
}
