// Common ground of the 2D tessellation properties.
#ifndef VERIF_TESS_HH
#define VERIF_TESS_HH
#include "gen.hh"
#include "meshcheck.hh"
#include "BoostTessellator.hh"
#include <memory>

namespace tess {
using namespace gen; using mesh::Mesh2;
typedef polytope::BoostTessellator<double> Boost2;

// All lengths are in units of L, the longer side of the domain's bounding box.
const double OWN_TOL = 1e-7;    // roundoff allowed in "no generator is closer"
const double MARGIN = 1e-6;     // sample points this close to a tie or to the boundary are not judged
const double AREA_TOL = 1e-8;   // roundoff allowed in areas, in units of L^2

// How the domain is handed over.
inline void run(const Domain& d, const std::vector<P>& g, Mesh2& m) {
  polytope::PLC<2, double> plc; Reals pts; toPLC(d, plc, pts); Boost2 t; t.tessellate(flat(g), pts, plc, m);
}
inline bool isBox(const Domain& d) {
  if (!d.holes.empty() || d.outer.size() != 4) return false;
  P lo, hi; d.bounds(lo, hi);
  for (size_t i = 0; i != 4; ++i) if ((d.outer[i].x != lo.x && d.outer[i].x != hi.x) || (d.outer[i].y != lo.y && d.outer[i].y != hi.y)) return false;
  return true;
}
enum Form { FORM_PLC, FORM_REDUCED, FORM_BOX };
inline void runAs(Form f, const Domain& d, const std::vector<P>& g, Mesh2& m) {
  polytope::PLC<2, double> plc; Reals pts; toPLC(d, plc, pts); Boost2 t;
  if (f == FORM_PLC) t.tessellate(flat(g), pts, plc, m);
  else if (f == FORM_REDUCED) { polytope::ReducedPLC<2, double> r; r.points = pts; r.facets = plc.facets; r.holes = plc.holes; t.tessellate(flat(g), r, m); }
  else { P lo, hi; d.bounds(lo, hi); double a[2] = {(double)lo.x, (double)lo.y}, b[2] = {(double)hi.x, (double)hi.y}; t.tessellate(flat(g), a, b, m); }
}
inline Form form(Src& s, Case& c, const Domain& d) {
  Form f = (Form)s.draw(isBox(d) ? 2 : 1); c.label(f == FORM_PLC ? "via PLC" : f == FORM_REDUCED ? "via ReducedPLC" : "via box"); return f;
}

// Nearest generator of x, with the margin to the runner-up.
inline size_t nearest(P x, const std::vector<P>& g, ref::R* margin = 0) {
  size_t b = 0; ref::R d1 = 1e300L, d2 = 1e300L;
  for (size_t i = 0; i != g.size(); ++i) { ref::R d = ref::dist(x, g[i]); if (d < d1) { d2 = d1; d1 = d; b = i; } else if (d < d2) d2 = d; }
  if (margin) *margin = d2 - d1; return b;
}

// Sample points that stress a domain: uniform, near generators' bisectors, near the boundary, near mesh nodes.
inline P sample(Src& s, const Domain& d, const std::vector<P>& g, const Mesh2& m) {
  P lo, hi; d.bounds(lo, hi); const double L = d.length(); int kind = (int)s.draw(3);
  double u = s.unit(24), v = s.unit(24);
  if (kind == 1 && g.size() > 1) { P a = g[s.draw(g.size() - 1)], b = g[s.draw(g.size() - 1)]; P mid = 0.5L*(a + b); return mid + P(1e-3*L*(u - 0.5), 1e-3*L*(v - 0.5)); }
  if (kind == 2 && !m.nodes.empty()) { P n = mesh::node(m, s.draw(m.nodes.size()/2 - 1)); double r = s.chance(1, 2) ? 1e-2 : 1e-4; return n + P(r*L*(u - 0.5), r*L*(v - 0.5)); }
  if (kind == 3) { size_t i = s.draw(d.outer.size() - 1); P a = d.outer[i], b = d.outer[(i + 1)%d.outer.size()]; P n = a + (ref::R)u*(b - a); return n + P(2e-3*L*(v - 0.5), 2e-3*L*(s.unit(10) - 0.5)); }
  return P(lo.x + u*(hi.x - lo.x), lo.y + v*(hi.y - lo.y));
}

inline std::vector<Poly> polys(const Mesh2& m) { std::vector<Poly> r; for (size_t i = 0; i != m.cells.size(); ++i) r.push_back(mesh::cellPoly(m, i)); return r; }
inline std::string pt(P p) { std::ostringstream os; os.precision(17); os << "(" << (double)p.x << "," << (double)p.y << ")"; return os.str(); }
}
#endif
