// Generators of domains and generator clouds.
#ifndef VERIF_GEN_HH
#define VERIF_GEN_HH
#include "pbt.hh"
#include "geom.hh"
#include "polytope.hh"
#include <vector>

namespace gen {
using pbt::Src; using pbt::Case;
typedef std::vector<double> Reals;
using ref::P; using ref::Poly; using ref::Domain;

// The frame a case lives in: scale and offset of the unit square.
struct Frame { double s, ox, oy; Frame(): s(1), ox(0), oy(0) {} };
inline Frame frame(Src& src) {
  Frame f;
  if (src.chance(1, 3)) {
    static const double sc[] = {1, 2, 0.125, 10, 1000, 1e-3, 1e6, 1e-6, 3.7};
    f.s = sc[src.draw(8)];
    if (src.chance(1, 2)) { f.ox = f.s*src.range(-20, 20)*0.5; f.oy = f.s*src.range(-20, 20)*0.25; }
  }
  return f;
}
inline void apply(const Frame& f, Poly& p) { for (size_t i = 0; i != p.size(); ++i) p[i] = P((double)(f.ox + f.s*(double)p[i].x), (double)(f.oy + f.s*(double)p[i].y)); }
inline void apply(const Frame& f, Domain& d) { apply(f, d.outer); for (size_t i = 0; i != d.holes.size(); ++i) apply(f, d.holes[i]); }

inline bool simple(const Poly& p, double sep) {
  const size_t n = p.size();
  for (size_t i = 0; i != n; ++i) {
    if (ref::dist(p[i], p[(i + 1)%n]) < sep) return false;
    for (size_t j = i + 1; j != n; ++j) {
      if (j == i || (i + 1)%n == j || (j + 1)%n == i) continue;
      if (ref::segSegDist(p[i], p[(i + 1)%n], p[j], p[(j + 1)%n]) < sep) return false;
    }
  }
  return true;
}

// A polygon star-shaped about c: sorted angles, radii in [rmin, rmax].
inline Poly star(Src& src, P c, double rmin, double rmax, int nmin, int nmax) {
  const int n = src.range(nmin, nmax); Poly p; const double two_pi = 6.283185307179586;
  const double jit = src.unit(8)*0.8, rot = src.unit(10)*two_pi;
  for (int i = 0; i != n; ++i) {
    double a = rot + (i + (src.unit(10) - 0.5)*jit)*two_pi/n, r = rmin + (rmax - rmin)*(1 - src.unit(10));
    p.push_back(P((double)(c.x + r*std::cos(a)), (double)(c.y + r*std::sin(a))));
  }
  return p;
}
inline Poly box(double x0, double y0, double x1, double y1) { Poly p; p.push_back(P(x0, y0)); p.push_back(P(x1, y0)); p.push_back(P(x1, y1)); p.push_back(P(x0, y1)); return p; }

// Convex domains in about the unit square.
inline Domain convexDomain(Src& src, Case& c, bool unitFrame = false) {
  Domain d; int kind = (int)src.draw(4);
  if (kind == 0) { d.outer = box(0, 0, 1, 1); c.label("domain:square"); }
  else if (kind == 1) { d.outer = box(0, 0, 1, 0.02 + 0.98*src.unit(10)); c.label("domain:rectangle"); }
  else if (kind == 2) { // regular-ish polygon
    int n = src.range(3, 12); double rot = src.unit(10)*6.283185307179586;
    for (int i = 0; i != n; ++i) d.outer.push_back(P((double)(0.5 + 0.5*std::cos(rot + i*6.283185307179586/n)), (double)(0.5 + 0.5*std::sin(rot + i*6.283185307179586/n))));
    c.label("domain:regular polygon");
  } else { // hull of random points, or of points on a coarse lattice
    std::vector<P> v; int n = src.range(3, 14); bool lat = src.chance(1, 3);
    for (int i = 0; i != n; ++i) { double x = src.unit(12), y = src.unit(12); if (lat) { x = std::floor(x*8)/8; y = std::floor(y*8)/8; } v.push_back(P(x, y)); }
    std::vector<size_t> h = ref::hull(v); for (size_t i = 0; i != h.size(); ++i) d.outer.push_back(v[h[i]]);
    if (d.outer.size() < 3 || ref::area(d.outer) < 0.03) d.outer = box(0, 0, 1, 1);
    for (size_t i = 0; i != d.outer.size(); ++i) if (ref::dist(d.outer[i], d.outer[(i + 1)%d.outer.size()]) < 0.004) { d.outer = box(0, 0, 1, 1); break; }
    c.label("domain:convex hull");
  }
  // Optionally start the ring somewhere else (the order of facets is the caller's).
  if (src.chance(1, 4)) std::rotate(d.outer.begin(), d.outer.begin() + src.draw(d.outer.size() - 1), d.outer.end());
  if (!unitFrame) apply(frame(src), d);
  return d;
}

// Non-convex domains, possibly with holes.
inline Domain generalDomain(Src& src, Case& c, bool allowHoles = true, bool unitFrame = false) {
  Domain d; int kind = (int)src.draw(6);
  switch (kind) {
  case 0: { // box, holes to come
    d.outer = box(0, 0, 1, 1); c.label("domain:square"); break; }
  case 1: { // L
    double a = 0.2 + 0.6*src.unit(6), b = 0.2 + 0.6*src.unit(6);
    d.outer = {P(0,0), P(1,0), P(1,b), P(a,b), P(a,1), P(0,1)}; c.label("domain:L"); break; }
  case 2: { // U: two prongs
    double a = 0.15 + 0.25*src.unit(6), b = 0.6 + 0.25*src.unit(6), h = 0.1 + 0.7*src.unit(6);
    d.outer = {P(0,0), P(1,0), P(1,1), P(b,1), P(b,h), P(a,h), P(a,1), P(0,1)}; c.label("domain:U"); break; }
  case 3: { // notch: a wedge cut from the top
    double a = 0.3 + 0.1*src.unit(6), b = 0.55 + 0.2*src.unit(6), h = 0.1 + 0.7*src.unit(6), x = 0.2 + 0.6*src.unit(6);
    d.outer = {P(0,0), P(1,0), P(1,1), P(b,1), P(x,h), P(a,1), P(0,1)}; c.label("domain:notch"); break; }
  case 4: { // comb
    int t = src.range(2, 4); double h = 0.15 + 0.5*src.unit(6), w = 1.0/(2*t - 1);
    d.outer.push_back(P(0,0)); d.outer.push_back(P(1,0));
    for (int i = t - 1; i >= 0; --i) {
      d.outer.push_back(P((double)((2*i + 1)*w), 1)); d.outer.push_back(P((double)(2*i*w), 1));
      if (i) { d.outer.push_back(P((double)(2*i*w), h)); d.outer.push_back(P((double)((2*i - 1)*w), h)); }
    }
    c.label("domain:comb"); break; }
  case 5: { d.outer = star(src, P(0.5,0.5), 0.1 + 0.3*src.unit(5), 0.5, 4, 14); c.label("domain:star"); break; }
  default: { // simple star with alternating radii
    int n = src.range(3, 7); double r = 0.15 + 0.25*src.unit(6), rot = src.unit(8);
    for (int i = 0; i != 2*n; ++i) { double a = (i + rot)*3.141592653589793/n, q = i%2 ? r : 0.5; d.outer.push_back(P((double)(0.5 + q*std::cos(a)), (double)(0.5 + q*std::sin(a)))); }
    c.label("domain:alternating star"); break; }
  }
  if (!simple(d.outer, 0.01) || ref::area(d.outer) < 0.02) d.outer = {P(0,0), P(1,0), P(1,0.5), P(0.5,0.5), P(0.5,1), P(0,1)};
  if (allowHoles && src.chance(1, 2)) {
    int nh = src.range(1, 3);
    for (int h = 0; h != nh; ++h) {
      P ctr(0.1 + 0.8*src.unit(8), 0.1 + 0.8*src.unit(8));
      double R = (double)d.boundaryDist(ctr)*0.8; if (!d.contains(ctr) || R < 0.03) continue;
      R *= 0.3 + 0.7*src.unit(6);
      Poly q = src.chance(1, 2) ? box((double)(ctr.x - 0.6*R), (double)(ctr.y - 0.6*R), (double)(ctr.x + 0.6*R), (double)(ctr.y + 0.6*R)) : star(src, ctr, 0.4*R, R, 3, 8);
      if (!simple(q, 0.004) || std::fabs((double)ref::area(q)) < 1e-4) continue;
      std::reverse(q.begin(), q.end()); d.holes.push_back(q);
    }
    if (!d.holes.empty()) c.label("domain:holes");
  }
  if (!unitFrame) apply(frame(src), d);
  return d;
}

// A cloud of generators strictly inside the domain, pairwise at least minSep*length apart
// and at least minWall*length from the boundary.
inline std::vector<P> cloud(Src& src, Case& c, const Domain& d, int nmax, double minSep = 1e-3, double minWall = 1e-3, int nmin = 1) {
  P lo, hi; d.bounds(lo, hi); const double L = (double)d.length(), w = (double)(hi.x - lo.x), h = (double)(hi.y - lo.y);
  std::vector<P> r; int kind = (int)src.draw(7), n = src.range(nmin, nmax);
  auto add = [&](double x, double y) {
    P q((double)x, (double)y);
    if (!d.contains(q) || d.boundaryDist(q) < minWall*L) return;
    for (size_t i = 0; i != r.size(); ++i) if (ref::dist(r[i], q) < minSep*L) return;
    r.push_back(q);
  };
  switch (kind) {
  case 0: case 1: case 2:
    for (int i = 0; i != n; ++i) { double x = src.unit(20), y = src.unit(20); add((double)lo.x + w*x, (double)lo.y + h*y); }
    c.label("cloud:uniform"); break;
  case 3: { // lattice: exact co-circular quadruples
    int m = std::max(1, (int)std::sqrt((double)n)); double a = src.chance(1, 2) ? 0.5 : 0.05 + 0.9*src.unit(8), drop = src.unit(3)*0.5;
    for (int i = 0; i != m; ++i) for (int j = 0; j != m; ++j) if (src.unit(8) >= drop) add((double)lo.x + w*(i + a)/m, (double)lo.y + h*(j + a)/m);
    c.label("cloud:lattice"); break; }
  case 4: { // clusters
    int k = src.range(1, 4); std::vector<P> ctr; for (int i = 0; i != k; ++i) { double x = src.unit(10), y = src.unit(10); ctr.push_back(P(lo.x + w*x, lo.y + h*y)); }
    double sp = 0.002 + 0.2*src.unit(6);
    for (int i = 0; i != n; ++i) { P q = ctr[src.draw(k - 1)]; double x = src.unit(16), y = src.unit(16); add((double)(q.x + sp*L*(x - 0.5)), (double)(q.y + sp*L*(y - 0.5))); }
    c.label("cloud:clusters"); break; }
  case 5: { // a line of generators (collinear), in one of several directions
    double x0 = src.unit(8), y0 = src.unit(8), x1 = src.unit(8), y1 = src.unit(8); int dir = (int)src.draw(3);
    if (dir == 1) y1 = y0; if (dir == 2) x1 = x0;
    for (int i = 0; i != n; ++i) { double t = (i + 0.5)/n; add((double)lo.x + w*(x0 + t*(x1 - x0)), (double)lo.y + h*(y0 + t*(y1 - y0))); }
    c.label("cloud:line"); break; }
  case 6: { // a ring (co-circular), with or without its centre
    double cx = 0.3 + 0.4*src.unit(6), cy = 0.3 + 0.4*src.unit(6), rad = 0.05 + 0.4*src.unit(6);
    // Known finding (see known_findings.txt): many co-circular generators with nothing at the
    // centre put ill-conditioned Voronoi vertices a few quanta apart; such rings stay small here.
    if (src.chance(1, 2)) add((double)lo.x + w*cx, (double)lo.y + h*cy); else n = std::min(n, 6);
    for (int i = 0; i != n; ++i) add((double)lo.x + w*(cx + rad*std::cos(6.283185307179586*i/n)), (double)lo.y + h*(cy + rad*std::sin(6.283185307179586*i/n)));
    c.label("cloud:ring"); break; }
  default: { // hexagonal lattice
    int m = std::max(1, (int)std::sqrt((double)n));
    for (int i = 0; i != m; ++i) for (int j = 0; j != m; ++j) add((double)lo.x + w*(i + (j%2 ? 0.75 : 0.25))/m, (double)lo.y + h*(j + 0.5)/m);
    c.label("cloud:hexagonal"); }
  }
  // Make sure the cloud is not too small.
  for (int k = 0; k != 400 && (int)r.size() < nmin; ++k) { double x = src.unit(12), y = src.unit(12); add((double)lo.x + w*x, (double)lo.y + h*y); }
  if ((int)r.size() < nmin) throw pbt::Discard();
  if (src.chance(1, 3)) for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[src.draw(i - 1)]);
  return r;
}

inline Reals flat(const std::vector<P>& v) { Reals r; for (size_t i = 0; i != v.size(); ++i) { r.push_back((double)v[i].x); r.push_back((double)v[i].y); } return r; }

// The domain as a PLC with its point list; extra: unused points and a shuffled numbering are
// not generated here (the library reads facets in ring order).
inline void toPLC(const Domain& d, polytope::PLC<2, double>& plc, Reals& pts) {
  plc.clear(); pts.clear();
  int n = (int)d.outer.size(); pts = flat(d.outer);
  for (int i = 0; i != n; ++i) { std::vector<int> f; f.push_back(i); f.push_back((i + 1)%n); plc.facets.push_back(f); }
  for (size_t h = 0; h != d.holes.size(); ++h) {
    int off = (int)pts.size()/2, m = (int)d.holes[h].size(); Reals q = flat(d.holes[h]); pts.insert(pts.end(), q.begin(), q.end());
    plc.holes.push_back(std::vector<std::vector<int> >());
    for (int i = 0; i != m; ++i) { std::vector<int> f; f.push_back(off + i); f.push_back(off + (i + 1)%m); plc.holes.back().push_back(f); }
  }
}
inline void describe(Case& c, const Domain& d, const std::vector<P>& g) {
  c.desc << "domain=" << pbt::str(flat(d.outer)); for (size_t h = 0; h != d.holes.size(); ++h) c.desc << " hole=" << pbt::str(flat(d.holes[h]));
  c.desc << " generators=" << pbt::str(flat(g));
}
}
#endif
