// Reference geometry, written independently of the library: the oracles' only
// source of geometric truth.  Everything is long double and straightforward.
#ifndef VERIF_GEOM_HH
#define VERIF_GEOM_HH
#include <vector>
#include <cmath>
#include <algorithm>
#include <limits>
#include <utility>

namespace ref {

typedef long double R;
struct P { R x, y; P(): x(0), y(0) {} P(R a, R b): x(a), y(b) {} };
inline P operator+(P a, P b) { return P(a.x + b.x, a.y + b.y); }
inline P operator-(P a, P b) { return P(a.x - b.x, a.y - b.y); }
inline P operator*(R s, P a) { return P(s*a.x, s*a.y); }
inline R dot(P a, P b) { return a.x*b.x + a.y*b.y; }
inline R cross(P a, P b) { return a.x*b.y - a.y*b.x; }
inline R norm(P a) { return std::sqrt(dot(a, a)); }
inline R dist(P a, P b) { return norm(a - b); }
typedef std::vector<P> Poly;

inline R area(const Poly& p) {
  R s = 0; if (p.empty()) return 0; const P o = p[0];
  for (size_t i = 0; i != p.size(); ++i) s += cross(p[i] - o, p[(i + 1)%p.size()] - o);
  return s/2;
}
inline P centroid(const Poly& p) {
  R s = 0; P c; const P o = p[0];
  for (size_t i = 0; i != p.size(); ++i) {
    P a = p[i] - o, b = p[(i + 1)%p.size()] - o; R w = cross(a, b); s += w; c = c + w*(a + b);
  }
  return o + (1/(3*s))*c;
}
inline R perimeter(const Poly& p) {
  R s = 0; for (size_t i = 0; i != p.size(); ++i) s += dist(p[i], p[(i + 1)%p.size()]); return s;
}

// Distance from q to the segment ab.
inline R segDist(P q, P a, P b) {
  P d = b - a; R l2 = dot(d, d); if (l2 == 0) return dist(q, a);
  R t = dot(q - a, d)/l2; t = t < 0 ? 0 : t > 1 ? 1 : t; return dist(q, a + t*d);
}
inline R polyDist(P q, const Poly& p) {
  R m = std::numeric_limits<R>::infinity();
  for (size_t i = 0; i != p.size(); ++i) m = std::min(m, segDist(q, p[i], p[(i + 1)%p.size()]));
  return m;
}
// Even-odd crossing test (exact ties on the boundary are the caller's business).
inline bool inside(P q, const Poly& p) {
  bool in = false;
  for (size_t i = 0, j = p.size() - 1; i != p.size(); j = i++) {
    if ((p[i].y > q.y) != (p[j].y > q.y)) {
      R x = p[j].x + (q.y - p[j].y)/(p[i].y - p[j].y)*(p[i].x - p[j].x);
      if (q.x < x) in = !in;
    }
  }
  return in;
}
// Winding number of p about q.
inline int winding(P q, const Poly& p) {
  int w = 0;
  for (size_t i = 0; i != p.size(); ++i) {
    P a = p[i], b = p[(i + 1)%p.size()];
    if (a.y <= q.y) { if (b.y > q.y && cross(b - a, q - a) > 0) ++w; }
    else if (b.y <= q.y && cross(b - a, q - a) < 0) --w;
  }
  return w;
}

// Proper or touching intersection of closed segments.
inline int sgn(R v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline bool onSeg(P a, P b, P q) { return std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y); }
inline bool segsMeet(P a, P b, P c, P d) {
  int o1 = sgn(cross(b - a, c - a)), o2 = sgn(cross(b - a, d - a)), o3 = sgn(cross(d - c, a - c)), o4 = sgn(cross(d - c, b - c));
  if (o1*o2 < 0 && o3*o4 < 0) return true;
  return (o1 == 0 && onSeg(a, b, c)) || (o2 == 0 && onSeg(a, b, d)) || (o3 == 0 && onSeg(c, d, a)) || (o4 == 0 && onSeg(c, d, b));
}
inline R segSegDist(P a, P b, P c, P d) {
  if (segsMeet(a, b, c, d)) return 0;
  return std::min(std::min(segDist(a, c, d), segDist(b, c, d)), std::min(segDist(c, a, b), segDist(d, a, b)));
}

// A domain: an outer ring (counter-clockwise) and hole rings (clockwise).
struct Domain {
  Poly outer; std::vector<Poly> holes;
  bool contains(P q) const {
    if (!inside(q, outer)) return false;
    for (size_t i = 0; i != holes.size(); ++i) if (inside(q, holes[i])) return false;
    return true;
  }
  R boundaryDist(P q) const {
    R m = polyDist(q, outer);
    for (size_t i = 0; i != holes.size(); ++i) m = std::min(m, polyDist(q, holes[i]));
    return m;
  }
  R area() const {
    R a = std::fabs(ref::area(outer));
    for (size_t i = 0; i != holes.size(); ++i) a -= std::fabs(ref::area(holes[i]));
    return a;
  }
  R perimeter() const {
    R a = ref::perimeter(outer);
    for (size_t i = 0; i != holes.size(); ++i) a += ref::perimeter(holes[i]);
    return a;
  }
  bool convex() const {
    if (!holes.empty()) return false;
    for (size_t i = 0; i != outer.size(); ++i)
      if (cross(outer[(i + 1)%outer.size()] - outer[i], outer[(i + 2)%outer.size()] - outer[(i + 1)%outer.size()]) < 0) return false;
    return true;
  }
  // The distance of the open segment qr from the boundary (0 when it crosses).
  R clearance(P q, P r) const {
    R m = std::numeric_limits<R>::infinity();
    for (size_t i = 0; i != outer.size(); ++i) m = std::min(m, segSegDist(q, r, outer[i], outer[(i + 1)%outer.size()]));
    for (size_t h = 0; h != holes.size(); ++h)
      for (size_t i = 0; i != holes[h].size(); ++i) m = std::min(m, segSegDist(q, r, holes[h][i], holes[h][(i + 1)%holes[h].size()]));
    return m;
  }
  void bounds(P& lo, P& hi) const {
    lo = hi = outer[0];
    for (size_t i = 1; i != outer.size(); ++i) {
      lo.x = std::min(lo.x, outer[i].x); lo.y = std::min(lo.y, outer[i].y);
      hi.x = std::max(hi.x, outer[i].x); hi.y = std::max(hi.y, outer[i].y);
    }
  }
  R length() const { P a, b; bounds(a, b); return std::max(b.x - a.x, b.y - a.y); }
};

// Clip a convex polygon to the side of the line where dot(n, x) <= c.
inline Poly clipHalf(const Poly& p, P n, R c) {
  Poly r;
  for (size_t i = 0; i != p.size(); ++i) {
    P a = p[i], b = p[(i + 1)%p.size()]; R da = dot(n, a) - c, db = dot(n, b) - c;
    if (da <= 0) r.push_back(a);
    if ((da < 0 && db > 0) || (da > 0 && db < 0)) r.push_back(a + (da/(da - db))*(b - a));
  }
  return r;
}
// The Voronoi cell of generator i in a convex domain.
inline Poly voronoiCell(size_t i, const std::vector<P>& g, const Poly& domain) {
  Poly c = domain;
  for (size_t j = 0; j != g.size() && !c.empty(); ++j) if (j != i) {
    P n = g[j] - g[i]; P m = 0.5L*(g[i] + g[j]); c = clipHalf(c, n, dot(n, m));
  }
  return c;
}

// Convex hull (monotone chain), strictly convex, counter-clockwise, indices into v.
inline std::vector<size_t> hull(const std::vector<P>& v) {
  std::vector<size_t> id(v.size()); for (size_t i = 0; i != id.size(); ++i) id[i] = i;
  std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return v[a].x != v[b].x ? v[a].x < v[b].x : v[a].y != v[b].y ? v[a].y < v[b].y : a < b; });
  id.erase(std::unique(id.begin(), id.end(), [&](size_t a, size_t b) { return v[a].x == v[b].x && v[a].y == v[b].y; }), id.end());
  if (id.size() < 3) return id;
  std::vector<size_t> h(2*id.size()); size_t k = 0;
  for (size_t i = 0; i != id.size(); ++i) { while (k >= 2 && cross(v[h[k-1]] - v[h[k-2]], v[id[i]] - v[h[k-2]]) <= 0) --k; h[k++] = id[i]; }
  for (size_t i = id.size() - 1, t = k + 1; i-- > 0; ) { while (k >= t && cross(v[h[k-1]] - v[h[k-2]], v[id[i]] - v[h[k-2]]) <= 0) --k; h[k++] = id[i]; }
  h.resize(k - 1); return h;
}

// ------------------------------------------------------------------ 3D
struct Q { R x, y, z; Q(): x(0), y(0), z(0) {} Q(R a, R b, R c): x(a), y(b), z(c) {} };
inline Q operator+(Q a, Q b) { return Q(a.x + b.x, a.y + b.y, a.z + b.z); }
inline Q operator-(Q a, Q b) { return Q(a.x - b.x, a.y - b.y, a.z - b.z); }
inline Q operator*(R s, Q a) { return Q(s*a.x, s*a.y, s*a.z); }
inline R dot(Q a, Q b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline Q cross(Q a, Q b) { return Q(a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x); }
inline R norm(Q a) { return std::sqrt(dot(a, a)); }
inline R dist(Q a, Q b) { return norm(a - b); }
inline R det(Q a, Q b, Q c) { return dot(a, cross(b, c)); }

}
#endif
