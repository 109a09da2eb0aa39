// P17: the 3D convex hull.
#include "pbt.hh"
#include "geom.hh"
#include "polytope.hh"
#include "convexHull_3d.hh"
#include <set>
#include <map>
using namespace pbt; using ref::Q; using ref::R;
typedef std::vector<double> Reals;
// The exact hull's volume and support: brute force over all triples (n small).
static void hull3(Src& s, Case& c) {
  std::vector<Q> v; int kind = (int)s.draw(5); static const char* names[] = {"uniform", "lattice", "sphere", "box corners and inside", "duplicates", "prism"}; c.label(std::string("points:") + names[kind]);
  int n = s.range(4, 26);
  for (int i = 0; i != n; ++i) {
    double x = s.unit(16), y = s.unit(16), z = s.unit(16);
    if (kind == 0) v.push_back(Q(x, y, z));
    else if (kind == 1) v.push_back(Q(std::floor(4*x)/4, std::floor(4*y)/4, std::floor(4*z)/4));
    else if (kind == 2) { double a = 6.283185307179586*x, w = 2*y - 1, r = std::sqrt(1 - w*w); v.push_back(Q((double)(r*std::cos(a)), (double)(r*std::sin(a)), w)); }
    else if (kind == 3) v.push_back(i < 8 ? Q(i&1, (i >> 1)&1, (i >> 2)&1) : Q(x, y, z));
    else if (kind == 4) v.push_back(!v.empty() && s.chance(1, 2) ? v[s.draw(v.size() - 1)] : Q(x, y, z));
    else { int k = std::max(3, n/2); double a = 6.283185307179586*(i%k)/k; v.push_back(Q((double)std::cos(a), (double)std::sin(a), i < k ? 0 : 1)); }
  }
  double sc = 1; Q off; if (s.chance(1, 3)) { static const double S[] = {2, 10, 0.25, 100, 1e-6, 1e-4, 1e4, 1e6}; sc = S[s.draw(7)]; off = Q(s.range(-8, 8)*sc, s.range(-8, 8)*sc, s.range(-8, 8)*sc); }
  Reals q; for (size_t i = 0; i != v.size(); ++i) { v[i] = Q((double)(off.x + sc*v[i].x), (double)(off.y + sc*v[i].y), (double)(off.z + sc*v[i].z)); q.push_back(v[i].x); q.push_back(v[i].y); q.push_back(v[i].z); }
  if (s.chance(1, 3)) for (size_t i = v.size(); i > 1; --i) { size_t j = s.draw(i - 1); std::swap(v[i - 1], v[j]); for (int k = 0; k != 3; ++k) std::swap(q[3*(i - 1) + k], q[3*j + k]); }
  c.desc << "points=" << str(q); const size_t m = v.size(); Q lo = v[0], hi = v[0]; for (size_t i = 0; i != m; ++i) { lo = Q(std::min(lo.x, v[i].x), std::min(lo.y, v[i].y), std::min(lo.z, v[i].z)); hi = Q(std::max(hi.x, v[i].x), std::max(hi.y, v[i].y), std::max(hi.z, v[i].z)); }
  const double L = std::max<double>(hi.x - lo.x, std::max(hi.y - lo.y, hi.z - lo.z)), dx = 1e-6*L; if (!(L > 0)) throw Discard();
  // Quantized points must be distinct or equal: 21 bits over the bounding box.
  for (size_t i = 0; i != m; ++i) for (size_t j = 0; j != i; ++j) { R d = ref::dist(v[i], v[j]); if (d > 0 && d < 1e-3*L) throw Discard(); }
  // Only full-dimensional sets have a 3D hull; nearly flat ones are not judged.
  R vmax = 0; for (size_t i = 1; i < m; ++i) for (size_t j = 1; j < i; ++j) for (size_t k = 1; k < j; ++k) vmax = std::max(vmax, std::fabs(ref::det(v[i] - v[0], v[j] - v[0], v[k] - v[0])));
  if (vmax < 0.02*L*L*L || hi.x - lo.x < 0.05*L || hi.y - lo.y < 0.05*L || hi.z - lo.z < 0.05*L) throw Discard();
  // Planes through three points with another point a hair off make the answer a matter of tolerance.
  for (size_t i = 0; i != m; ++i) for (size_t j = 0; j != i; ++j) for (size_t k = 0; k != j; ++k) { Q nn = ref::cross(v[j] - v[i], v[k] - v[i]); R a = ref::norm(nn); if (a < 1e-9*L*L) continue; if (a < 1e-4*L*L) throw Discard(); for (size_t l = 0; l != m; ++l) { R d = std::fabs(ref::dot(nn, v[l] - v[i]))/a; if (d > 1e-12*L*(1 + ref::norm(off)/L) && d < 1e-5*L) throw Discard(); } }
  double low[3] = {(double)lo.x, (double)lo.y, (double)lo.z};
  polytope::PLC<3, double> h = polytope::convexHull_3d<double>(q, low, dx);
  c.nontrivial = m > 4; const double tol = 1e-7*L; std::map<std::pair<int, int>, int> edge; R vol = 0; std::set<int> used;
  PBT_CHECK(h.facets.size() >= 4, "hull-shape", h.facets.size() << " facets");
  std::map<std::vector<R>, int> where; 
  auto canon = [&](int i) { std::vector<R> k = {v[i].x, v[i].y, v[i].z}; return where.insert(std::make_pair(k, i)).first->second; };
  for (size_t f = 0; f != h.facets.size(); ++f) {
    const std::vector<int>& t = h.facets[f]; PBT_CHECK(t.size() == 3, "hull-shape", "facet " << f << " has " << t.size() << " points");
    for (int k = 0; k != 3; ++k) { PBT_CHECK(t[k] >= 0 && t[k] < (int)m, "hull-shape", "facet " << f << " names point " << t[k] << " of " << m); used.insert(t[k]); ++edge[std::make_pair(canon(t[k]), canon(t[(k + 1)%3]))]; }
    Q a = v[t[0]], nn = ref::cross(v[t[1]] - a, v[t[2]] - a); R A = ref::norm(nn); 
    PBT_CHECK(A > 1e-9*L*L, "hull-facet", "facet " << f << " (" << t[0] << "," << t[1] << "," << t[2] << ") has no area");
    for (size_t l = 0; l != m; ++l) PBT_CHECK(ref::dot(nn, v[l] - a) <= tol*A, "hull-misses-point", "point " << l << " lies " << (double)(ref::dot(nn, v[l] - a)/A) << " outside facet " << f << " (" << t[0] << "," << t[1] << "," << t[2] << ")");
    vol += ref::dot(a - v[0], nn)/6;
  }
  for (std::map<std::pair<int, int>, int>::iterator e = edge.begin(); e != edge.end(); ++e) {
    PBT_CHECK(e->second == 1, "hull-closed", "edge " << e->first.first << "-" << e->first.second << " is walked " << e->second << " times in one direction");
    PBT_CHECK(edge.count(std::make_pair(e->first.second, e->first.first)), "hull-closed", "edge " << e->first.first << "-" << e->first.second << " has one facet only");
  }
  PBT_CHECK(vol > 0, "hull-orientation", "the facets do not face outward");
  // Euler: V - E + F = 2.
  std::set<int> cu; for (std::set<int>::iterator k = used.begin(); k != used.end(); ++k) cu.insert(canon(*k));
  PBT_CHECK((long)cu.size() - (long)edge.size()/2 + (long)h.facets.size() == 2, "hull-closed", cu.size() << " corners, " << edge.size()/2 << " edges, " << h.facets.size() << " facets");
  // A repeated point is represented by its first copy.
  for (std::set<int>::iterator k = used.begin(); k != used.end(); ++k) for (int j = 0; j != *k; ++j) PBT_CHECK(ref::dist(v[j], v[*k]) > 0, "hull-duplicates", "the hull names point " << *k << ", a repetition of point " << j);
}
static void large(Src& s, Case& c) {
  const size_t m = s.range(30, 250); Reals q; bool sphere = s.chance(1, 2); std::vector<Q> v; c.label(sphere ? "points:ball" : "points:cube");
  for (size_t i = 0; i != m; ++i) { double x = s.unit(24), y = s.unit(24), z = s.unit(24); if (sphere) { double a = 6.283185307179586*x, w = 2*y - 1, r = std::sqrt(1 - w*w), t = s.chance(1, 2) ? 1 : z; x = t*r*std::cos(a); y = t*r*std::sin(a); z = t*w; } v.push_back(Q(x, y, z)); q.push_back(x); q.push_back(y); q.push_back(z); }
  c.desc << "points=" << str(q); c.nontrivial = true; double low[3] = {-1, -1, -1};
  polytope::PLC<3, double> h = polytope::convexHull_3d<double>(q, low, 1e-6); std::map<std::pair<int, int>, int> edge; std::set<int> used;
  for (size_t f = 0; f != h.facets.size(); ++f) {
    const std::vector<int>& t = h.facets[f]; PBT_CHECK(t.size() == 3, "hull-shape", "facet " << f << " has " << t.size() << " points");
    for (int k = 0; k != 3; ++k) { PBT_CHECK(t[k] >= 0 && t[k] < (int)m, "hull-shape", "facet " << f << " names point " << t[k] << " of " << m); used.insert(t[k]); ++edge[std::make_pair(t[k], t[(k + 1)%3])]; }
    Q a = v[t[0]], nn = ref::cross(v[t[1]] - a, v[t[2]] - a); R A = ref::norm(nn);
    for (size_t l = 0; l != m; ++l) PBT_CHECK(ref::dot(nn, v[l] - a) <= 1e-6*A + 1e-12, "hull-misses-point", "point " << l << " lies " << (double)(ref::dot(nn, v[l] - a)/A) << " outside facet " << f);
  }
  for (std::map<std::pair<int, int>, int>::iterator e = edge.begin(); e != edge.end(); ++e) PBT_CHECK(e->second == 1 && edge.count(std::make_pair(e->first.second, e->first.first)), "hull-closed", "edge " << e->first.first << "-" << e->first.second << " is not shared by two facets that face the same side");
  PBT_CHECK((long)used.size() - (long)edge.size()/2 + (long)h.facets.size() == 2, "hull-closed", used.size() << " corners, " << edge.size()/2 << " edges, " << h.facets.size() << " facets");
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "P17", {pbt::target("hull3", hull3, 40000, 800000, "4-26 points in space (uniform, lattice, sphere, box, repeated, prism), in any order, scale and place; every facet is checked against every point, the surface is closed, consistently oriented and has Euler number 2; non-trivial: more than 4 points"),
    pbt::target("large", large, 2000, 40000, "30-250 points in a cube or a ball; same checks; all non-trivial")},
    {"sets within 2 percent of flat, and sets with a point a hair off the plane of three others (between roundoff and 1e-5 of the extent), are not judged"});
}
